"""Hash-consed value terms used by the effect analysis.

A term is a value number with provenance: it says where a value comes from
(parameter, field path, container element, call result, ...).  Terms are built
through the smart constructors below, which normalise the spellings a value can
have in C++ (x.empty() / x.size()==0, a>b / b<a, it!=end() / count()>0, ...).
"""
import itertools


class Term:
    __slots__ = ('op', 'a', 'id', '_s', '_sub', 'ty')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_cnt = itertools.count()


def mk(op, *a):
    k = (op,) + tuple(('T', x.id) if isinstance(x, Term) else (type(x).__name__, x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.a, t.id = op, a, next(_cnt)
        t._s = None
        t._sub = None
        t.ty = None
        _tab[k] = t
    return t


NULL = mk('null')
TRUE = mk('b', True)
FALSE = mk('b', False)
VOID = mk('void')


def I(n):
    return mk('i', int(n))


def is_int(t):
    return t.op == 'i'


SIBLINGS = {}   # enumerator -> all enumerators of its (scoped, small) enum


def enum_axioms(cands):
    """A variable of a scoped enumeration has one of its enumerators as value."""
    out, seen = [], set()
    for t in cands:
        if t.op == 'eq':
            for x, y in (t.a, (t.a[1], t.a[0])):
                if y in SIBLINGS and (x, y.a[0].rsplit('::', 1)[0]) not in seen:
                    seen.add((x, y.a[0].rsplit('::', 1)[0]))
                    out.append(or_(*[eq(x, z) for z in SIBLINGS[y]]))
    return out


def const(t):
    """Comparable constant key or None."""
    if t.op in ('i', 'fl'):
        return ('n', t.a[0])
    if t.op == 'enum':
        return ('e', t.a[1])
    if t.op == 'b':
        return ('b', t.a[0])
    if t.op == 'null':
        return ('null',)
    if t.op == 'str':
        return ('s', t.a[0])
    return None


def struct(cls, fields):
    """fields: list of (name, term)."""
    return mk('struct', cls, Fields(sorted(fields, key=lambda x: x[0])))


class Fields(tuple):
    """Tuple of (name, term) hashable by identity of the terms."""

    def __new__(cls, items):
        return super().__new__(cls, [(n, t) for n, t in items])

    def __hash__(self):
        return hash(tuple((n, t.id) for n, t in self))

    def __eq__(self, o):
        return isinstance(o, Fields) and len(self) == len(o) and all(
            a[0] == b[0] and a[1] is b[1] for a, b in zip(self, o))


def sfield(t, name):
    for n, v in t.a[1]:
        if n == name:
            return v
    return None


def F(base, name):
    """Field path."""
    if base.op == 'struct':
        v = sfield(base, name)
        if v is not None:
            return v
    if base.op == 'ite':
        if any(x.op in ('struct', 'ite') for x in base.a[1:]):
            return ite(base.a[0], F(base.a[1], name), F(base.a[2], name))
    if base.op == 'find':
        if name in ('second', 'data'):
            return at(base.a[0], base.a[1])
        if name in ('first', 'id'):
            return base.a[1]
    return mk('f', base, name)


def at(c, i):
    if c.op == 'list' and is_int(i) and 0 <= i.a[0] < len(c.a):
        return c.a[i.a[0]]
    e = elems(c)
    if e is not None and is_int(i) and 0 <= i.a[0] < len(e.a):
        return e.a[i.a[0]]
    return mk('at', c, i)


def elems(c):
    """The element list of a std::array value."""
    if c.op == 'struct':
        d = dict(c.a[1])
        if list(d) == ['_M_elems'] and d['_M_elems'].op == 'list':
            return d['_M_elems']
    return None


def size(c):
    if c.op == 'list':
        return I(len(c.a))
    if elems(c) is not None:
        return I(len(elems(c).a))
    if c.op == 'str':
        return I(len(c.a[0]))
    if c.op == 'copy':
        x = size(c.a[0])
        return x if x.op != 'size' else mk('size', c)
    if c.op == 'mk' and len(c.a) == 3 and (c.a[0] == 'std::vector' and c.a[1].op not in ('begin', 'end', 'rbegin') or
                                           c.a[0] == 'std::basic_string' and c.a[2].op == 'i' and c.a[1].op != 'str'):
        return c.a[1]    # so many copies of a value
    return mk('size', c)


def begin(c):
    return mk('begin', c)


def end(c):
    return mk('end', c)


def is_bool_term(t):
    return t.op in ('b', 'not', 'and', 'or', 'eq', 'lt', 'le', 'has', 'exists')


def le0(a, b):
    """a <= b; of integers and a number: as a strict comparison."""
    if b.op == 'i' and a in INTS and a.op != 'i':
        return mk('lt', a, I(b.a[0] + 1))
    if a.op == 'i' and b in INTS and b.op != 'i':
        return mk('lt', I(a.a[0] - 1), b)
    return mk('le', a, b)


def not_(t):
    if t.op == 'b':
        return FALSE if t.a[0] else TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'lt':
        return le0(t.a[1], t.a[0])
    if t.op == 'le':
        return lt(t.a[1], t.a[0])
    if t.op == 'and':
        return or_(*[not_(x) for x in t.a])
    if t.op == 'or':
        return and_(*[not_(x) for x in t.a])
    if t.op == 'ite' and (is_bool_term(t.a[1]) or is_bool_term(t.a[2])):
        return ite(t.a[0], not_(t.a[1]), not_(t.a[2]))
    return mk('not', t)


def and_(*ts):
    out = []
    for t in ts:
        for x in (t.a if t.op == 'and' else (t,)):
            if x is TRUE:
                continue
            if x is FALSE:
                return FALSE
            if x not in out:
                out.append(x)
    for x in out:
        if not_atom(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda x: x.id))


def not_atom(t):
    """Cheap negation used for contradiction detection."""
    if t.op == 'not':
        return t.a[0]
    if t.op == 'lt':
        return le0(t.a[1], t.a[0])
    if t.op == 'le':
        return mk('lt', t.a[1], t.a[0])
    return mk('not', t)


def or_(*ts):
    out = []
    for t in ts:
        for x in (t.a if t.op == 'or' else (t,)):
            if x is FALSE:
                continue
            if x is TRUE:
                return TRUE
            if x not in out:
                out.append(x)
    for x in out:
        if not_atom(x) in out:
            return TRUE
    # absorb: a or (a and b)
    if len(out) > 1:
        keep = []
        for x in out:
            if x.op == 'and' and any(y in x.a for y in out if y is not x):
                continue
            keep.append(x)
        out = keep
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *sorted(out, key=lambda x: x.id))


def eq(a, b):
    if a is b:
        return TRUE
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        if ca[0] == cb[0] or {ca[0], cb[0]} <= {'n', 'e'}:
            return TRUE if ca[1:] == cb[1:] else FALSE
        if {ca[0], cb[0]} == {'b', 'n'}:
            return TRUE if bool(ca[1]) == bool(cb[1]) else FALSE
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    # x == true / false
    if cb is not None and cb[0] == 'b':
        return a if cb[1] else not_(a)
    if is_bool_term(a) and cb is not None and cb[0] == 'n':
        return a if cb[1] else not_(a)
    # iterators
    for x, y in ((a, b), (b, a)):
        if y.op == 'end' and x.op == 'find':
            return not_(has(x.a[0], x.a[1]))
    if a.op == 'begin' and b.op == 'end' or a.op == 'end' and b.op == 'begin':
        return eq(size(a.a[0]), I(0))
    if a.op == 'count' and cb == ('n', 0):
        return not_(has(*a.a))
    if a.op == 'count' and cb == ('n', 1):
        return has(*a.a)
    if cb == ('n', 0) and a.op == 'op' and a.a[0] == '^' and len(a.a) == 3:
        return eq(a.a[1], a.a[2])
    if a.op == 'ite' and cb is not None:
        x, y = eq(a.a[1], b), eq(a.a[2], b)
        if x.op == 'b' or y.op == 'b':
            return ite(a.a[0], x, y)
    if cb == ('null',) and a.op in ('obj', 'copy', 'lam', 'mk', 'struct', 'this', 'addr'):
        return FALSE
    if cb is None and a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def has(c, k):
    return mk('has', c, k)


UNSIGNED = set()     # locations of an unsigned type


def nonneg(t):
    return t.op in ('size', 'count') or t in UNSIGNED or (t.op == 'v' and nonneg(t.a[0]))


def is_min(t):
    """The earliest time."""
    return t.op == 'call' and t.a[0] == 'std::chrono::time_point::min'


def by_branch(f, a, b):
    """A comparison of a choice, one branch of which is the earliest time."""
    for x, g in ((a, lambda z: f(z, b)), (b, lambda z: f(a, z))):
        if x.op == 'ite' and (is_min(x.a[1]) or is_min(x.a[2])):
            return ite(x.a[0], g(x.a[1]), g(x.a[2]))


def lt(a, b):
    """a < b"""
    if a is b or is_min(b):
        return FALSE
    r = by_branch(lt, a, b)
    if r is not None:
        return r
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None and ca[0] in 'ne' and cb[0] in 'ne':
        return TRUE if ca[1] < cb[1] else FALSE
    for x, y, f in ((a, cb, lambda z: lt(z, b)), (b, ca, lambda z: lt(a, z))):
        if x.op == 'ite' and y is not None and y[0] == 'n':
            r = f(x.a[1]), f(x.a[2])
            if all(z.op == 'b' for z in r):
                return r[0] if r[0] is r[1] else x.a[0] if r[0] is TRUE else not_(x.a[0])
    if ca is not None and ca[0] == 'n' and b.op == 'lin' and ca[1] < b.a[0] and all(k > 0 and nonneg(x) for x, k in b.a[1]):
        return TRUE
    if ca == ('n', 0) and nonneg(b):
        return not_(eq(b, I(0)))
    if cb == ('n', 1) and nonneg(a):
        return eq(a, I(0))
    if cb == ('n', 0) and nonneg(a):
        return FALSE
    return mk('lt', a, b)


def le(a, b, isint=False):
    if a is b or is_min(a):
        return TRUE
    r = by_branch(le, a, b)
    if r is not None:
        return r
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None and ca[0] in 'ne' and cb[0] in 'ne':
        return TRUE if ca[1] <= cb[1] else FALSE
    if isint or a.op in ('size', 'i') and b.op in ('size', 'i'):
        if b.op == 'i':
            return lt(a, I(b.a[0] + 1))
        if a.op == 'i':
            return lt(I(a.a[0] - 1), b)
    return le0(a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is TRUE:
        return or_(not_(c), a)
    if b is FALSE:
        return and_(c, a)
    # nested same condition
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if is_bool_term(a) and is_bool_term(b):
        return or_(and_(c, a), and_(not_(c), b))
    if c.op in ('lt', 'le') and len(c.a) == 2:
        x, y, u, v = strip(c.a[0]), strip(c.a[1]), strip(a), strip(b)
        if u is y and v is x:
            return mk('op', 'max', b, a)
        if u is x and v is y:
            return mk('op', 'min', a, b)
    return mk('ite', c, a, b)


def lin_parts(t):
    """-> (const, {term: coef}) for integer arithmetic."""
    if t.op == 'i':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    items = LinKey(sorted(d.items(), key=lambda x: x[0].id))
    return mk('lin', c, items)


class LinKey(tuple):
    def __hash__(self):
        return hash(tuple((t.id, k) for t, k in self))

    def __eq__(self, o):
        return isinstance(o, LinKey) and len(self) == len(o) and all(
            a[0] is b[0] and a[1] == b[1] for a, b in zip(self, o))


def arith(op, a, b, isint):
    ca, cb = const(a), const(b)
    if isint and (ca is None or ca[0] in 'neb') and (cb is None or cb[0] in 'neb'):
        if op in '+-':
            (c1, d1), (c2, d2) = lin_parts(a), lin_parts(b)
            s = 1 if op == '+' else -1
            d = dict(d1)
            for t, k in d2.items():
                d[t] = d.get(t, 0) + s * k
            return mk_lin(c1 + s * c2, d)
        if op == '*' and (is_int(a) or is_int(b)):
            if is_int(b):
                a, b = b, a
            c2, d2 = lin_parts(b)
            return mk_lin(a.a[0] * c2, {t: k * a.a[0] for t, k in d2.items()})
        if is_int(a) and is_int(b):
            x, y = a.a[0], b.a[0]
            if op == '/' and y:
                q = abs(x) // abs(y)
                return I(q if (x >= 0) == (y >= 0) else -q)
            if op == '%' and y:
                return I(abs(x) % abs(y) * (1 if x >= 0 else -1))
            if op == '<<':
                return I(x << y)
            if op == '>>':
                return I(x >> y)
            if op == '&':
                return I(x & y)
            if op == '|':
                return I(x | y)
            if op == '^':
                return I(x ^ y)
    if not isint and ca and cb and ca[0] == 'n' and cb[0] == 'n':
        x, y = float(ca[1]), float(cb[1])
        try:
            v = {'+': x + y, '-': x - y, '*': x * y, '/': x / y if y else None}.get(op)
            if v is not None:
                return mk('fl', v)
        except Exception:
            pass
    if op == '<<' and isint and is_int(b):
        c2, d2 = lin_parts(a)
        m = 1 << b.a[0]
        return mk_lin(m * c2, {t: k * m for t, k in d2.items()})
    if op in ('+', '*', '&', '|', '^') and a.id > b.id:
        a, b = b, a
    if op == '-' and not isint and ca == ('n', 0):
        return mk('op', 'neg', b)
    if op == '/' and isint:
        op = '//'           # truncating division
    return mk('op', op, a, b)


# ---------------------------------------------------------------- traversal
def kids(t):
    for x in t.a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, (Fields, LinKey)):
            for p in x:
                if isinstance(p[0], Term):
                    yield p[0]
                if isinstance(p[1], Term):
                    yield p[1]
        elif isinstance(x, tuple):
            for c, m in x:
                for y in m:
                    yield y


def subterms(t):
    """Set of all subterms including t."""
    if t._sub is None:
        s = {t}
        for k in kids(t):
            s |= subterms(k)
        t._sub = frozenset(s)
    return t._sub


def rebuild(t, args):
    op = t.op
    if op == 'f':
        return F(args[0], args[1])
    if op == 'at':
        return at(*args)
    if op == 'size':
        return size(*args)
    if op == 'not':
        return not_(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'has':
        return has(*args)
    if op == 'lin':
        c, d = args[0], {}
        for x, k in args[1]:
            c2, d2 = lin_parts(x)
            c += k * c2
            for y, k2 in d2.items():
                d[y] = d.get(y, 0) + k * k2
        return mk_lin(c, d)
    if op == 'op' and args[0] in ('+', '*', '&', '|', '^') and len(args) == 3 and args[1].id > args[2].id:
        return mk('op', args[0], args[2], args[1])
    return mk(op, *args)


def rewrite(t, fn, memo=None):
    """Bottom-up rewriting; fn(term)->term or None."""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    args, ch = [], False
    for x in t.a:
        if isinstance(x, Term):
            y = rewrite(x, fn, memo)
            ch |= y is not x
            args.append(y)
        elif isinstance(x, Fields):
            y = Fields([(n, rewrite(v, fn, memo)) for n, v in x])
            ch |= y != x
            args.append(y)
        elif isinstance(x, LinKey):
            y = LinKey([(rewrite(v, fn, memo), k) for v, k in x])
            ch |= any(p[0] is not q[0] for p, q in zip(x, y))
            args.append(y)
        elif isinstance(x, tuple):
            y = type(x)([(c, tuple(rewrite(v, fn, memo) for v in m)) for c, m in x])
            ch |= y != x
            args.append(y)
        else:
            args.append(x)
    n = rebuild(t, args) if ch else t
    r2 = fn(n)
    if r2 is not None:
        n = r2
    memo[t] = n
    return n


_strip_memo = {}


def strip(t):
    """Forget versions (which snapshot of a mutable location) and copies."""
    def fn(x):
        if x.op == 'v':
            return x.a[0]
        if x.op == 'copy':
            return x.a[0]
        return None
    return rewrite(t, fn, _strip_memo)


_sv_memo = {}


def stripv(t):
    """Forget versions only."""
    def fn(x):
        if x.op == 'v':
            return x.a[0]
        return None
    return rewrite(t, fn, _sv_memo)


_sc_memo = {}


def stripcast(t):
    def fn(x):
        if x.op in ('v', 'copy'):
            return x.a[0]
        if x.op == 'cast':
            return x.a[1]
        return None
    return rewrite(t, fn, _sc_memo)


def subst(t, mapping):
    return rewrite(t, lambda x: mapping.get(x))


def contains(t, sub):
    return sub in subterms(t)


def root(t):
    while True:
        if t.op in ('f', 'at', 'v', 'copy', 'size', 'begin', 'end', 'find', 'has', 'count'):
            t = t.a[0]
        else:
            return t


# ---------------------------------------------------------------- display
def show(t):
    if t._s is not None:
        return t._s
    o, a = t.op, t.a
    if o == 'null':
        s = 'nullptr'
    elif o in ('i', 'fl', 'b'):
        s = str(a[0])
    elif o == 'str':
        s = '"%s"' % a[0]
    elif o == 'enum':
        s = a[0].split('::')[-1]
    elif o == 'param':
        s = a[0]
    elif o == 'this':
        s = 'this'
    elif o == 'g':
        s = a[0]
    elif o == 'f':
        s = '%s.%s' % (show(a[0]), a[1])
    elif o == 'at':
        s = '%s[%s]' % (show(a[0]), show(a[1]))
    elif o == 'size':
        s = '|%s|' % show(a[0])
    elif o == 'v':
        s = "%s'%d" % (show(a[0]), a[1])
    elif o == 'copy':
        s = 'copy%s(%s)' % (a[1], show(a[0]))
    elif o == 'eq':
        s = '(%s == %s)' % (show(a[0]), show(a[1]))
    elif o == 'lt':
        s = '(%s < %s)' % (show(a[0]), show(a[1]))
    elif o == 'le':
        s = '(%s <= %s)' % (show(a[0]), show(a[1]))
    elif o == 'not':
        s = '!%s' % show(a[0])
    elif o == 'and':
        s = '(' + ' && '.join(show(x) for x in a) + ')'
    elif o == 'or':
        s = '(' + ' || '.join(show(x) for x in a) + ')'
    elif o == 'ite':
        s = '(%s ? %s : %s)' % tuple(show(x) for x in a)
    elif o == 'has':
        s = '(%s in %s)' % (show(a[1]), show(a[0]))
    elif o == 'lin':
        s = '(' + ' + '.join(['%s%s' % ('' if k == 1 else '%d*' % k, show(x)) for x, k in a[1]] +
                             ([str(a[0])] if a[0] else [])) + ')'
    elif o == 'op':
        s = '(%s)' % (' %s ' % a[0]).join(show(x) for x in a[1:]) if len(a) > 2 else '%s(%s)' % (a[0], show(a[1]))
    elif o == 'struct':
        s = '%s{%s}' % (a[0].split('::')[-1], ', '.join('%s=%s' % (n, show(v)) for n, v in a[1]))
    elif o in ('call', 'callx'):
        s = '%s%s(%s)' % (show(a[1]) + '.' if a[1] is not VOID else '', a[0],
                          ', '.join(show(x) if isinstance(x, Term) else '#%s' % x for x in a[2:]))
    elif o == 'poly':
        out = []
        for c, m in a[0]:
            cs = str(c) if c.denominator == 1 else repr(float(c))
            n = [show(x) for x in m if x.op != 'inv']
            d = [show(x.a[0]) for x in m if x.op == 'inv']
            if c != 1 or not n:
                n = ([cs] if c != -1 or not n else ['-' + n.pop(0)]) + n
            out.append(' * '.join(n) + ''.join(' / ' + x for x in d))
        s = '(' + ' + '.join(out) + ')'
    elif o == 'idx':
        s = 'i%s' % a[0]
    elif o == 'obj':
        s = 'new<%s>#%d' % (a[0].split('<')[0].split('::')[-1], a[1])
    else:
        s = '%s(%s)' % (o, ', '.join(show(x) if isinstance(x, Term) else str(x) for x in a))
    t._s = s
    return s


# ---------------------------------------------------------------- entailment
def atoms(t, out):
    if t.op in ('and', 'or', 'not'):
        for x in t.a:
            atoms(x, out)
    elif t.op == 'ite' and any(is_bool_term(x) for x in t.a[1:]):
        for x in t.a:
            atoms(x, out)
    elif t.op == 'le':
        out.add(mk('lt', t.a[1], t.a[0]))
    elif t.op != 'b':
        out.add(t)


def ev(t, m):
    o = t.op
    if o == 'b':
        return t.a[0]
    if o == 'not':
        return not ev(t.a[0], m)
    if o == 'and':
        return all(ev(x, m) for x in t.a)
    if o == 'or':
        return any(ev(x, m) for x in t.a)
    if o == 'ite' and t not in m:
        return ev(t.a[1], m) if ev(t.a[0], m) else ev(t.a[2], m)
    if o == 'le':
        return not m[mk('lt', t.a[1], t.a[0])]
    return m[t]


INTS = set()     # terms compared as integers


def _int_bounds(x, bs, low):
    if x not in INTS:
        return bs
    return [(c, i) if i or c != int(c) else (c + 1 if low else c - 1, True) for c, i in bs]


_ONEOFS = {}


def oneofs():
    """Fields that belong to a oneof of the repository's messages, and to which."""
    if not _ONEOFS:
        import glob, os, re
        _ONEOFS['?'] = None
        for f in sorted(glob.glob(os.environ.get('VERIF_REPO', '/repo') + '/cartographer/mapping/**/*.proto', recursive=True)):
            for m in re.finditer(r'oneof\s+(\w+)\s*\{([^}]*)\}', open(f).read()):
                for n in re.findall(r'(\w+)\s*=\s*\d+\s*;', m.group(2)):
                    _ONEOFS[n] = (f, m.group(1))
    return _ONEOFS


_SIZES = []


def size_fields():
    """Fields of messages whose own name ends in _size."""
    if not _SIZES:
        import glob, os, re
        _SIZES.append('')
        for f in sorted(glob.glob(os.environ.get('VERIF_REPO', '/repo') + '/cartographer/**/*.proto', recursive=True)):
            _SIZES.extend(re.findall(r'(\w+_size)\s*=\s*\d+\s*;', open(f).read()))
    return _SIZES


def consistent(m):
    """Simple theory: constants are distinct, orders are antisymmetric, what contains something is not empty."""
    eqs, lo, hi, ne = {}, {}, {}, {}
    ones = {}
    for t, v in m.items():
        if t.op == 'has_' and v and t.a[0].op == 'f' and t.a[0].a[1] in oneofs():
            # at most one member of a oneof is set
            k = (t.a[0].a[0], oneofs()[t.a[0].a[1]])
            if ones.setdefault(k, t) is not t:
                return False
        if t.op == 'has' and v and m.get(eq(size(t.a[0]), I(0))):
            return False
        if t.op == 'eq' and t.a[0] in m and t.a[1] in m and v != (m[t.a[0]] == m[t.a[1]]):
            return False
        if t.op == 'eq':
            c = const(t.a[1])
            if c is not None and v:
                if t.a[0] in eqs and eqs[t.a[0]] != c:
                    return False
                eqs[t.a[0]] = c
            elif c is not None:
                ne.setdefault(t.a[0], set()).add(c)
        elif t.op == 'lt':
            if v and m.get(mk('lt', t.a[1], t.a[0])):
                return False
            if v and m.get(mk('eq', *sorted(t.a, key=lambda x: x.id))):
                return False
            ca, cb = const(t.a[0]), const(t.a[1])
            if cb is not None and cb[0] in 'ne':
                (hi if v else lo).setdefault(t.a[0], []).append((cb[1], not v))   # v: x<c strict ; else x>=c
            if ca is not None and ca[0] in 'ne':
                (lo if v else hi).setdefault(t.a[1], []).append((ca[1], not v))   # v: c<x strict
    for x, c in eqs.items():
        if c in ne.get(x, ()):
            return False
    if INTS:
        lo = {x: _int_bounds(x, b, True) for x, b in lo.items()}
        hi = {x: _int_bounds(x, b, False) for x, b in hi.items()}
    for x in set(lo) | set(eqs):
        for (l, linc) in lo.get(x, []):
            for (h, hinc) in hi.get(x, []):
                if l > h or (l == h and not (linc and hinc)):
                    return False
        if x in eqs and eqs[x][0] in 'ne':
            e = eqs[x][1]
            for (l, linc) in lo.get(x, []):
                if e < l or (e == l and not linc):
                    return False
            for (h, hinc) in hi.get(x, []):
                if e > h or (e == h and not hinc):
                    return False
    for x in hi:
        if x in eqs and eqs[x][0] in 'ne':
            e = eqs[x][1]
            for (h, hinc) in hi[x]:
                if e > h or (e == h and not hinc):
                    return False
    return True


def _related(facts, goal):
    """Facts sharing an atom (or the compared subject) with the goal, transitively."""
    def keys(t):
        s = set()
        atoms(t, s)
        k = set()
        for x in s:
            k.add(x)
            if x.op in ('eq', 'lt'):
                for y in x.a:
                    if const(y) is None:
                        k.add(y)
            elif x.op == 'has':
                k.add(size(x.a[0]))
            elif x.op == 'has_' and x.a[0].op == 'f' and x.a[0].a[1] in oneofs():
                k.add((x.a[0].a[0], oneofs()[x.a[0].a[1]]))
        return k
    want = keys(goal)
    fk = [(f, keys(f)) for f in facts]
    sel, changed = [], True
    while changed:
        changed = False
        rest = []
        for f, k in fk:
            if k & want:
                sel.append(f)
                want |= k
                changed = True
            else:
                rest.append((f, k))
        fk = rest
    return sel


def entails(facts, goal, limit=16):
    """Do the facts (conjunction) propositionally imply the goal?"""
    if goal is TRUE or goal in facts:
        return True
    if any(f is FALSE for f in facts):
        return True
    sel = _related(facts, goal)
    at_ = set()
    atoms(goal, at_)
    order = []
    for f in sel:
        s = set()
        atoms(f, s)
        if len(at_ | s) > limit:
            continue
        at_ |= s
        order.append(f)
    at_ = sorted(at_, key=lambda x: x.id)
    if len(at_) > limit:
        return False
    n = len(at_)
    # backtracking enumeration over atoms with early unit facts
    forced = {}
    for f in order:
        if f in at_:
            forced[f] = True
        elif f.op == 'not' and f.a[0] in at_:
            forced[f.a[0]] = False
        elif f.op == 'le':
            forced[mk('lt', f.a[1], f.a[0])] = False
    free = [x for x in at_ if x not in forced]
    for bits in itertools.product((False, True), repeat=len(free)):
        m = dict(forced)
        m.update(zip(free, bits))
        if not consistent(m):
            continue
        if all(ev(f, m) for f in order) and not ev(goal, m):
            return False
    return True


def equivalent(a, b, facts=()):
    return entails(list(facts) + [a], b) and entails(list(facts) + [b], a)
