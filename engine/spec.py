"""Pattern language over terms used by the rules.

  this.state_ == COMPLETED && !($x in this.tasks_)      |this.queue_| == 0      c ? a : b
  $x  metavariable      _  anything      a.F(b)  call      {x=..., y=...}  structure with these members
  //  truncating division    @  matrix/quaternion product    op(...)  any analysis term of that kind

A pattern is itself a term (with metavariables), normalised exactly like the terms it is compared with.
"""
import re

from terms import *  # noqa: F401,F403
from terms import (mk, F, I, Term, kids, strip, stripcast, Fields, LinKey, TRUE, FALSE, NULL, VOID, arith, at, size,
                   has, eq, lt, le, not_, and_, or_, ite, subterms, rewrite, atoms, subst)
from canon import canon, to_poly, from_poly, PolyKey, arithmetic

TOK = re.compile(r'\s*(?:(\d+\.\d*(?:e[-+]?\d+)?|\d+e[-+]?\d+|\d+)|("[^"]*")|'
                 r'([$@]?[A-Za-z_][A-Za-z_0-9]*(?:::(?:operator)?~?(?:[A-Za-z_][A-Za-z_0-9]*|[-+*/<>=!]+|\(\)))*)|'
                 r'(&&|\|\||==|!=|<=|>=|<<|>>|->|//|[-+*/%<>!()\[\]{}.,|?:=@&^]))')

GENERIC = {'find', 'iter', 'begin', 'end', 'has_', 'case', 'last', 'traj', 'trajs', 'count', 'idx', 'obj', 'post', 'exists',
           'dyncast', 'lam', 'fold', 'phi', 'list', 'zero', 'first', 'elem', 'countif', 'rbegin', 'rend', 'fnref', 'out',
           'free', 'mk', 'copy', 'lim', 'uninit', 'acc', 'inv', 'nondet', 'static', 'sym', 'new'}
OPS = {'max', 'min', 'cat', 'neg', 'xor'}


def tokenize(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ValueError('bad pattern %r at %d' % (s, i))
        i = m.end()
        if m.group(1):
            out.append(('num', m.group(1)))
        elif m.group(2) is not None:
            out.append(('str', m.group(2)[1:-1]))
        elif m.group(3):
            out.append(('id', m.group(3)))
        else:
            out.append(('p', m.group(4)))
    return out


class Parser:
    """Patterns with names: this, null, true, false, $x metavars, _ wildcard, UPPER/kName enum constants,
    other identifiers are parameters of the analysed function."""

    def __init__(self, s, names=None):
        self.s = s
        self.t = tokenize(s)
        self.i = 0
        self.names = names or {}

    def peek(self, v=None):
        if self.i >= len(self.t):
            return None
        t = self.t[self.i]
        return t if v is None else (t[0] == 'p' and t[1] == v)

    def eat(self, v):
        if not self.peek(v):
            raise ValueError('expected %s at %s in %r' % (v, self.t[self.i:], self.s))
        self.i += 1

    def parse(self):
        r = self.tern()
        if self.i != len(self.t):
            raise ValueError('trailing %s in %r' % (self.t[self.i:], self.s))
        return r

    def tern(self):
        c = self.or_()
        if self.peek('?'):
            self.i += 1
            a = self.tern()
            self.eat(':')
            return ite(c, a, self.tern())
        return c

    def or_(self):
        a = [self.and_()]
        while self.peek('||'):
            self.i += 1
            a.append(self.and_())
        return a[0] if len(a) == 1 else or_(*a)

    def and_(self):
        a = [self.cmp()]
        while self.peek('&&'):
            self.i += 1
            a.append(self.cmp())
        return a[0] if len(a) == 1 else and_(*a)

    def cmp(self):
        a = self.shift()
        for op in ('==', '!=', '<=', '>=', '<', '>'):
            if self.peek(op):
                self.i += 1
                b = self.shift()
                return {'==': lambda: eq(a, b), '!=': lambda: not_(eq(a, b)), '<': lambda: lt(a, b),
                        '>': lambda: lt(b, a), '<=': lambda: le(a, b), '>=': lambda: le(b, a)}[op]()
        t = self.peek()
        if t and t == ('id', 'in'):
            self.i += 1
            b = self.add()
            return has(b, a)
        return a

    def shift(self):
        a = self.add()
        while self.peek('<<') or self.peek('>>') or self.peek('&') or self.peek('^'):
            op = self.t[self.i][1]
            self.i += 1
            b = self.add()
            if op == '<<' and b.op == 'i':
                a = arith('*', a, I(1 << b.a[0]), False)
            else:
                a = arith(op, a, b, True)
        return a

    def add(self):
        a = self.mul()
        while self.peek('+') or self.peek('-'):
            op = self.t[self.i][1]
            self.i += 1
            a = mk('op', op, a, self.mul())
        return a

    def mul(self):
        a = self.un()
        while self.peek('*') or self.peek('/') or self.peek('%') or self.peek('//') or self.peek('@'):
            op = self.t[self.i][1]
            self.i += 1
            a = mk('op', op, a, self.un())
        return a

    def un(self):
        if self.peek('!'):
            self.i += 1
            return not_(self.un())
        if self.peek('-'):
            self.i += 1
            return mk('op', 'neg', self.un())
        return self.post()

    def post(self):
        a = self.prim()
        while True:
            if self.peek('.') or self.peek('->'):
                self.i += 1
                n = self.t[self.i][1]
                self.i += 1
                if self.peek('('):
                    self.i += 1
                    a = mk('pcall', n, a, *self.args(')'))
                else:
                    a = F(a, n)
            elif self.peek('['):
                self.i += 1
                k = self.or_()
                self.eat(']')
                a = at(a, k)
            else:
                return a

    def args(self, close):
        out = []
        if self.peek(close):
            self.i += 1
            return out
        while True:
            out.append(self.tern())
            if self.peek(','):
                self.i += 1
                continue
            self.eat(close)
            return out

    def prim(self):
        t = self.t[self.i]
        if t[0] == 'num':
            self.i += 1
            return I(int(t[1])) if re.match(r'^\d+$', t[1]) else mk('fl', float(t[1]))
        if t[0] == 'str':
            self.i += 1
            return mk('str', t[1])
        if t == ('p', '('):
            self.i += 1
            r = self.tern()
            self.eat(')')
            return r
        if t == ('p', '|'):
            self.i += 1
            r = self.post()
            self.eat('|')
            return size(r)
        if t == ('p', '{'):
            self.i += 1
            fs = []
            while not self.peek('}'):
                n = self.t[self.i][1]
                self.i += 1
                self.eat('=')
                fs.append((n, self.tern()))
                if self.peek(','):
                    self.i += 1
            self.eat('}')
            return mk('pstruct', Fields(fs))
        self.i += 1
        n = t[1]
        if n == '_':
            return mk('?')
        if n.startswith('$'):
            return mk('$', n[1:])
        if n in self.names:
            return self.names[n]
        if n == 'this':
            return mk('this')
        if n in ('null', 'nullptr'):
            return NULL
        if n in ('true', 'false'):
            return TRUE if n == 'true' else FALSE
        if n == 'void':
            return VOID
        if self.peek('('):
            self.i += 1
            if n == 'cast':
                ty = []
                while not self.peek(','):
                    ty.append(self.t[self.i][1])
                    self.i += 1
                self.eat(',')
                x, = self.args(')')
                return mk('cast', ' '.join(ty), x)
            a = self.args(')')
            if n in OPS:
                return mk('op', n, *a)
            if n == 'bitor':
                r = a[0]
                for x in a[1:]:
                    r = mk('op', '|', r, x)
                return r
            if n == 'at':
                return at(*a)
            if n == 'g':
                return mk('pg', a[0].a[0])
            if n in GENERIC:
                return mk('pop', n, *[x for x in a])
            return mk('pcall', n, VOID, *a)
        if re.match(r'^(?:[A-Za-z]+::)*(k[A-Z]\w*|[A-Z][A-Z_0-9]+)$', n):
            return mk('enumref', n)
        return mk('param', n)


_cache = {}


def pat(s, names=None):
    if isinstance(s, Term):
        return s
    k = s if not names else None
    if k in _cache:
        return _cache[k]
    r = canon(Parser(s, names).parse())
    if k:
        _cache[k] = r
    return r


def name_match(full, want):
    """callee names match on their trailing components"""
    return full == want or full.endswith('::' + want)


PV = {'$', '?', 'enumref', 'pcall', 'pstruct', 'param', 'pop', 'pg'}


def is_pattern(t):
    return any(x.op in PV for x in subterms(t))


def unify(p, t, b):
    for r in U(p, canon(t), b):
        return r
    return None


def useq(ps, ts, b):
    if not ps:
        yield b
        return
    for r in U(ps[0], ts[0], b):
        for q in useq(ps[1:], ts[1:], r):
            yield q


def uset(ps, ts, b):
    if not ps:
        if not ts:
            yield b
        return
    for i, t in enumerate(ts):
        for r in U(ps[0], t, b):
            for q in uset(ps[1:], ts[:i] + ts[i + 1:], r):
                yield q


def U(p, t, b):
    """Bindings under which pattern p equals term t."""
    if p is t:
        yield b
        return
    k = p.op
    if k == '?':
        yield b
        return
    if k == '$':
        n = p.a[0]
        if n in b:
            if b[n] is t:
                yield b
            return
        b = dict(b)
        b[n] = t
        yield b
        return
    if not is_pattern(p):
        c1, c2 = const(p), const(t)
        if c1 is not None and c2 is not None and c1[0] == 'n' and c2[0] == 'n' and c1[1] == c2[1]:
            yield b
            return
        if p.op != 'poly' and not (p.op == 'le' and t.op == 'lt'):
            if p.op != t.op:
                return
    if k == 'param':
        if t.op == 'param' and t.a[0] == p.a[0]:
            yield b
        return
    if k == 'enumref':
        if t.op in ('enum', 'g') and name_match(t.a[0], p.a[0]):
            yield b
        return
    if k == 'pg':
        if t.op == 'g' and name_match(t.a[0], p.a[0]):
            yield b
        return
    if k == 'pop':
        if t.op == p.a[0]:
            ta = [x for x in t.a if isinstance(x, Term)]
            pa = [x for x in p.a[1:]]
            if t.op == 'case':
                if len(pa) == 2 and pa[1].op == 'param' and t.a[1] == pa[1].a[0]:
                    for r in U(pa[0], t.a[0], b):
                        yield r
                return
            if pa and pa[0].op == 'str' and not ta or len(ta) == len(pa) - 1 and pa[0].op == 'str':
                # leading string: the non-term argument (type, name)
                if not any(isinstance(x, str) and (x == pa[0].a[0] or name_match(x, pa[0].a[0])) for x in t.a):
                    return
                pa = pa[1:]
            if len(ta) == len(pa):
                for r in useq(pa, ta, b):
                    yield r
        return
    if k == 'pcall':
        n, o, args = p.a[0], p.a[1], list(p.a[2:])
        if t.op in ('call', 'callx') and name_match(t.a[0], n):
            ta = [x for x in t.a[1:] if isinstance(x, Term)]
            if len(ta) == len(args) + 1:
                found = False
                for r in useq([o] + args, ta, b):
                    found = True
                    yield r
                j = [i for i, x in enumerate(ta) if x.op == 'poly']
                if not found and n in ('norm', 'squaredNorm', 'abs', 'fabs') and len(j) == 1:
                    # the length of a difference does not depend on its direction
                    ta[j[0]] = from_poly({m: -c for m, c in to_poly(ta[j[0]]).items()})
                    for r in useq([o] + args, ta, b):
                        yield r
        elif t.op == 'mk' and o is VOID and (name_match(t.a[0], n) or name_match(t.a[0], {'Matrix': 'Array', 'Array': 'Matrix'}.get(n.split('::')[-1], n))):
            ta = [x for x in t.a[1:] if isinstance(x, Term)]
            if len(ta) == len(args):
                for r in useq(args, ta, b):
                    yield r
        elif t.op == 'op' and o is VOID and t.a[0] == n:
            if len(t.a) - 1 == len(args):
                for r in useq(args, list(t.a[1:]), b):
                    yield r
        return
    if k == 'pstruct':
        if t.op != 'struct':
            return
        d = dict(t.a[1])
        if any(n not in d for n, _ in p.a[0]):
            return
        for r in useq([x for _, x in p.a[0]], [d[n] for n, _ in p.a[0]], b):
            yield r
        return
    if k == 'poly' or t.op == 'poly' and k == 'poly':
        for r in upoly(p, t, b):
            yield r
        return
    if k in ('and', 'or'):
        if t.op == k and len(t.a) == len(p.a):
            for r in uset(list(p.a), list(t.a), b):
                yield r
        return
    if k == 'eq':
        if t.op == 'eq':
            for r in useq(p.a, t.a, b):
                yield r
            for r in useq(p.a, t.a[::-1], b):
                yield r
        elif p.a[1] is TRUE:
            for r in U(p.a[0], t, b):
                yield r
        return
    if k in ('lt', 'le') and t.op in ('lt', 'le'):
        if t.op == k:
            for r in useq(p.a, t.a, b):
                yield r
        elif k == 'le' and t.op == 'lt':
            if t.a[1].op == 'i':
                for r in useq(p.a, (t.a[0], I(t.a[1].a[0] - 1)), b):
                    yield r
            elif t.a[0].op == 'i':
                for r in useq(p.a, (I(t.a[0].a[0] + 1), t.a[1]), b):
                    yield r
            else:
                q = to_poly(t.a[1])
                for r in useq(p.a, (t.a[0], from_poly(plus(q, -1))), b):
                    yield r
        return
    if k != t.op or len(p.a) != len(t.a):
        return
    ps, ts = [], []
    for x, y in zip(p.a, t.a):
        if isinstance(x, Term) and isinstance(y, Term):
            ps.append(x)
            ts.append(y)
        elif isinstance(x, Fields) and isinstance(y, Fields):
            if [n for n, _ in x] != [n for n, _ in y]:
                return
            ps += [v for _, v in x]
            ts += [v for _, v in y]
        elif isinstance(x, int) and isinstance(y, int) and k in ('copy', 'obj', 'exists', 'fold', 'idx', 'phi', 'post'):
            continue
        elif x != y:
            return
    for r in useq(ps, ts, b):
        yield r
    if k == 'op' and p.a[0] in ('max', 'min', '&', '|', '^', '*', '+') and len(ps) == 2:
        for r in useq(ps, ts[::-1], b):
            yield r


def plus(q, n):
    r = dict(q)
    v = r.get((), 0) + n
    if v:
        r[()] = v
    else:
        r.pop((), None)
    return r


def upoly(p, t, b):
    bound = {mk('$', n): v for n, v in b.items()}
    vs = [x for x in subterms(p) if x.op == '$']
    if any(v in bound for v in vs):
        p = rewrite(subst(p, {v: bound[v] for v in vs if v in bound}), arithmetic, {})
        if p is t:
            yield b
            return
        if p.op != 'poly':
            for r in U(p, t, b):
                yield r
            return
    pm = sorted(((c, m) for c, m in p.a[0]), key=lambda x: (sum(y.op in ('$', '?') for y in x[1]), -len(x[1])))
    tm = [(c, m) for m, c in to_poly(t).items()]
    if len(pm) > len(tm):
        return

    def go(i, rest, b):
        if i == len(pm):
            if not rest:
                yield b
            return
        c, m = pm[i]
        for j, (d, n) in enumerate(rest):
            if c == d and len(m) == len(n):
                for r in uset(list(m), list(n), b):
                    for q in go(i + 1, rest[:j] + rest[j + 1:], r):
                        yield q
        if i == len(pm) - 1 and len(m) == 1 and m[0].op in ('$', '?') and len(rest) > 1 and c in (1, -1):
            q = from_poly({n: d * c for d, n in rest})
            for r in U(m[0], q, b):
                yield r
    for r in go(0, tm, b):
        yield r


def build(p, b, ctx=None):
    """Pattern + bindings -> term (for guard formulas)."""
    def fn(x):
        if x.op == '$':
            if x.a[0] in b:
                return b[x.a[0]]
        if x.op == 'param' and len(x.a) == 1:
            return (ctx or {}).get(x.a[0])
        if x.op == 'enumref':
            t = (ctx or {}).get(x.a[0])
            if t is None:
                raise KeyError('constant %s' % x.a[0])
            return t
        return None
    return canon(rewrite(p, fn, {}))


def resolve(want, b, cand):
    """Replace the atoms of a guard formula that still contain pattern constructs by the atoms of the code they match."""
    m = {}
    at_ = set()
    atoms(want, at_)
    for x in sorted(at_, key=lambda x: x.id):
        if not any(y.op in PV - {'param'} for y in subterms(x)):
            continue
        for c in cand:
            r = unify(x, c, b)
            if r is not None:
                m[x] = c
                b = r
                break
        else:
            for c in cand:
                # of integers and a number, the code may hold the complementary strict comparison
                if x.op != 'lt' or c.op != 'lt':
                    continue
                if c.a[1].op == 'i' and c.a[0] in INTS:
                    d = mk('lt', I(c.a[1].a[0] - 1), c.a[0])
                elif c.a[0].op == 'i' and c.a[1] in INTS:
                    d = mk('lt', c.a[1], I(c.a[0].a[0] + 1))
                else:
                    continue
                r = unify(x, d, b)
                if r is not None:
                    m[x] = not_(c)
                    b = r
                    break
    if not m:
        return want, b

    def go(t):
        if t in m:
            return m[t]
        if t.op == 'le':
            y = mk('lt', t.a[1], t.a[0])
            if y in m:
                return not_(m[y])
        if t.op == 'not':
            return not_(go(t.a[0]))
        if t.op == 'and':
            return and_(*[go(x) for x in t.a])
        if t.op == 'or':
            return or_(*[go(x) for x in t.a])
        if t.op == 'ite':
            return ite(*[go(x) for x in t.a])
        return t
    return go(want), b


# ---------------------------------------------------------------- printing terms as patterns
def pshow(t, names=None):
    """Term -> pattern text (used by the specification generator)."""
    names = {} if names is None else names

    def v(t, pre):
        if t not in names:
            names[t] = '$%s%d' % (pre, sum(1 for x in names.values() if x.startswith('$' + pre)))
        return names[t]

    def g(t):
        o, a = t.op, t.a
        if o in ('idx',):
            return v(t, 'i')
        if o in ('obj', 'lam', 'phi', 'post', 'nondet', 'sym', 'lockvar'):
            return v(t, {'obj': 'o', 'lam': 'f'}.get(o, 'x'))
        if o == 'enum':
            n = a[0].split('::')[-1]
            return n if re.match(r'^(k[A-Z]\w*|[A-Z][A-Z_0-9]+)$', n) else v(t, 'e')
        if o == 'g':
            n = a[0].split('::')[-1]
            return n if re.match(r'^(k[A-Z]\w*|[A-Z][A-Z_0-9]+)$', n) else 'g("%s")' % n
        if o in ('call', 'callx'):
            n = a[0].split('::')
            n = '::'.join(n[-2:]) if a[1] is VOID and len(n) > 1 and n[-2][:1].isupper() else n[-1]
            if not re.match(r'^[A-Za-z_:~]\w*(::\w+)*$', n):
                return v(t, 'c')
            return '%s%s(%s)' % (g(a[1]) + '.' if a[1] is not VOID else '', n,
                                 ', '.join(g(x) for x in a[2:] if isinstance(x, Term)))
        if o == 'mk':
            n = a[0].split('<')[0].split('::')[-1]
            return '%s(%s)' % (n, ', '.join(g(x) for x in a[1:] if isinstance(x, Term)))
        if o == 'struct':
            return '{%s}' % ', '.join('%s=%s' % (n, g(x)) for n, x in a[1])
        if o == 'poly':
            out = ''
            for c, m in a[0]:
                s = '-' if c < 0 else '+'
                c = abs(c)
                cs = str(c) if c.denominator == 1 else repr(float(c))
                n = [g(x) for x in m if x.op != 'inv']
                d = [g(x.a[0]) for x in m if x.op == 'inv']
                if c != 1 or not n:
                    n = [cs] + n
                out += (' %s ' % s if out else ('-' if s == '-' else '')) + ' * '.join(n) + ''.join(' / ' + x for x in d)
            return '(' + out + ')'
        if o == 'op':
            if a[0] in OPS or len(a) == 2:
                return '%s(%s)' % (a[0], ', '.join(g(x) for x in a[1:]))
            return '(%s)' % (' %s ' % a[0]).join(g(x) for x in a[1:])
        if o == 'f':
            return '%s.%s' % (g(a[0]), a[1])
        if o == 'at':
            return '%s[%s]' % (g(a[0]), g(a[1]))
        if o == 'size':
            return '|%s|' % g(a[0])
        if o == 'eq':
            return '%s == %s' % (g(a[0]), g(a[1]))
        if o == 'lt':
            return '%s < %s' % (g(a[0]), g(a[1]))
        if o == 'le':
            return '%s <= %s' % (g(a[0]), g(a[1]))
        if o == 'not':
            if a[0].op == 'eq':
                return '%s != %s' % (g(a[0].a[0]), g(a[0].a[1]))
            return '!(%s)' % g(a[0]) if a[0].op in ('eq', 'has', 'lt', 'le', 'and', 'or') else '!%s' % g(a[0])
        if o in ('and', 'or'):
            j = ' && ' if o == 'and' else ' || '
            return '(' + j.join('(%s)' % g(x) if x.op in ('and', 'or') else g(x) for x in a) + ')'
        if o == 'ite':
            return '(%s ? %s : %s)' % tuple(g(x) for x in a)
        if o == 'has':
            return '%s in %s' % (g(a[1]), g(a[0]))
        if o == 'cast':
            return 'cast(%s, %s)' % (a[0], g(a[1]))
        if o == 'str':
            return '"%s"' % a[0]
        if o == 'b':
            return 'true' if a[0] else 'false'
        if o == 'null':
            return 'null'
        if o == 'fl':
            return repr(a[0])
        if o == 'case':
            return 'case(%s, %s)' % (g(a[0]), a[1])
        if o in GENERIC:
            return '%s(%s)' % (o, ', '.join(g(x) for x in a if isinstance(x, Term)))
        if o in ('i', 'param', 'this', 'void'):
            return {'this': 'this', 'void': 'void'}.get(o) or str(a[0])
        return v(t, 'x')
    return g(t)
