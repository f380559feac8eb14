"""Canonical form of arithmetic inside terms.

Scalar arithmetic becomes a polynomial over its atoms (commutative, distributed), so that every way of writing
the same sum or product is the same term.  Integer division, shifts by non-constants, matrix and string products
are not touched.
"""
from fractions import Fraction

from terms import (mk, Term, rewrite, strip, stripcast, const, I, eq, lt, le, not_, and_, or_, TRUE, FALSE, rebuild)


class PolyKey(tuple):
    """((coef, (atom, atom, ...)), ...)"""

    def __hash__(self):
        return hash(tuple((c, tuple(t.id for t in m)) for c, m in self))

    def __eq__(self, o):
        return isinstance(o, PolyKey) and len(self) == len(o) and all(
            a[0] == b[0] and len(a[1]) == len(b[1]) and all(x is y for x, y in zip(a[1], b[1])) for a, b in zip(self, o))


def num(v):
    f = Fraction(v)
    return I(f.numerator) if f.denominator == 1 else mk('fl', float(v))


def frac(t):
    if t.op == 'i':
        return Fraction(t.a[0])
    if t.op == 'fl':
        v = t.a[0]
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return Fraction(v).limit_denominator(10 ** 15) if abs(v) < 1e15 else Fraction(v)
    return None


def to_poly(t):
    """-> {monomial(tuple of atoms): coef}"""
    f = frac(t)
    if f is not None:
        return {(): f} if f else {}
    if t.op == 'poly':
        return {m: c for c, m in t.a[0]}
    return {(t,): Fraction(1)}


def add(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono_mul(m, n):
    out = list(m) + list(n)
    # cancel x * inv(x)
    for x in list(out):
        if x.op == 'inv' and x in out and x.a[0] in out:
            out.remove(x)
            out.remove(x.a[0])
    return tuple(sorted(out, key=lambda x: x.id))


def mul(p, q):
    if len(p) * len(q) > 64:
        return None
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def inv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple(sorted((x.a[0] if x.op == 'inv' else mk('inv', x) for x in m), key=lambda x: x.id)): 1 / c}
    return {(mk('inv', from_poly(p)),): Fraction(1)}


def from_poly(p):
    if not p:
        return I(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return I(c.numerator) if c.denominator == 1 else mk('fl', float(c))
        if c == 1 and len(m) == 1 and m[0].op != 'inv':
            return m[0]
    items = sorted(((c, m) for m, c in p.items()), key=lambda x: (tuple(t.id for t in x[1])))
    return mk('poly', PolyKey(items))


def ispow2(x):
    return x.op == 'op' and x.a[0] == '<<' and x.a[1].op == 'i' and x.a[1].a[0] == 1


SCALAR = set()


def scalar(x):
    """The term is a number (it multiplies or divides a vector)."""
    if strip(x).op == 'ite':
        for y in strip(x).a[1:]:
            scalar(y)
        return
    x = canon(x)
    if x.op == 'poly':
        ms = [m for _, m in x.a[0]]
        new = {y.a[0] if y.op == 'inv' else y for m in ms for y in m}
    else:
        new = {x}
    if x.op not in ('i', 'fl') and not new <= SCALAR:
        SCALAR.update(new)
        _memo.clear()
        _memoc.clear()


def vec(x):
    """May this factor have components (a number or a power of two has none)?"""
    return not (x in SCALAR or ispow2(x) or x.op in ('i', 'fl') or x.op == 'inv' and not vec(x.a[0]))


def pow2(n):
    """1 << n as a polynomial: whole powers of two move into the coefficient."""
    p = dict(to_poly(n))
    k = p.pop((), Fraction(0))
    if k.denominator != 1 or abs(k) > 62:
        p = add(p, {(): k})
        k = Fraction(0)
    out = {(): Fraction(2) ** int(k)}
    rest = {}
    for m, q in p.items():
        # 1 << (q * m) is 1 << m taken q times
        if q.denominator == 1 and 2 <= q <= 4:
            for _ in range(int(q)):
                out = mul(out, {(mk('op', '<<', I(1), from_poly({m: Fraction(1)})),): Fraction(1)})
        else:
            rest[m] = q
    if rest:
        out = mul(out, {(mk('op', '<<', I(1), from_poly(rest)),): Fraction(1)})
    return out


def endless(x):
    """Minus infinity, divided by a (positive) quantity."""
    return isinstance(x, Term) and x.op == 'poly' and len(x.a[0]) == 1 and any(c < 0 and sum(y.op == 'lim' and y.a[0] == 'infinity' for y in m) == 1 and all(y.op in ('lim', 'inv') for y in m) for c, m in x.a[0])


def arithmetic(t):
    """Rewriting step: canonical polynomial for one node whose children are canonical."""
    o = t.op
    if o == 'fl':
        f = frac(t)
        return I(f.numerator) if f is not None and f.denominator == 1 else None
    if o == 'call' and 'exp' in (t.a[0], getattr(t.a[0], 'name', None)) and endless(t.a[-1]):
        return I(0)
    if o == 'lin' and t.a[0] == -1 and len(t.a[1]) == 1 and t.a[1][0][1] == 1 and t.a[1][0][0].op == 'end':
        return mk('last', t.a[1][0][0].a[0])
    if o == 'lin':
        p = {(): Fraction(t.a[0])} if t.a[0] else {}
        for x, k in t.a[1]:
            p = add(p, mul(to_poly(x), {(): Fraction(k)}) or {})
        return from_poly(p)
    if o == 'poly':
        p = {}
        for c, m in t.a[0]:
            q = {(): c}
            for x in m:
                f = to_poly(x) if x.op != 'inv' else inv(to_poly(x.a[0]))
                q2 = mul(q, f)
                if q2 is None:
                    return None
                q = q2
            p = add(p, q)
        return from_poly(p)
    if o == 'op' and len(t.a) == 3:
        k, a, b = t.a
        if k in '+-':
            return from_poly(add(to_poly(a), to_poly(b), 1 if k == '+' else -1))
        if k == '*':
            r = mul(to_poly(a), to_poly(b))
            return from_poly(r) if r is not None else None
        if k == '/':
            q = to_poly(b)
            if not q:
                return None
            r = mul(to_poly(a), inv(q))
            return from_poly(r) if r is not None else None
        if k == '<<':
            r = mul(to_poly(a), pow2(b))
            return from_poly(r) if r is not None else None
        if k == '>>' and b.op == 'i' and 0 < b.a[0] < 63:
            # exact: every coefficient is a multiple, or the power of two has the bit to lose
            p, d = to_poly(a), 1 << b.a[0]
            if any(m for m in p) and all(c % d == 0 or m and all(map(ispow2, m)) and c.denominator == 1 for m, c in p.items()):
                return from_poly({m: c / d for m, c in p.items()})
        if k in ('max', 'min') and frac(a) is not None and frac(b) is not None:
            return (a if frac(a) >= frac(b) else b) if k == 'max' else (a if frac(a) <= frac(b) else b)
        if k in ('max', 'min') and a.id > b.id:
            return mk('op', k, b, a)
    if o == 'op' and len(t.a) == 2 and t.a[0] == 'neg':
        return from_poly(mul(to_poly(t.a[1]), {(): Fraction(-1)}))
    if o == 'call' and t.a[0] == 'transform::operator*' and len(t.a) == 4:
        t = mk('op', '@', t.a[2], t.a[3])
        return arithmetic(t) or t
    if o == 'op' and t.a[0] == '@' and len(t.a) == 3:
        # matrix product: associative, signs and numbers move out
        k, fs = Fraction(1), []
        for x in t.a[1:]:
            p = to_poly(x)
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and c != 1:
                    k *= c
                    x = m[0]
            fs += list(x.a[1:]) if x.op == 'op' and x.a[0] == '@' else [x]
        r = fs[0]
        for x in fs[1:]:
            r = mk('op', '@', r, x)
        if k != 1:
            return from_poly({(r,): k})
        return r if r is not t else None
    if o == 'mk' and len(t.a) == 2 and t.a[0] in ('Eigen::Quaternion', 'Eigen::Rotation2D'):
        return t.a[1]           # the same rotation in another representation
    if o == 'at' and len(t.a) == 2 and t.a[1].op == 'f' and t.a[1].a[1] == 'id':
        # the entry of a map by id under the id of one of its own elements
        x = t.a[1].a[0]
        c = x.a[0] if x.op in ('at', 'last', 'first') else x.a[1] if x.op == 'pop' and x.a[0] in ('last', 'first') else None
        if c is not None and (c is t.a[0] or c.op == 'traj' and c.a[0] is t.a[0] or c.op == 'pop' and c.a[0] == 'traj' and c.a[1] is t.a[0]):
            return mk('f', x, 'data')
    if o == 'at' and len(t.a) == 2 and t.a[1].op == 'i':
        b, i = t.a[0], t.a[1].a[0]
        if b.op == 'mk' and b.a[0] in ('Eigen::Matrix', 'Eigen::Array') and len(b.a) > 2 and i < len(b.a) - 1:
            return b.a[1 + i]
        if b.op == 'mk' and b.a[0] == 'Eigen::Quaternion' and len(b.a) == 5 and i < 4:
            return b.a[1 + (i + 1) % 4]
        if b.op == 'op' and b.a[0] == '//' and len(b.a) == 3 and not vec(b.a[2]):
            x = mk('at', b.a[1], t.a[1])
            return mk('op', '//', arithmetic(x) or x, b.a[2])
        if b.op == 'poly' and all(sum(map(vec, m)) <= 1 for _, m in b.a[0]) and any(sum(map(vec, m)) for _, m in b.a[0]):
            p = {}
            for c, m in b.a[0]:
                q = {tuple(x for x in m if not vec(x)): c}
                for x in m:
                    if vec(x):
                        q = mul(q, to_poly(arithmetic(mk('at', x, t.a[1])) or mk('at', x, t.a[1])))
                p = add(p, q)
            return from_poly(p)
        if b.op == 'call' and len(b.a) == 2 and isinstance(b.a[0], str) and b.a[0].split('::')[-1] in ('array', 'matrix', 'vec', 'coeffs', 'eval') or \
                b.op == 'call' and len(b.a) == 3 and isinstance(b.a[0], str) and b.a[0].split('::')[-1] == 'head' and b.a[2].op == 'i':
            x = mk('at', b.a[1], t.a[1])
            return arithmetic(x) or x
    if o == 'call' and isinstance(t.a[0], str) and t.a[0].split('::')[-1] == 'head' and len(t.a) == 3 and t.a[2].op == 'i' and 0 < t.a[2].a[0] < 5:
        n = t.a[2].a[0]
        c = [mk('at', t.a[1], I(j)) for j in range(n)]
        return mk('mk', 'Eigen::Matrix', *[arithmetic(x) or x for x in c])
    if o in ('lt', 'le', 'eq') and len(t.a) == 2 and all(isinstance(x, Term) and x.op == 'struct' for x in t.a):
        f, g = dict(t.a[0].a[1]), dict(t.a[1].a[1])
        if sorted(f) == sorted(g) and all(n.isdigit() for n in f) and f:
            ks = sorted(f, key=int)
            if o == 'eq':
                return and_(*[eq(f[k], g[k]) for k in ks])
            r = (lt if o == 'lt' else le)(f[ks[-1]], g[ks[-1]])
            for k in reversed(ks[:-1]):
                r = or_(lt(f[k], g[k]), and_(eq(f[k], g[k]), r))
            return r
    if o in ('lt', 'le', 'eq') and any(x.op == 'poly' for x in t.a):
        a, b = t.a
        p = add(to_poly(b), to_poly(a), -1)          # b - a
        pos = {m: c for m, c in p.items() if c > 0}
        neg = {m: -c for m, c in p.items() if c < 0}
        # common positive factor
        k = None
        for c in list(pos.values()) + list(neg.values()):
            k = c if k is None else min(k, c)
        if k and k != 1:
            pos = {m: c / k for m, c in pos.items()}
            neg = {m: c / k for m, c in neg.items()}
        l, r = from_poly(neg), from_poly(pos)
        if o == 'eq':
            return eq(l, r)
        return (lt if o == 'lt' else le)(l, r)
    return None


_memo = {}
_memoc = {}


def canon(t):
    return rewrite(strip(t), arithmetic, _memo)


def canonc(t):
    return rewrite(stripcast(t), arithmetic, _memoc)
