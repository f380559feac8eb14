"""Check runner: obligations, verdict, evidence."""
import copy
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import frontend  # noqa: E402
from ir import Program, AnalysisError, short  # noqa: E402
import interp  # noqa: E402
from interp import Interp, Summary  # noqa: E402
from terms import *  # noqa: E402,F401,F403
from terms import strip, stripcast, entails, and_, or_, not_, TRUE, FALSE, Term, mk, subterms, show, VOID, rewrite, atoms, kids, I  # noqa: E402
from spec import PV, pat, unify, build, resolve, name_match, pshow  # noqa: E402
from canon import canon, canonc  # noqa: E402
import itertools  # noqa: E402

VERIF = os.path.dirname(HERE)
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.obs = []          # (rule, construct, ok, message)
        self.bad = []
        self.log = {}
        self.progs = {}
        self.functions = set()
        self.sites = 0
        self.notes = []
        self.known = load_known(pid)
        self.known_hit = []
        self.t0 = time.time()

    def program(self, *patterns):
        key = tuple(patterns)
        if key not in self.progs:
            self.progs[key] = Program(list(patterns), self.log)
        return self.progs[key]

    def ob(self, rule, where, ok, msg=''):
        """One obligation: rule applied to a construct."""
        self.obs.append((rule, where, bool(ok)))
        if not ok:
            for k in self.known:
                if k['rule'] == rule and (k.get('where') is None or k['where'] in where) and \
                        (k.get('match') is None or k['match'] in msg):
                    self.known_hit.append((k, rule, where, msg))
                    return True
            self.bad.append((rule, where, msg))
        return bool(ok)

    def need(self, n, what):
        """Zero instances of something the rule is about means the analysis lost its subject."""
        if not n:
            raise AnalysisError('no instance of %s found: the analysis lost its subject' % what)

    def summarise(self, prog, fn, **kw):
        iargs = {k: kw.pop(k) for k in list(kw) if k in ('opaque', 'inline', 'reads', 'default_opaque', 'devirt')}
        if fn and fn['sqn'].startswith('sensor::MapByTime::'):   # the container itself is under analysis
            iargs['inline'] = tuple(iargs.get('inline', ())) + (r'^sensor::MapByTime::',)
        it = Interp(prog, **iargs)
        it.this_rec = prog.records.get(fn['T'][fn['clst']]) if 'clst' in fn else None
        s = it.run(fn, **kw)
        s.it = it
        range_erases(s)
        self.functions |= it.analysed | it.inlined
        self.sites += len(s.effects)
        return s

    def closure(self, s, lam):
        """Summary of a deferred closure found in summary s."""
        c = s.it.closure(lam)
        c.it = s.it
        self.functions |= s.it.analysed | s.it.inlined
        self.sites += len(c.effects)
        return c

    def owns(self, rule, s, lam):
        """A closure run later holds no reference to a variable of the function that made it."""
        t = strip(lam)
        lams = [x for x in subterms(t) if x.op == 'lam']
        self.ob(rule, s.fn['sqn'], bool(lams), 'what is run later cannot be identified: ' + show(t)[:120])
        for x in lams:
            node, fr, st = s.it.lams[x.a[0]][:3]
            for c in node['caps']:
                if not c.get('ref') or 'd' not in c:
                    continue
                v = st.env.get((fr.fid, c['d']))
                r = v
                while r is not None and r.op in ('f', 'at', 'v') and isinstance(r.a[0], Term):
                    r = r.a[0]
                self.ob(rule, '%s (%s:%d)' % (s.fn['sqn'], fr.file, node['l']), r is not None and r.op == 'this',
                        'work run later keeps a reference to the local variable %s' % c.get('n'))

    def frame(self, rule, prog, cls, fields, allowed, rel=None, opaque=()):
        """No public member function of cls other than the allowed ones changes the fields."""
        rel = rel or on_fields(*fields)
        n = 0
        for m in prog.methods_of(cls):
            if m['n'] in allowed or m.get('implicit') or m.get('priv') or m.get('ctor') or m['n'].startswith('~') \
                    or m['n'] == short(cls).split('::')[-1]:
                continue
            s = self.summarise(prog, m, opaque=list(opaque))
            bad = [e for e in s.effects if rel(e)]
            n += 1
            self.ob(rule, '%s (%s:%d)' % (m['sqn'], m.get('file'), m['l']), not bad,
                    'changes the protected state: %s' % '; '.join(brief(e) for e in bad[:3]))
        return n

    # ---------------------------------------------------------------- spec matching
    def names(self, s, it=None):
        """Names usable in guard patterns: parameters of the function and enum constants seen."""
        d = {}
        for p in s.params:
            if p.op == 'param':
                d[p.a[0]] = p
        seen = set()
        for e in s.effects:
            for f in e.facts:
                seen |= subterms(f)
            for x in (e.val, e.obj):
                if isinstance(x, Term):
                    seen |= subterms(x)
        seen = {t for t in seen if t.op == 'enum'}
        for t in [y for x in seen for y in SIBLINGS.get(x, ()) if y not in seen] + list(seen):
            d[t.a[0]] = t
            d[t.a[0].split('::')[-1]] = t
        return d

    def trial(self, run, *alts):
        """The first of the equivalent forms of a summary for which nothing is violated; otherwise the first one."""
        first = None
        for alt in (lambda x: x,) + alts:
            keep = self.obs, self.bad, self.known_hit
            self.obs, self.bad, self.known_hit = list(self.obs), list(self.bad), list(self.known_hit)
            n = len(self.bad)
            r = run(alt)
            if r is None:
                self.obs, self.bad, self.known_hit = keep
                continue
            got = self.obs, self.bad, self.known_hit
            if first is None:
                first = got, r
            if len(self.bad) == n:
                return r
            self.obs, self.bad, self.known_hit = keep
        self.obs, self.bad, self.known_hit = first[0]
        return first[1]

    def match(self, rule, s, relevant, expected, where=None, strict=True):
        def run(alt):
            t = alt(s)
            return None if t is None else self.match_one(rule, t, relevant, expected, where, strict)
        return self.trial(run, refilled, wholesale)

    def match_one(self, rule, s, relevant, expected, where=None, strict=True):
        """Effects selected by `relevant` must be exactly the expected ones.

        expected: list of E(...) entries.  Each relevant effect must match one entry; the union of the guards
        of the effects matching an entry must be equivalent to the entry's guard, pairwise exclusive.
        """
        fnname = where or s.fn['sqn']
        effs = [v for e in s.effects if relevant(e) for v in views(e)]
        expected = [y for x in expected for y in x.split()]
        names = self.names(s)
        groups = {id(x): [] for x in expected}
        for e in effs:
            hit = None
            why = []
            for e1 in forms(s, e):
                for x in expected:
                    b = x.matches(e1, s, names)
                    if isinstance(b, dict):
                        if hit is None:
                            hit = (x, b)
                        if x.loops_ok(e1, b)[0]:
                            hit = (x, b)
                            break
                    elif b:
                        why.append(b)
                if hit is not None:
                    e = e1
                    break
            if hit is None:
                if strict:
                    self.ob(rule, '%s (%s)' % (fnname, e.where()), False,
                            'unexpected effect: %s%s' % (brief(e), '; ' + why[0] if why else ''))
                continue
            groups[id(hit[0])].append((e, hit[1]))
        out = []
        for x in expected:
            g = groups[id(x)]
            out.append(g)
            if not g:
                if not x.optional:
                    self.ob(rule, '%s (%s:%d)' % (fnname, s.fn.get('file'), s.fn['l']), False, 'missing effect: %s' % x)
                continue
            ok, msg = x.verify(g, s, names)
            self.ob(rule, '%s (%s)' % (fnname, g[0][0].where()), ok, msg)
        return out


    def spec(self, rule, prog, fn, expected, rel=None, opaque=(), order=(), also=(), **kw):
        """The visible effects of a function must be exactly the expected ones.

        rel: selector; default: changes of state that outlives the call, returned values, and calls of the functions
        named in `expected` or `also`.  order: 'a<b' pairs of tags.
        """
        fns = [fn] if isinstance(fn, dict) else prog.overloads(fn)
        self.need(fns, fn)
        s = None
        for f in fns:
            s = self.summarise(prog, f, opaque=list(opaque), **kw)
            self.spec_on(rule, s, expected, rel, order, also)
        return s

    def result(self, rule, prog, fn, fields, opaque=(), pred=None, missing_ok=(), more=()):
        """The returned value has exactly the given components.

        fields: {path: value} or {path: E(...)}; 'xs[_].f' is a component of every appended element ('xs' needs its own entry
        E('append', ...) for the loop)."""
        fns = [fn] if isinstance(fn, dict) else [f for f in prog.overloads(fn) if pred is None or pred(f)]
        self.need(fns, fn)
        for f in fns:
            s = self.summarise(prog, f, opaque=list(opaque))
            t = copy.copy(s)
            t.effects = result_effects(s)
            t.params = list(s.params) + [RESULT]
            exp = []
            for k, v in fields.items():
                o = 'result' + ('.' + k if k and k[0] != '[' else k)
                if isinstance(v, E):
                    v = copy.copy(v)
                    v.obj = o
                    exp.append(v)
                elif isinstance(v, list):
                    for x in v:
                        x = copy.copy(x)
                        x.obj = o
                        exp.append(x)
                else:
                    exp.append(E('write', o, v, guard='true', each=None if '[_]' in k else []))
            self.match(rule, t, lambda e: True, exp + list(more), where=s.fn['sqn'])
        return s

    def truth(self, rule, prog, fn, cond, opaque=(), pred=None):
        """The function returns true exactly under the condition."""
        for f in ([fn] if isinstance(fn, dict) else [f for f in prog.overloads(fn) if pred is None or pred(f)]):
            s = self.summarise(prog, f, opaque=list(opaque))
            got = FALSE
            for e in s.effects:
                if e.kind == 'return' and isinstance(e.val, Term):
                    for v in views(e):
                        got = or_(got, and_(*[canon(g) for g in v.guard], canon(v.val)))
            cand = set()
            atoms(got, cand)
            want, _ = resolve(build(pat(cond), {}, self.names(s)), {}, sorted(cand, key=lambda x: x.id))
            self.ob(rule, '%s (%s:%d)' % (s.fn['sqn'], s.fn.get('file'), s.fn['l']), entails([got], want) and entails([want], got),
                    'true exactly if %s, expected %s' % (got, cond))
        return s

    def refuses(self, rule, s, cond, msg=''):
        """Inputs that do not satisfy the condition are refused, and those that do are not refused for what the condition is about."""
        where = '%s (%s:%d)' % (s.fn['sqn'], s.fn.get('file'), s.fn['l'])
        self.ob(rule, where, E('call').has_fact(completed(s), cond, {}, self.names(s)), msg or 'accepted although not: ' + cond)
        m = E('assert')
        for e in s.effects:
            if e.kind != 'assert' or not isinstance(e.val, Term):
                continue
            v = m.st(e.val)
            cand = set()
            atoms(v, cand)
            want, _ = resolve(build(pat(cond), {}, self.names(s)), {}, sorted(cand, key=lambda x: x.id))
            about = {x for x in subterms(want) if x.op in ('size', 'f', 'at') and not any(y.op in PV - {'param'} for y in subterms(x))}
            if about & set(subterms(v)):
                self.ob(rule, where, entails([want] + [m.st(g) for g in e.guard], v), 'refused although %s: CHECK at line %s' % (cond, e.line))

    def value(self, rule, prog, fn, cases, pred=None, opaque=(), casts=False):
        """The returned value: one expression, or {condition: expression}."""
        cs = list(cases.items()) if isinstance(cases, dict) else [('true', cases)]
        exp = [E('write', 'result', v, guard=g, each=[], casts=casts) for g, v in cs]
        fns = [fn] if isinstance(fn, dict) else [f for f in prog.overloads(fn) if pred is None or pred(f)]
        if not casts and fns and all(f['T'][f['ret']] == 'bool' for f in fns if isinstance(f.get('ret'), int)) and all('ret' in f for f in fns):
            cond = ' || '.join('(%s) && (%s)' % (g, v) for g, v in cs)
            return self.trial(lambda alt: self.result(rule, prog, fn, {'': exp}, opaque=opaque, pred=pred) if alt(1) == 1 else
                              self.truth(rule, prog, fn, cond, opaque=opaque, pred=pred), lambda x: 2)
        return self.result(rule, prog, fn, {'': exp}, opaque=opaque, pred=pred)

    def final(self, rule, prog, fn, fields, opaque=(), s=None):
        """The values of the given locations when the function returns: {path: value | {condition: value}}."""
        fns = [fn] if isinstance(fn, dict) else prog.overloads(fn) if fn else [None]
        self.need(fns, fn)
        for f in fns:
            r = s if s is not None else self.summarise(prog, f, opaque=list(opaque))
            ret = [e for e in r.effects if e.kind == 'return']
            self.need(ret, '%s returns' % r.fn['sqn'])
            t = copy.copy(r)
            t.effects, exp = [], []
            for k, v in fields.items():
                loc = build(pat(k), {}, self.names(r))
                c = copy.copy(ret[-1])
                c.kind, c.obj, c.pc, c.loops, c.locks = 'write', loc, (), (), ()
                c.val = r.interp.read(r.state, loc)
                t.effects.append(c)
                exp += [E('write', k, y, guard=g, each=[]) for g, y in (v.items() if isinstance(v, dict) else [('true', v)])]
            self.match(rule, t, lambda e: True, exp)
        return r

    def spec_on(self, rule, s, expected, rel=None, order=(), also=()):
        def run(alt):
            t = alt(s)
            return None if t is None else self.spec_one(rule, t, expected, rel, order, also)
        return self.trial(run, refilled, wholesale)

    def spec_one(self, rule, s, expected, rel=None, order=(), also=()):
        names = tuple(x.name for x in expected if x.kind in ('call', 'invoke') and x.name) + tuple(also)
        kinds = set(x.kind for x in expected)
        local = any(x.kind in ('write', 'append', 'mutate') and isinstance(x.obj, str) and x.obj.startswith('$') for x in expected)
        r = rel or visible(s, names, kinds, local)
        tags = {}
        groups = self.match_one(rule, s, r, expected)
        flat = [y for x in expected for y in x.split()]
        for x, g in zip(flat, groups):
            if x.tag:
                tags.setdefault(x.tag, []).extend(e for e, _ in g)
        for o in order:
            seq = o.split('<')
            for a, b in zip(seq, seq[1:]):
                for y in tags.get(b, []):
                    bad = [z for z in tags.get(a, []) if not z.seq < y.seq and
                           not entails([strip(f) for f in z.guard], not_(and_(*[strip(f) for f in y.guard])))]
                    self.ob(rule, '%s (%s)' % (s.fn['sqn'], y.where()), not bad,
                            '%s must come before %s: %s happens after %s' % (a, b, brief(bad[0]) if bad else '', brief(y)))
        s.tags = tags
        return s


def visible(s, names, kinds=(), local=False):
    def rel(e):
        if e.kind in ('write', 'append', 'mutate', 'delete'):
            if not isinstance(e.obj, Term):
                return False
            r = target(e.obj)
            while r.op in ('f', 'at', 'v'):
                r = r.a[0]
            if r.op == 'obj' and not local:
                return False
            return True
        if e.kind == 'return':
            return 'return' in kinds and e.val is not VOID
        if e.kind == 'call':
            return any(name_match(e.name, n) for n in names)
        return e.kind in kinds
    return rel


def range_erases(s):
    """while (it != last) it = c.erase(it)   is   c.erase(first, last)."""
    for e in s.effects:
        if e.kind != 'mutate' or e.name != 'erase' or len(e.args) != 1 or not e.loops:
            continue
        t = strip(e.args[0])
        if t.op != 'iter' or len(t.a) != 3 or t.a[2].op not in ('callx', 'call') or mk('acc') not in subterms(t.a[2]) or 'erase' not in str(t.a[2].a[0]):
            continue
        hit = None
        for f, k in e.pc:
            g = strip(f)
            if k == 'if' and g.op == 'not' and g.a[0].op == 'eq' and t in g.a[0].a:
                hit = (f, [x for x in g.a[0].a if x is not t])
        if hit is None or len(hit[1]) != 1:
            continue
        e.args = [t.a[1], hit[1][0]]
        e.pc = [x for x in e.pc if x[0] is not hit[0]]
        e.loops = e.loops[:-1]


class View:
    """An effect under one choice of the conditions its value depends on."""

    def __init__(self, e, obj, val, args, extra):
        self.e, self.obj, self.val, self.args, self.extra = e, obj, val, args, extra

    def __getattr__(self, n):
        return getattr(self.e, n)

    @property
    def guard(self):
        return self.e.guard + self.extra

    @property
    def facts(self):
        return self.e.facts + self.extra

    def __repr__(self):
        return repr(self.e)


def ite_conds(ts):
    """Conditions of the conditional values inside the terms, outermost first."""
    out = []

    def go(t):
        if t.op in ('fold', 'exists', 'iter'):
            return
        if t.op == 'ite':
            if t.a[0] not in out:
                out.append(t.a[0])
        for k in kids(t):
            go(k)
    for t in ts:
        if any(x.op == 'ite' for x in subterms(t)):
            go(t)
    return out


def assume(t, c, v):
    """Value of t when condition c is v."""
    return rewrite(t, lambda x: (x.a[1] if v else x.a[2]) if x.op == 'ite' and x.a[0] is c else None, {})


def views(e):
    if e.kind in ('lock', 'unlock', 'touch', 'new'):
        return [e]
    ts = [x for x in [e.obj, e.val] + list(e.args) if isinstance(x, Term)]
    out = [View(e, e.obj, e.val, list(e.args), [])]
    for _ in range(4):
        nxt, ch = [], False
        for w in out:
            cs = ite_conds([x for x in [w.obj, w.val] + list(w.args) if isinstance(x, Term)])
            if not cs:
                nxt.append(w)
                continue
            ch = True
            c = cs[0]
            for v in (True, False):
                f = lambda t: assume(t, c, v) if isinstance(t, Term) else t
                g = c if v else not_(c)
                # a combination the path condition rules out is no case
                if entails([strip(x) for x in e.facts + w.extra], not_(strip(g))):
                    continue
                sure = entails([strip(x) for x in e.facts + w.extra], strip(g))
                nxt.append(View(e, f(w.obj), f(w.val), [f(x) for x in w.args], w.extra + ([] if sure else [g])))
        out = nxt
        if not ch:
            break
    if e.kind == 'assert':
        # a conjunction is asserted part by part
        out = [View(e, w.obj, c, w.args, w.extra) for w in out for c in
               (w.val.a if isinstance(w.val, Term) and w.val.op == 'and' else (w.val,))]
    return out


def forms(s, e):
    """The effect, and other forms it has: with the equalities of its guard used, with an object that was put together field by
    field spelled out, with an entry put into an empty map written as an assignment and the reverse."""
    yield e
    if e.kind not in ('write', 'append', 'call', 'return'):
        return
    for w in (equated(e), spelled(s, e)):
        if w is not None:
            for x in views(w) if any(isinstance(y, Term) and any(z.op == 'ite' for z in subterms(y)) for y in [w.val] + list(w.args)) else [w]:
                yield x
    o = target(e.obj) if isinstance(e.obj, Term) else None
    if o is None:
        return
    if e.kind == 'write' and isinstance(e.val, Term):
        v = strip(e.val)
        for g in e.guard:
            h = strip(g)
            op = 'max' if h in (lt(o, v), le(o, v)) else 'min' if h in (lt(v, o), le(v, o)) else None
            if op:
                # raising a value to another one if that is larger
                c = copy.copy(getattr(e, 'e', e))
                c.pc = type(c.pc)([(f, t) for f, t in c.pc if f is not g])
                c.val = mk('op', op, o, v)
                w = View(c, e.obj, c.val, [], [x for x in getattr(e, 'extra', ()) if x is not g])
                w.e = c
                yield w
    if e.kind == 'append' and len(e.args) == 1 and not e.loops and any(
            entails([strip(f)], not_(has(o, strip(e.args[0])))) for f in list(e.facts) + [x.val for x in s.effects if x.kind == 'assert' and not x.loops and set(x.guard) <= set(e.guard)]):
        w = View(e, at(e.obj, e.args[0]), e.val, [], list(getattr(e, 'extra', ())))
        w.e = getattr(e, 'e', e)
        w.kind = 'write'
        yield w
    if e.kind == 'write' and o.op == 'at' and len(o.a) == 2 and any(entails([strip(f)], not_(has(o.a[0], strip(stripv(e.obj).a[1])))) for f in e.facts):
        w = View(e, stripv(e.obj).a[0], e.val, [stripv(e.obj).a[1]], list(getattr(e, 'extra', ())))
        w.e = getattr(e, 'e', e)
        w.kind = 'append'
        yield w
    if not e.loops:
        return
    if e.kind == 'append' and len(e.args) == 1 and fresh(s, o) and distinct(e.args[0], e.loops) and alone(s, e, o):
        w = View(e, at(e.obj, e.args[0]), e.val, [], list(getattr(e, 'extra', ())))
        w.e = getattr(e, 'e', e)
        w.kind = 'write'
        yield w
    if e.kind == 'write' and o.op == 'at' and len(o.a) == 2 and fresh(s, o.a[0]) and distinct(o.a[1], e.loops) and alone(s, e, o.a[0]):
        w = View(e, stripv(e.obj).a[0], e.val, [stripv(e.obj).a[1]], list(getattr(e, 'extra', ())))
        w.e = getattr(e, 'e', e)
        w.kind = 'append'
        yield w


def fresh(s, o):
    """A local object (possibly renamed)."""
    return o.op == 'obj' or o.op == 'param' and o.a[0] not in [p['n'] for p in s.fn['params']]


def distinct(k, loops):
    """No two iterations have the same key."""
    k = strip(k)
    if k.op == 'f' and k.a[1] in ('first', 'id'):
        k = k.a[0]
    elif not (k.op == 'at' and k.a[0].op == 'trajs'):
        return False
    return len(loops) == 1 and k.op == 'at' and len(k.a) == 2 and k.a[1] is loops[0].idx


def alone(s, e, o):
    """The effect is the only change of the local object."""
    e = getattr(e, 'e', e)
    return not any(x is not e and x.kind in ('write', 'append', 'mutate') and isinstance(x.obj, Term) and root_path(target(x.obj))[0] is o
                   for x in s.effects)


def equated(e):
    m = {}
    for g in e.guard:
        g = strip(g)
        for c in (g.a if g.op == 'and' else (g,)):
            if c.op == 'eq':
                for x, y in (c.a, c.a[::-1]):
                    if y.op in ('begin', 'end') and x.op not in ('begin', 'end', 'i', 'b'):
                        m[x] = y
    if e.kind == 'return':
        for f in e.facts:
            f = strip(f)
            if f.op == 'eq' and const(f.a[1]) is not None and const(f.a[0]) is None:
                m[f.a[0]] = f.a[1]
            elif f.op == 'eq' and const(f.a[0]) is not None and const(f.a[1]) is None:
                m[f.a[1]] = f.a[0]
    if not m:
        return None
    q = lambda t: rewrite(strip(t), lambda x: m.get(x)) if isinstance(t, Term) else t
    return rebuilt(e, q)


def rebuilt(e, q):
    v, args = q(e.val), [q(x) for x in e.args]
    if v is e.val and all(x is y for x, y in zip(args, e.args)):
        return None
    w = View(getattr(e, 'e', e), e.obj, v, args, list(getattr(e, 'extra', ())))
    return w


def spelled(s, e):
    """An element made in place and then filled: what it consists of in the end."""
    if e.kind != 'append' or e.args or e.name != 'emplace_back' or not isinstance(e.val, Term) or strip(e.val).op != 'obj':
        return None
    o = strip(e.val)
    tree = {}
    for x in s.effects:
        if x.kind in ('write', 'append', 'mutate', 'delete') and isinstance(x.obj, Term):
            r, acc = root_path(target(x.obj))
            if r is not o:
                continue
            if x.kind != 'write' or len(acc) != 1 or acc[0][0] != 'f' or tuple(x.loops) != tuple(e.loops) or any(f not in e.guard for f in x.guard):
                return None
            tree[acc[0][1]] = x.val
    if not tree:
        return None
    return rebuilt(e, lambda t: struct('', list(tree.items())) if t is e.val else t)


def under(t, facts):
    """Value of t where the facts decide its conditions (loops inside t are left as they are)."""
    for _ in range(8):
        keep = {x: x for x in subterms(t) if x.op in ('iter', 'fold', 'exists')}
        hit = []

        def fn(x):
            if x.op != 'ite':
                return None
            if entails(facts, x.a[0]):
                hit.append(x)
                return x.a[1]
            if entails(facts, not_(x.a[0])):
                hit.append(x)
                return x.a[2]
            return None
        t = rewrite(t, fn, keep)
        if not hit:
            return t
    return t


def specialise(s, conds, casts=True):
    """The summary under the given conditions (patterns over the parameters): decided conditions are resolved, impossible effects dropped."""
    names = {x.a[0]: x for x in s.params if isinstance(x, Term) and x.op == 'param'}
    st = E('call', casts=casts).st
    facts = []
    cand = set()
    for e in s.effects:
        for f, _ in e.pc:
            atoms(st(f), cand)
        for v in [e.val] + list(e.args or ()):
            if isinstance(v, Term):
                for x in subterms(st(v)):
                    if x.op == 'ite':
                        atoms(x.a[0], cand)
    cand = sorted(cand, key=lambda x: x.id)
    for c in conds:
        f, _ = resolve(st(build(pat(c), {}, names)), {}, cand)
        facts.extend(f.a if f.op == 'and' else [f])
    r = copy.copy(s)
    r.effects = []
    for e in s.effects:
        dead, pc = False, []
        for f, tag in e.pc:
            g = st(under(st(f), facts))
            if g is TRUE or entails(facts, g):
                continue
            if g is FALSE or entails(facts, not_(g)):
                dead = True
                break
            pc.append((g, tag))
        if dead:
            continue
        c = copy.copy(e)
        c.pc = type(e.pc)(pc)
        q = lambda v: st(under(st(v), facts)) if isinstance(v, Term) else v
        if e.kind in ('write', 'append', 'mutate', 'call', 'return', 'assert'):
            c.obj = under(e.obj, facts) if isinstance(e.obj, Term) else e.obj
            c.val, c.args = q(e.val), tuple(q(a) for a in e.args or ())
        r.effects.append(c)
    return r


def constructed(s, *classes, nested=False):
    """The summary with every heap or local object made by an opaque constructor of the named classes shown as that construction."""
    m = {}
    q = lambda t: rewrite(t, lambda x: m.get(x)) if isinstance(t, Term) else t
    for e in s.effects:
        if e.kind == 'new' and isinstance(e.obj, Term) and e.obj.op != 'void' and (not classes or e.name.split('::')[-1] in classes):
            m[strip(e.obj)] = mk('mk', e.name, *[q(x) if nested else x for x in e.args or ()])
    if not m:
        return s
    r = copy.copy(s)
    r.effects = []
    for e in s.effects:
        if e.kind not in ('new', 'lock', 'unlock'):
            e = copy.copy(e)
            e.val, e.args = q(e.val), tuple(q(a) for a in e.args or ())
        r.effects.append(e)
    return r


RESULT = mk('param', 'result')
ELEM = mk('idx', '*')


def root_path(t):
    """(root, [accessors]) of a location."""
    acc = []
    while t.op in ('f', 'at') and len(t.a) == 2:
        acc.append((t.op, t.a[1]))
        t = t.a[0]
    return t, acc[::-1]


def graft(base, acc):
    for op, x in acc:
        base = F(base, x) if op == 'f' else at(base, x)
    return base


def flat(s, root, at_, before=None, loops=None, pc=None, depth=0, prefix=()):
    """The effects that build the local object `root`, as changes of the location `at_`.

    Objects built on the way and then stored or appended are spelled out in place."""
    out = []
    if depth > 8:
        return out

    def put(e, loc, v, kind):
        v0 = v
        while isinstance(v, Term) and v.op in ('v', 'copy'):
            v = v.a[0]
        c = copy.copy(e)
        c.kind = kind
        c.obj = loc
        c.val = v0
        inner = loc if kind == 'write' else at(loc, ELEM)
        if isinstance(v, Term):
            r, acc = root_path(v)
            if r.op == 'obj' and not (r is root and before is None and acc == []):
                sub = flat(s, r, inner, None if kind == 'append' and not acc else e.seq, e.loops, e.pc, depth + 1, acc)
                if sub:
                    if kind == 'append':
                        c.val = mk('elem')
                        out.append(c)
                    out.extend(sub)
                    return
                if kind == 'write' and not acc and r.a[0] != 'copy' and not any(x.obj is loc for x in out):
                    return      # a fresh, empty value
        if isinstance(v, Term) and v.op == 'struct':
            if kind == 'append':
                c.val = mk('elem')
                out.append(c)
            for n, x in v.a[1]:
                put(e, F(inner, n), x, 'write')
            return
        out.append(c)
    for e in s.effects:
        if before is not None and e.seq >= before:
            continue
        if e.kind == 'touch' and depth == 0 and isinstance(e.obj, Term):
            # a message component that is only made present
            r, acc = root_path(target(e.obj))
            if r is root and acc[:len(prefix)] == list(prefix) and len(acc) == len(prefix) + 1 and not any(
                    x.kind in ('write', 'append', 'mutate', 'call') and isinstance(y, Term) and any(z is target(e.obj) for z in subterms(target(y)))
                    for x in s.effects for y in (x.obj, x.ret, *(x.args or ()))):
                c = copy.copy(e)
                c.obj = graft(at_, acc[len(prefix):])
                out.append(c)
            continue
        if e.kind in ('write', 'append', 'mutate', 'delete') and isinstance(e.obj, Term):
            r, acc = root_path(target(e.obj))
            if r is not root or acc[:len(prefix)] != list(prefix):
                continue
            loc = graft(at_, acc[len(prefix):])
            if e.kind in ('write', 'append') and isinstance(e.val, Term):
                put(e, loc, e.val, e.kind)
            else:
                c = copy.copy(e)
                c.obj = loc
                out.append(c)
    # a location overwritten later without condition keeps only the last value
    res = []
    for i, e in enumerate(out):
        if e.kind == 'write' and any(x.kind == 'write' and x.obj is e.obj and not x.loops and not x.guard for x in out[i + 1:]):
            continue
        res.append(e)
    return res


def goes_on(l):
    """(condition under which the loop is entered, condition under which an iteration is followed by another one, in terms of that
    iteration), None where unknown."""
    first, nxt = [], []
    if l.cond is not None:
        a, b = l.cond, l.cond
        for phi, (init, ups) in (l.carried or {}).items():
            if any(phi is x for x in subterms(l.cond)):
                if len(set(ups)) != 1:
                    return None, None
                a = subst(a, {phi: init})
                b = subst(b, {phi: ups[0]})
        first.append(a)
        nxt.append(b)
    if l.again is not None:
        nxt.append(l.again)
    phis = set(l.carried or ())
    for x in l.exits:
        own = [f for f, t in x[1] if f is not l.cond]
        nxt.append(or_(*[not_(f) for f in own]))
    f, n = and_(*first), and_(*nxt)
    return f, (None if any(y in phis for y in subterms(n)) else n)


def passed(s, e, i=0):
    """What a call passes as its i-th argument, as a summary of changes of `result` (the call itself: effect of kind 'pass')."""
    c = copy.copy(e)
    c.kind, c.val = 'return', e.args[i]
    t = copy.copy(s)
    d = copy.copy(e)
    d.kind, d.obj, d.args = 'pass', None, ()
    t.effects = [x for x in result_effects(s, [c])] + [d]
    t.params = list(s.params) + [RESULT]
    return t


def listed(s):
    """The summary with a returned local vector that is filled element by element as the list of its elements."""
    r = copy.copy(s)
    r.effects = []
    for e in s.effects:
        o = strip(e.val) if e.kind == 'return' and isinstance(e.val, Term) else None
        if o is not None and o.op == 'obj':
            on = [x for x in s.effects if x.kind in ('append', 'write', 'mutate') and x.obj is not None and root_path(target(x.obj))[0] is o]
            if on and all(x.kind == 'append' and not x.loops and set(x.guard) <= set(e.guard) for x in on):
                e = copy.copy(e)
                e.val = mk('list', *[x.val for x in on])
        r.effects.append(e)
    return r


def renamed(s, objs):
    """The summary with the given local objects called by the given names: {name: term}."""
    own = {show(x): x for x in s.params if isinstance(x, Term)}
    m = {target(t): own.get(n) or mk('param', n) for n, t in objs.items()}
    q = lambda t: rewrite(t, lambda x: m.get(x) or (m.get(target(x)) if x.op in ('copy', 'v') else None)) if isinstance(t, Term) else t
    r = copy.copy(s)
    r.effects = []
    lm = {}
    for e in s.effects:
        e = copy.copy(e)
        e.obj, e.val, e.args = q(e.obj), q(e.val), tuple(q(a) for a in e.args or ())
        e.pc = type(e.pc)((q(f), t) for f, t in e.pc)
        for l in e.loops:
            if l not in lm:
                lm[l] = k = copy.copy(l)
                k.C, k.lo, k.hi = q(l.C), q(l.lo), q(l.hi)
        e.loops = tuple(lm[l] for l in e.loops)
        r.effects.append(e)
    r.params = list(s.params) + [mk('param', n) for n in objs if n not in own]
    return r


def fused(s):
    """Loops over a local list which was filled by one other loop read as that loop: the list's element is what was put in, under
    the condition under which it was put in."""
    fill = {}
    for e in s.effects:
        if e.kind in ('append', 'write', 'mutate') and isinstance(e.obj, Term):
            b = root_path(target(e.obj))[0]
            if b.op == 'obj':
                fill.setdefault(b, []).append(e)
    fill = {b: es[0] for b, es in fill.items() if len(es) == 1 and es[0].kind == 'append' and target(es[0].obj) is b
            and len(es[0].loops) == 1 and es[0].loops[0].full() and not es[0].args[1:]}
    r = copy.copy(s)
    r.effects = []
    for e in s.effects:
        for l in e.loops:
            h = strip(l.hi) if l.C is None and l.hi is not None else None
            b = target(l.C) if l.C is not None else None
            if h is not None and h.op == 'size' and l.lo is not None and strip(l.lo) is I(0) and l.step == 1:
                b = target(stripv(l.hi).a[0])          # by index, if the index serves for nothing else
                only = lambda t: not isinstance(t, Term) or l.idx not in subterms(rewrite(t, lambda x: VOID if x.op == 'at' and len(x.a) == 2 and x.a[1] is l.idx and target(x.a[0]) is b else None))
                if not all(only(x) for x in [e.obj, e.val] + list(e.args or ()) + [f for f, t in e.pc if t != 'loop']):
                    b = None
            a = fill.get(b)
            if a is None or not l.full() or a is e:
                continue
            def q(t):
                return rewrite(t, lambda x: a.val if x.op == 'at' and len(x.a) == 2 and x.a[1] is l.idx and target(x.a[0]) is b else None) if isinstance(t, Term) else t
            e = copy.copy(e)
            e.obj, e.val, e.args = q(e.obj), q(e.val), tuple(q(x) for x in e.args or ())
            own = [f for f, t in e.pc]
            e.pc = type(e.pc)([(f, t) for f, t in a.pc if f not in own] + [(q(f), t) for f, t in e.pc if not (h is not None and t == 'loop' and l.idx in subterms(f))])
            e.loops = tuple(a.loops[0] if k is l else k for k in e.loops)
        r.effects.append(e)
    return r


def refilled(s):
    """A container that is replaced by one built on the side, or by a number of copies of a value, reads as cleared and refilled;
    what is left in a local object nobody looks at any more does not matter.  None: nothing of the kind happens."""
    on = {}
    for e in s.effects:
        if e.kind in ('append', 'write', 'mutate') and isinstance(e.obj, Term):
            on.setdefault(root_path(target(e.obj))[0], []).append(e)
    out, changed, dead = [], False, set()
    for e in s.effects:
        o = target(e.obj) if isinstance(e.obj, Term) else None
        own = o is not None and (o.op == 'obj' and e.loops == () or o.op == 'copy' and o.a[0].op == 'mk' and (
            not e.loops or e.loops[-1].idx in subterms(o)))
        if e.kind == 'write' and own and not any(x is not e and x.seq > e.seq and mentions(x, o) for x in s.effects):
            dead.add(id(e))
            changed = True
    for e in s.effects:
        if id(e) in dead:
            continue
        o = target(e.obj) if isinstance(e.obj, Term) else None
        v = target(e.val) if e.kind == 'write' and isinstance(e.val, Term) else None
        n = x = None
        if e.kind == 'mutate' and e.name == 'assign' and len(e.args) == 2 and strip(e.args[0]).op not in ('begin', 'end'):
            n, x = e.args
        elif e.kind == 'mutate' and e.name == 'assign' and len(e.args) == 2 and [strip(x).op for x in e.args] == ['begin', 'end'] and \
                strip(e.args[0]).a[0] is strip(e.args[1]).a[0]:
            l = interp.Loop('range', e.line, e.file)
            l.C = strip(e.args[0]).a[0]
            l.lo, l.hi, l.step = I(0), size(l.C), 1
            c, a = copy.copy(e), copy.copy(e)
            c.kind, c.name, c.args, c.val, c.seq = 'mutate', 'clear', (), None, e.seq - .5
            a.kind, a.name, a.args, a.val, a.loops = 'append', 'push_back', (), at(l.C, l.idx), tuple(e.loops) + (l,)
            if not (root_path(o)[0].op == 'this' and s.fn.get('kind') == 'ctor'):
                out.append(c)
            out.append(a)
            changed = True
            continue
        elif v is not None and v.op == 'mk' and v.a[0] in ('std::vector', 'std::deque') and len(v.a) == 3 and v.a[1].op not in ('begin', 'end'):
            n, x = v.a[1:]
        if o is None or root_path(o)[0].op == 'obj':
            out.append(e)
            continue
        if n is not None:
            l = interp.Loop('for', e.line, e.file)
            l.lo, l.hi, l.step = I(0), n, 1
            c, a = copy.copy(e), copy.copy(e)
            c.kind, c.name, c.args, c.val, c.seq = 'mutate', 'clear', (), None, e.seq - .5
            a.kind, a.name, a.args, a.val, a.loops = 'append', 'push_back', (), x, tuple(e.loops) + (l,)
            out += [c, a]
            changed = True
            continue
        if v is not None and e.val.op == 'copy':
            # a copy changed on the side and taken over
            part = [x for x in s.effects if x.seq < e.seq and x.kind in ('write', 'append', 'mutate') and isinstance(x.obj, Term) and v in subterms(target(x.obj))]
            later = [x for x in s.effects if x.seq > e.seq and x.kind in ('write', 'append', 'mutate') and isinstance(x.obj, Term) and v in subterms(target(x.obj))]
            if part and not later and all(x.kind == 'write' and tuple(x.loops)[:len(e.loops)] == tuple(e.loops) and not [f for f, _ in e.pc if f not in [g for g, _ in x.pc]] for x in part):
                c = copy.copy(getattr(e, 'e', e))
                c.val = e.val.a[0]
                out = [x for x in out if not any(x is y for y in part)]
                out.append(c)
                for x in part:
                    a = copy.copy(getattr(x, 'e', x))
                    a.obj = rewrite(target(x.obj), lambda y: target(e.obj) if y is v else None)
                    out.append(a)
                changed = True
                continue
        fill = [x for x in on.get(v, []) if id(x) not in dead] if v is not None and v.op == 'obj' else []
        if fill and all(x.kind == 'append' and target(x.obj) is v and x.seq < e.seq and tuple(x.loops)[:len(e.loops)] == tuple(e.loops) for x in fill):
            c = copy.copy(e)
            c.kind, c.name, c.args, c.val, c.seq = 'mutate', 'clear', (), None, e.seq - .5
            out.append(c)
            for x in fill:
                a = copy.copy(x)
                own = [f for f, t in x.pc]
                a.obj, a.seq = e.obj, e.seq
                a.pc = type(x.pc)([(f, t) for f, t in e.pc if f not in own] + list(x.pc))
                out.append(a)
            changed = True
            continue
        out.append(e)
    if not changed:
        return None
    r = copy.copy(s)
    r.effects = out
    return r


def wholesale(s):
    """A container filled by going over another one element by element is a copy of it.  None: nothing of the kind happens."""
    on = {}
    for e in s.effects:
        if e.kind in ('append', 'write', 'mutate') and isinstance(e.obj, Term):
            on.setdefault(target(e.obj), []).append(e)
    sub, out, changed = {}, [], False
    for e in s.effects:
        o = target(e.obj) if isinstance(e.obj, Term) else None
        l = e.loops[-1] if e.kind == 'append' and e.loops else None
        c = None
        if l is not None and l.full() and l.lo is not None and strip(l.lo) is I(0) and l.step == 1 and not getattr(l, 'down', False) and \
                all(strip(x) is strip(e.val) for x in e.args):
            c = stripv(l.C) if l.C is not None else strip(l.hi).a[0] if strip(l.hi).op == 'size' else None
        if c is not None and strip(e.val) is strip(at(c, l.idx)) and on.get(o) == [e] and not e.guard and \
                (root_path(o)[0].op == 'obj' or root_path(o)[0] is RESULT):
            changed = True
            if o.op == 'obj':
                sub[o] = c
                continue
            w = copy.copy(getattr(e, 'e', e))
            w.kind, w.obj, w.val, w.args, w.loops = 'write', e.obj, c, (), tuple(e.loops)[:-1]
            out.append(w)
            continue
        if e.kind == 'mutate' and e.name == 'reserve':
            continue
        out.append(e)
    if not changed:
        return None
    r = copy.copy(s)
    q = lambda t: rewrite(t, lambda x: sub.get(x)) if isinstance(t, Term) else t
    r.effects = []
    for e in out:
        if sub and any(mentions(e, o) for o in sub):
            e = rebuilt(e, lambda t: q(strip(t)) if isinstance(t, Term) else t) or e
        r.effects.append(e)
    return r


def mentions(e, o):
    ts = [e.obj, e.val] + list(e.args or ()) + [f for f, t in e.pc] + [y for l in e.loops for y in (l.C, l.hi, l.cond)]
    return any(isinstance(t, Term) and o in subterms(t) for t in ts)


def result_effects(s, rets=None):
    """What a function returns, as changes of `result`."""
    out = []
    if rets is None:
        rets = [e for e in s.effects if e.kind == 'return' and isinstance(e.val, Term) and e.val is not VOID]
    for e0 in rets:
        for e in views(e0):
            v = e.val
            chain = []
            while v.op in ('v', 'copy'):
                if v.op == 'copy':
                    chain.append(v)
                v = v.a[0]
            on_copy = [x for c in chain for x in flat(s, target(c), RESULT, e.seq)]
            if on_copy and (len(rets) > 1 or e.guard):
                on_copy = [View(x, x.obj, x.val, list(x.args), [g for g in e.guard if g not in x.guard]) for x in on_copy]
            out.extend(on_copy)
            if v.op == 'obj':
                fs = flat(s, v, RESULT, e.seq)
                if len(rets) > 1 or e.guard:
                    fs = [View(x, x.obj, x.val, list(x.args), [g for g in e.guard if g not in x.guard]) for x in fs]
                if fs:
                    out.extend(fs)
                    continue
            if v.op == 'struct':
                todo = [(RESULT, v)]
                while todo:
                    loc, x = todo.pop(0)
                    y = x
                    while y.op in ('v', 'copy'):
                        y = y.a[0]
                    if y.op == 'struct':
                        todo.extend((F(loc, n), z) for n, z in y.a[1])
                    elif root_path(y)[0].op == 'obj' and flat(s, root_path(y)[0], loc, e.seq, prefix=root_path(y)[1]):
                        out.extend(View(z, z.obj, z.val, list(z.args), [g for g in e.guard if g not in z.guard])
                                   for z in flat(s, root_path(y)[0], loc, e.seq, prefix=root_path(y)[1]))
                    elif y.op == 'obj' and y.a[0] != 'copy':
                        pass        # a fresh, empty value
                    else:
                        c = copy.copy(e0)
                        c.kind, c.obj, c.val = 'write', loc, x
                        out.append(View(c, loc, x, [], [g for g in e.guard if g not in c.guard]))
                continue
            c = copy.copy(e0)
            c.kind, c.obj, c.val = 'write', RESULT, v
            out.append(View(c, RESULT, v, [], [g for g in e.guard if g not in c.guard]))
    return out


def on_fields(*names, base=None, kinds=('write', 'append', 'mutate', 'delete')):
    """Selector: effects that change one of the named fields (or something reached through them)."""
    def rel(e):
        if e.kind not in kinds or not isinstance(e.obj, Term):
            return False
        for t in subterms(target(e.obj)):
            if t.op == 'f' and t.a[1] in names and (base is None or str(t.a[0]) == base):
                return True
        return False
    return rel


def calls(*names):
    def rel(e):
        return e.kind == 'call' and any(name_match(e.name, n) for n in names)
    return rel


def any_of(*rels):
    return lambda e: any(r(e) for r in rels)


def of_kind(*kinds):
    return lambda e: e.kind in kinds


def where(fn):
    return '%s (%s:%d)' % (fn['sqn'], fn.get('file'), fn['l'])


def one(xs, what):
    xs = list(xs)
    if len(xs) != 1:
        raise AnalysisError('expected exactly one %s, found %d' % (what, len(xs)))
    return xs[0]


def brief(e):
    r = repr(e)
    return r if len(r) < 400 else r[:400] + '...'


def target(t):
    """The location an effect changes: a local copy is not the object it was copied from."""
    if t.op == 'v':
        return target(t.a[0])
    if t.op == 'copy':
        return mk('obj', 'copy', t.a[1])
    if t.op == 'f':
        return F(target(t.a[0]), t.a[1])
    if t.op == 'at' and len(t.a) == 2:
        return at(target(t.a[0]), strip(t.a[1]))
    return strip(t)


def versioned(t):
    """Distinguish the value a location had on entry from values it took later."""
    return rewrite(t, lambda x: mk('new', strip(x.a[0])) if x.op == 'v' else (x.a[0] if x.op == 'copy' else None), {})


def canon_idx(t, loops):
    """Rename loop indices to their nesting position."""
    m = {l.idx: mk('idx', 'i%d' % k) for k, l in enumerate(loops)}
    return rewrite(t, lambda x: m.get(x))


class E:
    """Expected effect.

    kind   write|append|call|invoke|mutate|return|...
    obj    pattern of the target / object
    val    pattern of the value; args: list of patterns for calls
    guard  pattern of the condition under which it happens (None = do not care, 'true' = always)
    each   list of container patterns: the loops around it must cover these completely, innermost last
    locks  patterns of locks that must be held;  nolocks: no lock may be held
    facts  conditions that must have been checked (by branch or CHECK) before it
    """

    def __init__(self, kind, obj=None, val=None, name=None, args=None, guard=None, each=None, locks=None,
                 nolocks=False, facts=None, optional=False, loops=None, casts=False, implies=None, needs=None,
                 stale_ok=False, ver=False, tag=None):
        self.tag = tag
        self.stale_ok = stale_ok
        self.ver = ver
        self.kind, self.obj, self.val, self.name, self.args = kind, obj, val, name, args
        self.guard, self.each, self.locks, self.nolocks, self.facts = guard, each, locks, nolocks, facts
        self.optional = optional
        self.loops = loops
        self.casts = casts
        self.implies = implies   # guard must imply this
        self.needs = needs       # this must imply guard

    def __str__(self):
        return '%s %s%s%s%s%s' % (self.kind, self.obj or '', ' := ' + str(self.val) if self.val else '',
                                  self.name or '', '(%s)' % ', '.join(map(str, self.args)) if self.args is not None else '',
                                  ' if %s' % self.guard if self.guard else '')

    def st(self, t):
        if self.ver:
            t = versioned(t)
        return canonc(t) if self.casts else canon(t)

    def split(self):
        """A conditional value expects the two effects under the two conditions."""
        ps = [pat(x) for x in [self.obj, self.val] + list(self.args or []) if x is not None]
        cs = ite_conds(ps)
        if not cs:
            return [self]
        out = []
        for v in (True, False):
            y = copy.copy(self)
            f = lambda x: x if x is None else assume(pat(x), cs[0], v)
            y.obj, y.val = f(self.obj), f(self.val)
            y.args = None if self.args is None else [f(x) for x in self.args]
            g = cs[0] if v else not_(cs[0])
            if self.guard is not None:
                y.guard = and_(pat(self.guard), g)
            out += y.split()
        return out

    def matches(self, e, s, names):
        if e.kind != self.kind:
            return None
        b = {}
        if self.name is not None and not (e.name and name_match(e.name, self.name)):
            return None
        if self.obj is not None:
            if e.obj is None:
                return None
            b = unify(pat(self.obj), self.st(target(e.obj) if e.kind in ('write', 'append', 'mutate') else e.obj), b)
            if b is None:
                return None
        if self.val is not None:
            b2 = unify(pat(self.val), self.st(e.val), b)
            if b2 is None:
                return 'value %s does not match %s' % (self.st(e.val), self.val)
            b = b2
        if self.args is not None:
            if len(self.args) != len(e.args):
                return 'wrong number of arguments'
            for x, a in zip(self.args, e.args):
                if x is None:
                    continue
                b2 = unify(pat(x), self.st(a), b)
                if b2 is None:
                    return 'argument %s does not match %s' % (self.st(a), x)
                b = b2
        return b

    def loops_ok(self, e, b):
        if self.each is None:
            return True, ''
        if e.kind == 'write' and len(e.loops) == len(self.each) > 1 and not hasattr(self, 'fixed'):
            # writes of different cells: the nesting of independent loops does not matter
            n = len(e.loops)
            free = [i for i in range(n) if e.loops[i].lo is not None and not any(
                isinstance(t, Term) and k.idx in subterms(t) for k in e.loops for j in [e.loops[i]] for t in (j.C, j.lo, j.hi))]
            x = copy.copy(self)
            x.fixed = True
            r = x.loops_ok(e, b)
            if r[0] or len(free) < 2:
                return r
            for p in itertools.permutations(free):
                x.each = list(self.each)
                for i, j in zip(free, p):
                    x.each[i] = self.each[j]
                if x.loops_ok(e, b)[0]:
                    return True, ''
            return r
        if len(e.loops) != len(self.each):
            return False, '%s happens inside %d loops, expected %d' % (brief(e), len(e.loops), len(self.each))
        for l, c in zip(e.loops, self.each):
            if c is None:
                continue
            if isinstance(c, str) and ' or ' in c:
                x = copy.copy(self)
                rs = []
                for y in c.split(' or '):
                    x.each = [y if k is l else None for k in e.loops]
                    rs.append(x.loops_ok(e, b))
                if not any(r[0] for r in rs):
                    return rs[0]
                continue
            if not l.full():
                return False, '%s: loop at line %d does not visit every element (%s)' % (
                    brief(e), l.line, [x[:1] + x[2:] for x in l.exits] or 'range not recognised')
            if isinstance(c, str) and '..' in c and not c.startswith('..') and l.C is None:
                lo, hi = c.split('..')
                if l.step != 1 or unify(pat(lo), self.st(l.lo), b) is None or unify(pat(hi), self.st(l.hi), b) is None:
                    return False, '%s: loop at line %d runs from %s to %s, expected %s' % (brief(e), l.line, self.st(l.lo), self.st(l.hi), c)
                continue
            if l.step != 1 or strip(l.lo) is not I(0):
                return False, '%s: loop at line %d does not start at the first element' % (brief(e), l.line)
            hi = self.st(l.hi)
            same = [x.a[0] for f in e.facts for g in [self.st(f)] if g.op == 'eq' and all(y.op == 'size' for y in g.a) and hi in g.a for x in g.a if x is not hi]
            if isinstance(c, str) and c.startswith('..'):
                # a number of iterations: counting up to it, or over a container of that size
                n = hi if l.C is None else canon(size(self.st(l.C)))
                if unify(pat(c[2:]), hi, b) is None and unify(pat(c[2:]), n, b) is None and not any(unify(pat(c[2:]), size(x), b) is not None for x in same):
                    return False, '%s: loop at line %d runs to %s, expected %s' % (brief(e), l.line, hi, c[2:])
                continue
            if not (l.C is not None and unify(pat(c), self.st(l.C), b) is not None or
                    hi.op == 'size' and unify(pat(c), hi.a[0], b) is not None or
                    any(unify(pat(c), x, b) is not None for x in same)):
                return False, '%s: loop at line %d ranges over %s, expected %s' % (
                    brief(e), l.line, l.C if l.C is not None else l.hi, c)
        return True, ''

    def passed_checks(self, g, s):
        """What the checks made before the effect guarantee: where one was reached, it held."""
        r = []
        for x in s.effects:
            if any(x is e for e, _ in g):
                break
            if x.kind == 'assert' and not x.loops:
                r.append(or_(*[not_(self.st(f)) for f in x.guard], self.st(x.val)))
        return r

    def read_locked(self, e, s, lp, b):
        """Everything the returned value was read from was read while the lock was held."""
        spans, start = [], None
        for x in s.effects:
            if x.kind in ('lock', 'unlock') and isinstance(x.obj, Term) and unify(pat(lp), strip(x.obj), dict(b)) is not None:
                if x.kind == 'lock':
                    start = x.seq
                elif start is not None:
                    spans.append((start, x.seq))
                    start = None
        if start is not None:
            spans.append((start, float('inf')))
        if not spans or not isinstance(e.val, Term):
            return False
        local = target(e.val).op == 'obj'
        stamps = [x.a[1] for x in subterms(e.val) if x.op == 'v' and isinstance(x.a[1], int)]
        return (local or bool(stamps)) and all(any(a < t < z for a, z in spans) for t in stamps)

    def verify(self, g, s, names):
        for e, b in g:
            ok, msg = self.loops_ok(e, b)
            if not ok:
                return False, msg
            if self.locks is not None:
                for lp in self.locks:
                    if not any(unify(pat(lp), strip(l), b) is not None for l in e.locks) and not (e.kind == 'return' and self.read_locked(e, s, lp, b)):
                        return False, '%s: lock %s not held (held: %s)' % (brief(e), lp, [str(l) for l in e.locks])
                st = e.stale() if not self.stale_ok else None
                if st:
                    return False, '%s: decided from %s as read before the critical section' % (
                        brief(e), ', '.join(map(str, st)))
            if self.nolocks and e.locks:
                return False, '%s: executed while holding %s' % (brief(e), [str(l) for l in e.locks])
            for fct in self.facts or []:
                if not self.has_fact(e, fct, b, names):
                    return False, '%s: not preceded by a check of %s' % (brief(e), fct)
        gs = []
        for e, b in g:
            c = and_(*[self.st(f) for f in e.guard])
            l0 = g[0][0].loops
            if self.each is not None and e.loops and len(e.loops) == len(l0):
                # the same range visited by another loop
                m = {l.idx: k.idx for l, k in zip(e.loops, l0) if l is not k}
                if m:
                    c = canon(rewrite(c, lambda x: m.get(x)))
            gs.append(c)
        if self.guard is not None or self.implies is not None or self.needs is not None:
            tot = or_(*gs)
            b = g[0][1]
            for kind, gp in (('eq', self.guard), ('imp', self.implies), ('need', self.needs)):
                if gp is None:
                    continue
                try:
                    want = build(pat(gp), b, names)
                except KeyError as k:
                    return False, '%s: condition %s is not established (%s does not occur)' % (brief(g[0][0]), gp, k)
                cand = set()
                atoms(tot, cand)
                for e, _ in g:
                    for f in e.facts:
                        atoms(self.st(f), cand)
                want, b = resolve(want, b, sorted(cand, key=lambda x: x.id))
                ws = set(cand)
                atoms(want, ws)
                ax = enum_axioms(ws)
                for e, _ in g:
                    for l in e.loops:
                        if l.full() and l.lo is not None and strip(l.lo) is I(0):
                            ax += [not_(eq(x, I(0))) for x in [self.st(l.hi)] + ([size(self.st(l.C))] if l.C is not None else []) if x.op == 'size']
                if kind in ('eq', 'imp') and not entails([tot] + ax, want) and not entails(
                        [or_(*[and_(*[self.st(f) for f in e.facts]) for e, _ in g])] + ax, want):
                    return False, '%s: happens when %s, expected only when %s' % (brief(g[0][0]), tot, gp)
                if kind in ('eq', 'need') and not entails([want] + ax, tot) and not entails([want] + ax + self.passed_checks(g, s), tot):
                    return False, '%s: does not happen whenever %s (only when %s)' % (brief(g[0][0]), gp, tot)
        if len(g) > 1 and self.guard is not None:
            for i in range(len(gs)):
                for j in range(i):
                    if not entails([gs[i]], not_(gs[j])):
                        return False, 'happens twice: %s and %s' % (brief(g[i][0]), brief(g[j][0]))
        return True, str(self)

    def has_fact(self, e, fct, b, names):
        try:
            want = build(pat(fct), b, names)
        except KeyError:
            return False
        fs = [self.st(f) for f in e.facts]
        cand = set()
        for f in fs:
            atoms(f, cand)
        want, b = resolve(want, b, sorted(cand, key=lambda x: x.id))
        for f in fs:
            if entails([f], want):
                return True
        if not entails(fs, FALSE):
            return entails(fs, want)
        return False


class Facts:
    """Conditions that hold whenever the function completes: its unconditional CHECKs."""

    def __init__(self, facts):
        self.facts = list(facts)


def completed(s):
    out = []
    for e in s.effects:
        if e.loops:
            continue
        g = [f for f in e.guard]
        if e.kind == 'assert':
            out.append(or_(*([not_(f) for f in g] + [e.val])) if g else e.val)
        elif e.kind == 'fatal' and g:
            out.append(or_(*[not_(f) for f in g]))
    return Facts(out)


def enforced(s, cond, casts=False, b=None):
    """Every completing run of the function has checked the condition."""
    names = {x.a[0]: x for x in s.params if x.op == 'param'}
    return E('call', casts=casts).has_fact(completed(s), cond, b or {}, names)


def sources(s, t):
    """The values a loop-carried value can be: [(conditions it was chosen under, value)], each not carried itself."""
    loops = {L.id: L for e in s.effects for L in e.loops}
    out, seen = [], set()

    def go(t, conds):
        t = strip(t)
        if t.op in ('phi', 'post'):
            phi = mk('phi', *t.a[:3])
            if phi in seen:
                return
            seen.add(phi)
            L = loops.get(t.a[0])
            c = L.carried.get(phi) if L else None
            if c is None:
                return out.append((conds, t))
            go(c[0], [])
            for v in c[1]:
                go(v, [])
        elif t.op == 'ite':
            go(t.a[1], conds + [t.a[0]])
            go(t.a[2], conds + [not_(t.a[0])])
        else:
            out.append((conds, t))
    go(t, [])
    return out


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def main(pid, fn, technique, rule_text, level='other', tus=()):
    """Run a check and report."""
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
    os.makedirs(EVID, exist_ok=True)
    ctx = Ctx(pid)
    ctx.tier = tier
    err = None
    try:
        if tus:
            frontend.extract(list(tus), ctx.log)   # parse in parallel
        fn(ctx)
        if not ctx.obs:
            raise AnalysisError('no obligation generated')
    except (AnalysisError, frontend.FrontendError) as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    wall = round(time.time() - ctx.t0, 2)
    held = sum(1 for o in ctx.obs if o[2])
    rules = {}
    for r, w, ok in ctx.obs:
        x = rules.setdefault(r, [0, 0])
        x[0] += 1
        x[1] += ok
    if err and not ctx.bad:
        print('ERROR property=%s the analysis gave no answer: %s' % (pid, err))
        sys.exit(2)
    replay = os.path.join(EVID, '%s.violations.txt' % pid)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'kind': 'other',
            'explanation': '%s. Rule: %s' % (technique, rule_text),
            'obligations': len(ctx.obs), 'discharged': held,
            'rules': {r: {'checked': a, 'held': b} for r, (a, b) in sorted(rules.items())},
            'functions_analysed': len(ctx.functions), 'effects_analysed': ctx.sites,
            'translation_units': sorted(set(t for p in ctx.progs.values() for t in p.tus)),
            'constructs': sorted(set(w for _, w, _ in ctx.obs))[:400],
        },
        'wall_s': wall,
        'assumptions': ctx.notes or ['clang 18 type-checks the tree the way the build compiler does'],
        'violations': len(ctx.bad),
    }
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('property=%s tier=%s translation_units=%d functions=%d effects=%d obligations=%d discharged=%d wall=%.1fs' % (
        pid, tier, len(ev['coverage']['translation_units']), len(ctx.functions), ctx.sites, len(ctx.obs), held, wall))
    for r, (a, b) in sorted(rules.items()):
        print('  rule %-58s %d/%d' % (r, b, a))
    for k, rule, where, msg in ctx.known_hit:
        print('KNOWN-FINDING: property=%s %s [%s at %s]' % (pid, k['what'], rule, where))
    if ctx.bad and err:
        print('  note: the analysis stopped early: %s' % err)
    if ctx.bad:
        with open(replay, 'w') as f:
            for r, w, m in ctx.bad:
                f.write('%s\n  at %s\n  %s\n\n' % (r, w, m))
            if err:
                f.write('analysis error: %s\n' % err)
        for r, w, m in ctx.bad[:20]:
            print('  violated: %s at %s: %s' % (r, w, m[:700]))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        sys.exit(1)
    if os.path.exists(replay):
        os.remove(replay)
    sys.exit(0)
