"""Lockset analysis: which guarded members are touched, and which locks are taken, with which locks held.

Works on the type-checked program.  For every function the walk yields
  needs:    guarded accesses made without the lock (they are the caller's to cover),
  takes:    locks acquired, with the locks held at that point (for lock order and self-deadlock),
each with the call path that leads there.  Lambdas handed to algorithms, to absl::Condition or called in place run where they
stand; lambdas stored or handed to other functions run later, without any lock."""
from ir import short

SCOPED = ('absl::MutexLock', 'absl::ReleasableMutexLock', 'absl::ReaderMutexLock', 'absl::WriterMutexLock', 'std::lock_guard', 'std::unique_lock', 'std::scoped_lock')

LOOPS = ('while', 'for', 'do', 'rfor', 'switch')


class Access:
    def __init__(self, lock, field, path, line, mode='read'):
        self.lock, self.field, self.path, self.line, self.mode = lock, field, path, line, mode

    def __repr__(self):
        return '%s [%s] (%s) at %s' % (self.field, self.mode, self.lock[-2], ' -> '.join('%s:%s' % x for x in self.path))


def strip_casts(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'tmp', 'clean', 'bindtmp') and 'e' in e:
        e = e['e']
    return e


def base_kind(e):
    """'this' for a member of the object itself, otherwise 'other'."""
    e = strip_casts(e)
    if not isinstance(e, dict):
        return 'other'
    return 'this' if e.get('k') == 'this' else 'other'


class Analysis:
    def __init__(self, prog, guards, is_lock, views=None):
        """guards: {(class, field): mutex field}; is_lock(class, field): is this member a mutex; views: {class: [(class, mutex)]}
        of objects which may only exist while the lock is held."""
        self.p, self.guards, self.is_lock, self.views = prog, guards, is_lock, views or {}
        self.memo = {}
        self.calls = {}

    # -- locks and members --------------------------------------------------------------------------------------------------
    def mutex_of(self, e):
        e = strip_casts(e)
        while isinstance(e, dict) and e.get('k') == 'un' and e.get('op') in ('&', '*'):
            e = strip_casts(e['e'])
        if isinstance(e, dict) and e.get('k') == 'mem' and self.is_lock(short(e.get('cls', '')), e['n']):
            return (short(e['cls']), e['n'], base_kind(e.get('b')))
        return None

    def locked_by(self, init):
        init = strip_casts(init)
        if isinstance(init, dict) and init.get('k') == 'ctor' and short(init.get('cls', '')).split('<')[0] in SCOPED:
            for a in init['args']:
                m = self.mutex_of(a)
                if m:
                    return m
        if isinstance(init, dict) and init.get('k') == 'list':
            for a in init.get('args', init.get('es', [])):
                m = self.mutex_of(a)
                if m:
                    return m
        return None

    # -- functions ----------------------------------------------------------------------------------------------------------
    def of(self, f):
        k = id(f)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = ([], [])
            w = Walk(self, f)
            w.stmt(f.get('body'), [])
            for i in f.get('inits', []) or []:
                w.expr(i.get('e') if isinstance(i, dict) and 'e' in i else i, [])
            r = self.memo[k] = (w.needs, w.takes)
        return r

    def targets(self, e):
        """Functions with a body a call may run: the callee, and its overriders if it is virtual."""
        f = e.get('f')
        k = (f, e.get('n'))
        r = self.calls.get(k)
        if r is None:
            r, todo, seen = [], [f], set()
            while todo:
                i = todo.pop()
                if i in seen:
                    continue
                seen.add(i)
                g = self.p.funcs.get(i)
                if g is not None and g.get('body'):
                    r.append(g)
                todo += [x['id'] for x in self.p.overriders.get(i, ())]
            self.calls[k] = r
        return r

    def bases(self, cls):
        out, todo = set(), [short(cls)]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.add(c)
            for r in self.p.rec_by_qn.get(c, []):
                todo += [short(b) for b in r.get('bases', [])]
        return out

    def solve(self, funcs):
        """Recursion: iterate until nothing changes."""
        n = -1
        for _ in range(6):
            old = {k: (len(a), len(b)) for k, (a, b) in self.memo.items()}
            keep = self.memo
            self.memo = {}
            for f in funcs:
                self.of(f)
            if {k: (len(a), len(b)) for k, (a, b) in self.memo.items()} == old:
                break
        return self


class Walk:
    def __init__(self, an, f):
        self.an, self.f, self.needs, self.takes = an, f, [], []
        self.name = f['sqn']
        self.lambdas = {}        # local variable -> lambda
        self.guarded_by_var = {}
        self.stack = set()

    def here(self, line):
        return ((self.name, line),)

    # statements; held is a list (set semantics) of locks, mutated in place along straight-line code
    def stmt(self, s, held):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.stmt(x, held)
            return
        k = s.get('k')
        if k == 'block':
            inner = list(held)
            scoped = []
            for x in s['s']:
                if isinstance(x, dict) and x.get('k') == 'decl':
                    for v in x.get('vars', []):
                        m = self.an.locked_by(v.get('init'))
                        if m:
                            self.take(m, inner, x.get('l'))
                            inner.append(m)
                            scoped.append(m)
                            self.guarded_by_var[v.get('d')] = m
                        else:
                            self.var(v, inner)
                else:
                    self.stmt(x, inner)
            for m in scoped:
                if m in inner:
                    inner.remove(m)
            # explicit Lock()/Unlock() of the block last beyond it
            held[:] = [m for m in inner]
            return
        if k == 'decl':
            for v in s.get('vars', []):
                m = self.an.locked_by(v.get('init'))
                if m:
                    self.take(m, held, s.get('l'))
                    held.append(m)
                else:
                    self.var(v, held)
            return
        if k == 'if':
            self.stmt(s.get('i'), held)
            if s.get('var'):
                self.var(s['var'], held)
            self.expr(s.get('c'), held)
            outs = []
            for x in (s.get('t'), s.get('e')):
                h = list(held)
                self.stmt(x, h)
                if not ends(x):
                    outs.append(h)
            if outs:
                held[:] = [m for m in outs[0] if all(m in o for o in outs[1:])]
            return
        if k in LOOPS:
            self.stmt(s.get('i'), held)
            if k == 'rfor':
                self.expr(s.get('r'), held)
            elif s.get('var'):
                self.var(s['var'], held)
            self.expr(s.get('c'), held)
            self.stmt(s.get('b'), list(held))
            self.expr(s.get('inc'), held)
            return
        self.expr(s, held)

    def var(self, v, held):
        i = strip_casts(v.get('init'))
        lam = find_lambda(i)
        if lam is not None:
            self.lambdas[v.get('d')] = lam
            for c in lam.get('caps', []):
                if isinstance(c, dict) and isinstance(c.get('init'), dict):
                    self.expr(c['init'], held)
            return
        self.expr(v.get('init'), held)

    def take(self, m, held, line):
        self.takes.append((m, tuple(held), self.here(line)))

    # expressions
    def expr(self, e, held):
        if isinstance(e, list):
            for x in e:
                self.expr(x, held)
            return
        if not isinstance(e, dict):
            return
        k = e.get('k')
        if k in ('block', 'if', 'decl') + LOOPS:
            return self.stmt(e, held)
        if k == 'lambda':
            return self.later(e)
        if k == 'mem':
            return self.member(e, held, 'read', '')
        if k == 'call':
            return self.call(e, held)
        if k == 'ctor':
            cls = short(e.get('cls', ''))
            if cls.split('<')[0] == 'absl::Condition':
                for a in e['args']:
                    self.run(a, held)
                return
            for a in e['args']:
                self.arg(a, held, False)
            self.enter(e, held)
            return
        if k == 'bin' and e.get('op', '').endswith('=') and e['op'] not in ('==', '!=', '<=', '>='):
            self.use(e.get('a'), held, 'write')
            return self.expr(e.get('b'), held)
        if k == 'un' and e.get('op') in ('++', '--', 'post++', 'post--'):
            return self.use(e.get('e'), held, 'write')
        for q, x in e.items():
            if q in ('k', 'l', 't', 'n', 'req', 'excl'):
                continue
            if isinstance(x, (dict, list)):
                self.expr(x, held)

    def member(self, e, held, mode, sub):
        """A member access, with the part of it that is used: guarded.a.b is 'guarded' with the part '.a.b'."""
        g = self.an.guards.get((short(e.get('cls', '')), e['n']))
        if g is not None:
            lock = (short(e['cls']), g, base_kind(e.get('b')))
            if not self.covered(lock, held):
                self.needs.append(Access(lock, e['n'] + sub, self.here(e.get('l')), e.get('l'), mode))
        b = strip_casts(e.get('b'))
        if isinstance(b, dict) and b.get('k') == 'mem':
            return self.member(b, held, mode, '.' + e['n'] + sub)
        self.use(e.get('b'), held, mode)

    def use(self, e, held, mode):
        """An expression used as mode: 'read', 'write', or 'call NAME' for the object of a method that may change it."""
        x = strip_casts(e)
        while isinstance(x, dict) and (x.get('k') == 'un' and x.get('op') in ('*', '&') or x.get('k') == 'call' and x.get('n') in ('operator->', 'operator*', 'get') and x.get('o') is not None and not x.get('args')):
            x = strip_casts(x['e'] if x['k'] == 'un' else x['o'])
        if isinstance(x, dict) and x.get('k') == 'mem':
            return self.member(x, held, mode, '')
        if isinstance(x, dict) and x.get('k') in ('idx',) and 'b' in x:
            self.use(x['b'], held, mode)
            return self.expr(x.get('i'), held)
        self.expr(e, held)

    def covered(self, lock, held):
        return lock in held or (lock[2] == 'other' and any(h[:2] == lock[:2] and h[2] == 'other' for h in held))

    def is_lambda(self, a):
        x = strip_casts(a)
        return isinstance(x, dict) and (x.get('d') in self.lambdas or x.get('k') == 'un' and strip_casts(x.get('e') or {}).get('d') in self.lambdas)

    def arg(self, a, held, inplace):
        lam = find_lambda(a)
        x = strip_casts(a)
        if lam is None and isinstance(x, dict) and x.get('k') == 'ref' and x.get('d') in self.lambdas:
            lam = self.lambdas[x['d']]
        if lam is None and isinstance(x, dict) and x.get('k') == 'un' and strip_casts(x.get('e') or {}).get('d') in self.lambdas:
            lam = self.lambdas[strip_casts(x['e'])['d']]
        if lam is not None:
            if inplace:
                self.body(lam, held)
            else:
                self.later(lam)
            return
        self.expr(a, held)

    def run(self, a, held):
        self.arg(a, held, True)

    def body(self, lam, held):
        if id(lam) in self.stack:
            return
        self.stack.add(id(lam))
        for c in lam.get('caps', []):
            if isinstance(c, dict) and isinstance(c.get('init'), dict):
                self.expr(c['init'], held)
        self.stmt(lam.get('body'), list(held))
        self.stack.discard(id(lam))

    def later(self, lam):
        """A stored lambda runs with no lock: what it needs cannot be covered by a caller."""
        w = Walk(self.an, self.f)
        w.name, w.lambdas = self.name + '::closure', dict(self.lambdas)
        w.stmt(lam.get('body'), [])
        for a in w.needs:
            self.needs.append(Access(('closure',) + a.lock, a.field, a.path, a.line, a.mode) if a.lock[0] != 'closure' else a)
        # what a closure takes is not taken where it is made
        self.takes += [(m, h, p) for m, h, p in w.takes if h] + [(('closure',) + tuple(m[-3:]), (), p) for m, h, p in w.takes if not h]

    def call(self, e, held):
        n = e.get('n')
        o = e.get('o')
        qn = short(e.get('qn', '') or '')
        if o is not None:
            m = self.an.mutex_of(o)
            if m:
                if n in ('Lock', 'lock', 'ReaderLock', 'WriterLock'):
                    self.take(m, held, e.get('l'))
                    held.append(m)
                elif n in ('Unlock', 'unlock', 'ReaderUnlock', 'WriterUnlock'):
                    if m in held:
                        held.remove(m)
                elif n in ('LockWhen', 'ReaderLockWhen', 'WriterLockWhen', 'LockWhenWithTimeout'):
                    self.take(m, held, e.get('l'))
                    held.append(m)
                    for a in e['args']:
                        self.expr(a, held)
                    return
                elif n.startswith('Await') and m not in held:
                    self.needs.append(Access(m, n, self.here(e.get('l')), e.get('l'), 'await'))
                for a in e.get('args', []):
                    self.expr(a, held)
                return
            x = strip_casts(o)
            if isinstance(x, dict) and x.get('k') == 'ref':
                if n == 'Release' and x.get('d') in self.guarded_by_var:
                    m = self.guarded_by_var[x['d']]
                    if m in held:
                        held.remove(m)
                    return
                if n == 'operator()' and x.get('d') in self.lambdas:
                    for a in e.get('args', []):
                        self.expr(a, held)
                    return self.body(self.lambdas[x['d']], held)
            lam = find_lambda(o)
            if lam is not None and n == 'operator()':
                for a in e.get('args', []):
                    self.expr(a, held)
                return self.body(lam, held)
            self.use(o, held, 'read' if e.get('const') else 'call ' + str(n))
        if n == 'operator()' and qn.startswith('std::function'):
            x = strip_casts(o)
            self.takes.append((('callback', x.get('n', '') if isinstance(x, dict) else '', 'fn'), tuple(held), self.here(e.get('l'))))
        inplace = qn.startswith('std::') and not qn.startswith(('std::function', 'std::thread', 'std::make_', 'std::move', 'std::forward')) and n not in ('push_back', 'emplace_back', 'push', 'emplace', 'insert', 'operator=', 'reset', 'assign')
        pm = e.get('pm') or ''
        for i, a in enumerate(e.get('args', [])):
            if a is o:
                continue
            if find_lambda(a) is None and i < len(pm) and pm[i] in 'wm' and not self.is_lambda(a):
                self.use(a, held, 'write')
            else:
                self.arg(a, held, inplace)
        self.enter(e, held)

    def enter(self, e, held):
        """The call's target: its needs are covered by the locks held here, or become ours."""
        an = self.an
        if e.get('k') == 'ctor':
            for (cls, lock) in an.views.get(short(e.get('cls', '')), ()):
                own = 'this' if any(base_kind(a) == 'this' for a in e['args']) else 'other'
                if not self.covered((cls, lock, own), held):
                    self.needs.append(Access((cls, lock, own), short(e['cls']).split('::')[-1], self.here(e.get('l')), e.get('l')))
        for g in an.targets(e):
            if g is self.f or short(g.get('cls', '')) in an.views:
                continue
            needs, takes = an.of(g)
            o = e.get('o')
            own = o is None or base_kind(o) == 'this'
            for a in needs:
                lock = a.lock
                if lock[0] == 'closure':
                    continue
                if not own and lock[2] == 'this':
                    lock = (lock[0], lock[1], 'other')
                if own and lock[2] == 'this' and g.get('cls') != self.f.get('cls') and short(g.get('cls', '')) not in an.bases(self.f.get('cls', '')):
                    lock = (lock[0], lock[1], 'other')
                if not self.covered(lock, held) and len(a.path) < 12:
                    self.needs.append(Access(lock, a.field, self.here(e.get('l')) + a.path, a.line, a.mode))
            for m, h, path in takes:
                if m[0] == 'closure' or len(path) >= 12:
                    continue
                m2 = m if own else (m[0], m[1], 'other')
                h2 = tuple(x if own else (x[0], x[1], 'other') for x in h)
                t = (m2, tuple(dict.fromkeys(tuple(held) + h2)), self.here(e.get('l')) + path)
                if not any(x[0] == t[0] and x[1] == t[1] and x[2][0] == t[2][0] for x in self.takes):
                    self.takes.append(t)


def find_lambda(e, depth=0):
    """The lambda an argument is, possibly converted to std::function or forwarded."""
    e = strip_casts(e)
    if not isinstance(e, dict) or depth > 6:
        return None
    k = e.get('k')
    if k == 'lambda':
        return e
    if k == 'ctor' and len(e.get('args', [])) == 1:
        return find_lambda(e['args'][0], depth + 1)
    if k == 'call' and e.get('n') in ('move', 'forward') and len(e.get('args', [])) == 1:
        return find_lambda(e['args'][0], depth + 1)
    if k == 'un' and e.get('op') == '&':
        return find_lambda(e.get('e'), depth + 1)
    return None


def ends(s):
    """Control does not go on after the statement."""
    if not isinstance(s, dict):
        return False
    k = s.get('k')
    if k in ('return', 'break', 'continue', 'throw'):
        return True
    if k == 'block':
        return any(ends(x) for x in s['s'])
    if k == 'if':
        return ends(s.get('t')) and ends(s.get('e'))
    return False
