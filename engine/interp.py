"""Effect analysis: turns a function (with its helpers inlined) into a list of
guarded effects over provenance terms.

This is a forward dataflow analysis over the structured AST: values are
numbered symbolically, branches are joined with gated (ite) values, loops are
summarised once with havocked loop-carried state.  Nothing is executed and no
path enumeration or constraint solving takes place.
"""
import re

from canon import canon, canonc
from ir import AnalysisError, short, strip_targs
from terms import *  # noqa: F401,F403
from terms import INTS as INT_TERMS, UNSIGNED  # noqa: E402
from terms import F, I, TRUE, FALSE, NULL, VOID, mk, and_, or_, not_, eq, lt, le, ite, at, size, has, begin, end, \
    struct, const, arith, subterms, strip, stripv, show, entails, root, Term

MAXDEPTH = 14

SMART = ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr', 'std::__weak_ptr',
         'std::__shared_ptr_access', 'absl::optional', 'std::optional', 'std::reference_wrapper')
IDENT_CTORS = SMART + ('std::basic_string', 'std::function', 'absl::string_view', 'std::basic_string_view',
                       'absl::AnyInvocable', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
                       '__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator',
                       'std::_List_const_iterator', 'std::chrono::time_point', 'std::chrono::duration',
                       'std::allocator', 'google::CheckOpString', 'absl::Span', 'std::initializer_list')
LOCKS = ('absl::MutexLock', 'absl::ReaderMutexLock', 'absl::WriterMutexLock', 'absl::ReleasableMutexLock',
         'absl::MutexLockMaybe', 'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
NOCOPY = SMART + ('std::function', 'std::_', '__gnu_cxx::', 'absl::Span', 'absl::string_view',
                  'std::basic_string_view', 'std::chrono', 'google::protobuf::internal::Repeated')


def canon_ext(qn):
    """External qualified name without inline namespaces / template args."""
    s = strip_targs(qn)
    s = re.sub(r'\b(debian\d+|lts_\d+|__cxx11|_V2|__detail|__1)::', '', s)
    return s


def is_lockcls(s):
    return canon_ext(s) in LOCKS


class Effect:
    __slots__ = ('kind', 'name', 'obj', 'args', 'val', 'pc', 'loops', 'locks', 'file', 'line', 'chain', 'seq',
                 'clos', 'ret', 'region', 'x', 'secs')

    def stale(self):
        """Guarded locations whose value was read before the critical section the effect runs in."""
        bad = set()
        # values: an unversioned location was read on entry; objects: an unversioned location is the current one
        todo = [(f, 0) for f, t in self.pc if t == 'if'] + [(x, 0) for x in (self.val,) if isinstance(x, Term)]
        todo += [(x, None) for x in list(self.args) + [self.obj] if isinstance(x, Term)]
        for l in self.loops:
            todo += [(x, None) for x in (l.C, l.hi) if isinstance(x, Term)]
        for m, r in self.region:
            if r not in self.secs:
                continue
            n, paths = self.secs[r]

            def walk(t, ver, seen):
                if (t, ver) in seen or not isinstance(t, Term):
                    return
                seen.add((t, ver))
                if t.op == 'v':
                    walk(t.a[0], max(ver or 0, t.a[1]), seen)
                    return
                if t.op == 'copy':
                    ver = max(ver or 0, t.a[1])   # a snapshot taken then
                if t in paths and ver is not None and ver < n:
                    bad.add(t)
                for k in kids(t):
                    walk(k, ver, seen)
            seen = set()
            for t, ver in todo:
                walk(t, ver, seen)
        return bad

    @property
    def guard(self):
        """Branch conditions (without CHECKed facts)."""
        return [f for f, t in self.pc if t == 'if']

    @property
    def facts(self):
        return [f for f, t in self.pc]

    def where(self):
        return '%s:%d' % (self.file, self.line)

    def __repr__(self):
        d = ''
        if self.kind == 'write':
            d = '%s := %s' % (self.obj, self.val)
        elif self.kind == 'append':
            d = '%s += %s' % (self.obj, self.val)
        elif self.kind in ('call', 'invoke', 'new', 'mutate'):
            d = '%s%s(%s)' % ('%s.' % self.obj if self.obj is not None and self.obj is not VOID else '', self.name,
                              ', '.join(map(str, self.args)))
        elif self.kind in ('return', 'assert', 'await', 'read'):
            d = str(self.val)
        elif self.kind in ('lock', 'unlock', 'delete'):
            d = str(self.obj)
        return '%s %s | if %s%s | loops %s | locks %s @%s:%d' % (
            self.kind, d, [str(x) for x in self.guard],
            ' chk %s' % [str(f) for f, t in self.pc if t != 'if'] if any(t != 'if' for f, t in self.pc) else '',
            [l.desc() for l in self.loops], [str(l) for l in self.locks], self.file.split('/')[-1], self.line)


class Loop:
    n = 0

    def __init__(self, kind, line, file):
        Loop.n += 1
        self.id = Loop.n
        self.kind = kind
        self.line = line
        self.file = file
        self.C = None
        self.lo = self.hi = None
        self.step = None
        self.cond = None
        self.again = None    # condition of a do loop, at the end of an iteration
        self.exits = []      # (kind, [pc delta], line)
        self.continues = []
        self.updates = {}    # var name -> [(pc, value)]
        self.erasing = False
        self.down = False
        self.carried = {}    # phi -> (value before the loop, [values after an iteration])

    @property
    def idx(self):
        return mk('idx', self.id)

    def full(self):
        """Visits every element of its range exactly once (no early exit)."""
        return self.lo is not None and not self.exits

    def covers(self, C):
        return self.full() and strip(self.lo) is I(0) and self.step == 1 and strip(self.hi) is size(strip(C))

    def desc(self):
        if self.C is not None:
            return 'L%d in %s' % (self.id, self.C)
        if self.lo is not None:
            return 'L%d %s..%s' % (self.id, self.lo, self.hi)
        return 'L%d while %s' % (self.id, self.cond)


class State:
    __slots__ = ('env', 'store', 'mut', 'pc', 'locks', 'alive', 'regions', 'epoch')

    def __init__(self):
        self.env, self.store, self.mut, self.pc, self.locks, self.alive = {}, {}, {}, (), (), True
        self.regions = ()
        self.epoch = 0

    def copy(self):
        s = State()
        s.env, s.store, s.mut = dict(self.env), dict(self.store), dict(self.mut)
        s.pc, s.locks, s.alive, s.regions, s.epoch = self.pc, self.locks, self.alive, self.regions, self.epoch
        return s


class Frame:
    def __init__(self, fn, fid, this, T, file, chain, cls=None):
        self.fn, self.fid, self.this, self.T, self.file, self.chain = fn, fid, this, T, file, chain
        self.exits = []       # (State, value)
        self.loops = []       # loop control stack (dicts)
        self.cls = cls
        self.mutvars = None
        self.entry_locks = ()
        self.manual = set()


class Summary:
    def __init__(self, fn, effects, ret, exits, interp, params):
        self.fn, self.effects, self.ret, self.exits, self.interp, self.params = fn, effects, ret, exits, interp, params

    def of(self, *kinds):
        return [e for e in self.effects if e.kind in kinds]

    def calls(self, pat):
        r = re.compile(pat)
        return [e for e in self.effects if e.kind == 'call' and r.search(e.name)]

    def writes(self, field=None, base=None):
        out = []
        for e in self.effects:
            if e.kind == 'write' and e.obj.op == 'f':
                if field is not None and e.obj.a[1] != field:
                    continue
                if base is not None and strip(e.obj.a[0]) is not strip(base):
                    continue
                out.append(e)
        return out


class Interp:
    def __init__(self, prog, opaque=(), inline=(), reads=None, devirt=True, budget=400000, assume=None,
                 default_opaque=True, keep_init=True):
        self.p = prog
        self.opaque = [re.compile(x) for x in opaque]
        self.noopaque = [re.compile(x) for x in inline]
        self.reads = reads            # callback(field path term, record, state, line, frame)
        self.seq = 0
        self.fid = 0
        self.out = []
        self.dry = 0
        self.lams = {}
        self.loops = {}
        self.loopstack = ()
        self.touch = []               # stack of sets: ('e', key) / ('p', path)
        self.depth = 0
        self.stack = []
        self.budget = budget
        self.steps = 0
        self.inlined = set()
        self.analysed = set()
        self.default_opaque = default_opaque
        self.regionc = 0
        self.sections = {}    # critical section -> (sequence number, guarded locations)
        self.clos_memo = {}
        self.valobjs = set()  # local objects with value semantics
        self.devirt = devirt
        self.ctypes = {}

    # ------------------------------------------------------------ utilities
    def nseq(self):
        self.seq += 1
        return self.seq

    DEFAULT_OPAQUE = [re.compile(x) for x in (
        r'^transform::Rigid[23]::', r'^transform::operator', r'^common::(ToSeconds|FromSeconds|FromMilliseconds|ToUniversal|FromUniversal)$',
        r'^mapping::MapById::', r'^sensor::MapByTime::', r'^mapping::Range::', r'^metrics::',
        r'^common::(Power|Pow2|RoundToInt|RoundToInt64|DegToRad|RadToDeg|NormalizeAngleDifference|atan2|Clamp)$',
        r'^transform::(GetYaw|GetAngle|RotationQuaternionToAngleAxisVector|AngleAxisVectorToRotationQuaternion|Project2D|Embed3D)$',
    )]

    def is_opaque(self, fn, sqn):
        for r in self.noopaque:
            if r.search(sqn):
                return False
        for r in self.opaque:
            if r.search(sqn):
                return True
        if self.default_opaque:
            for r in self.DEFAULT_OPAQUE:
                if r.search(sqn):
                    return True
        return False

    def emit(self, st, fr, kind, line, name=None, obj=None, args=(), val=None, clos=None, ret=None, x=None):
        e = Effect()
        if kind in ('write', 'append', 'call', 'invoke', 'return', 'assert', 'new'):
            if val is not None:
                val = self.value(st, val)
            pm = x.get('pm', '') if kind == 'call' and isinstance(x, dict) else ''
            # an object handed over to be written keeps its identity
            args = [a if not isinstance(a, Term) or a.op == 'obj' and pm[i:i + 1] == 'w' else self.value(st, a)
                    for i, a in enumerate(args)]
        e.kind, e.name, e.obj, e.args, e.val = kind, name, obj, tuple(args), val
        e.pc, e.loops, e.locks = st.pc, self.loopstack, st.locks
        e.file, e.line, e.chain = fr.file, line, fr.chain
        if kind == 'append' and any(l.down for l in self.loopstack):
            # elements are appended in the opposite order
            m = {l.idx: arith('-', arith('+', l.lo, l.hi, True), arith('+', I(1), l.idx, True), True)
                 for l in self.loopstack if l.down}
            q = lambda t: rewrite(t, lambda x: m.get(x) if x.op == 'idx' else None)
            e.val = q(e.val)
            e.pc = type(e.pc)((q(f), t) for f, t in e.pc)
        e.seq = self.nseq()
        e.clos = clos
        e.ret = ret
        e.region = st.regions
        e.secs = self.sections
        e.x = x
        if not self.dry:
            self.out.append(e)
        return e

    # ------------------------------------------------------------ store
    def touched(self, k):
        for s in self.touch:
            s.add(k)

    def overlaps(self, p, q):
        """p is q, or one is a prefix of the other."""
        return p is q or self.isprefix(p, q) or self.isprefix(q, p)

    PATHS = {}

    def path(self, t):
        r = self.PATHS.get(t)
        if r is None:
            steps, q = [], t
            while q.op in ('f', 'at', 'v', 'find', 'last', 'traj'):
                if q.op == 'f':
                    steps.append(q.a[1])
                elif q.op != 'v':
                    k = q.a[1] if q.op == 'at' and len(q.a) == 2 else None
                    steps.append(('i', k.a[0]) if k is not None and k.op == 'i' else ('any',))
                q = q.a[0]
            steps.reverse()
            r = self.PATHS[t] = (q, steps)
        return r

    def may_overlap(self, p, q):
        """p and q may be the same location, or one part of the other: different index terms may be equal."""
        if self.overlaps(p, q):
            return True
        (a, x), (b, y) = self.path(p), self.path(q)
        if a is not b or not x or not y:
            return False
        for m, n in zip(x, y):
            if m == n:
                continue
            if isinstance(m, str) or isinstance(n, str) or m[0] == n[0] == 'i':
                return False
        return True

    def isprefix(self, p, q):
        while q.op in ('f', 'at', 'v', 'find', 'last', 'traj'):
            q = q.a[0]
            if p is q:
                return True
        return False

    def mutate(self, st, path, keep=None):
        """path (object) may have changed arbitrarily."""
        path = stripv(path)
        self.touched(('p', path))
        for k in list(st.store):
            if k is path or self.isprefix(path, k) or self.isprefix(k, path):
                del st.store[k]
        st.mut[path] = self.nseq()

    def write(self, st, path, val):
        path = stripv(path)
        self.touched(('p', path))
        if path.op == 'loc':
            self.setenv(st, path.a[:2], val)
            return
        for k in list(st.store):
            if k is path:
                continue
            if self.isprefix(path, k):
                del st.store[k]
            elif self.isprefix(k, path):
                v = st.store[k]
                if path.op == 'f' and path.a[0] is k and v.op == 'struct' and any(n == path.a[1] for n, _ in v.a[1]):
                    st.store[k] = struct(v.a[0], [(n, val if n == path.a[1] else x) for n, x in v.a[1]])
                else:
                    del st.store[k]
        st.mut[path] = self.nseq()
        st.store[path] = val

    def setenv(self, st, key, val):
        self.touched(('e', key))
        st.env[key] = val

    def version(self, st, path):
        best = st.epoch if self.epochal(path) else 0
        if st.mut:
            for q, n in st.mut.items():
                if n > best and self.may_overlap(q, path):
                    best = n
        return best

    def epochal(self, path):
        return False

    def read(self, st, path):
        """Value stored at a path."""
        p = stripv(path)
        if p.op == 'loc':
            return st.env.get(p.a[:2], p)
        v = st.store.get(p)
        if v is not None:
            while v.op == 'ite':
                if any(f is v.a[0] for f, _ in st.pc):
                    v = v.a[1]
                elif any(f is not_(v.a[0]) for f, _ in st.pc):
                    v = v.a[2]
                else:
                    break
            return v
        if p.op == 'f' and p.a[0].op in ('f', 'at', 'obj'):
            # member of a structured value written as a whole
            b, names = p.a[0], [p.a[1]]
            while b not in st.store and b.op == 'f':
                names.append(b.a[1])
                b = b.a[0]
            v = st.store.get(b)
            while v is not None and v.op == 'struct' and names:
                v = dict(v.a[1]).get(names.pop())
            if v is not None and not names:
                return v
        if p.op == 'f' and p.a[0].op == 'copy':
            # field of a copied object: value of the source at copy time
            src = p.a[0].a[0]
            if not any(self.overlaps(q, p) for q in st.mut):
                return self.read(st, F(src, p.a[1]))
        if p.op in ('f', 'at', 'last'):
            n = self.version(st, p)
            if n:
                return mk('v', p, n)
            return p
        return p

    def value(self, st, v, depth=0):
        """The value a local object of a plain class has now, member by member."""
        o = stripv(v)
        w = v
        while w.op == 'v':
            w = w.a[0]
        if o.op == 'struct' and depth < 4:
            fs = [(n, self.value(st, x, depth + 1)) for n, x in w.a[1]]
            return struct(o.a[0], fs) if any(x is not y for (_, x), (_, y) in zip(fs, w.a[1])) else v
        if o.op == 'mk' and o.a[0] == 'emplaced' and depth < 4:
            fs = [self.value(st, x, depth + 1) for x in w.a[1:]]
            return mk('mk', 'emplaced', *fs) if any(x is not y for x, y in zip(fs, w.a[1:])) else v
        if depth > 4 or o.op not in ('copy', 'obj') or o.op == 'obj' and o not in self.valobjs:
            return v
        t = (o.a[0] if o.op == 'obj' else o.ty or '')
        t = t.replace('const ', '').rstrip('& ') if isinstance(t, str) else ''
        r = self.p.records.get(t)
        if r is None or not r['fields']:
            return v
        if not any(k.op in ('f', 'at') and self.isprefix(o, k) for k in st.store):
            return v
        fs = []
        empty = {}
        for f in r['fields']:
            x = self.read(st, F(o, f['n']))
            if o.op == 'obj' and not r.get('udctor') and re.match(r'(absl::optional|std::unique_ptr|std::shared_ptr)<', r['T'][f['t']]):
                empty[F(o, f['n'])] = NULL
            fs.append((f['n'], self.value(st, x, depth + 1)))
        if empty:
            fs = [(n, rewrite(x, lambda y: empty.get(y))) for n, x in fs]
        return struct(r['sqn'], fs)

    def vers(self, st, t, *paths):
        """Wrap a pure observation of mutable state with its version."""
        n = 0
        for q in paths:
            q = stripv(q)
            if q.op in ('i', 'fl', 'str', 'b', 'enum', 'null', 'idx'):
                continue
            n = max(n, self.version(st, q))
        return mk('v', t, n) if n else t

    def add_pc(self, st, f, tag='if'):
        if f is TRUE:
            return
        if f is FALSE:
            st.alive = False
        if f.op == 'and':
            for x in f.a:
                self.add_pc(st, x, tag)
            return
        for g, t in st.pc:
            if g is f:
                return
        neg = not_(f)
        for g, t in st.pc:
            if g is neg:
                st.alive = False
        # resolve stored disjunctions against the new fact
        new = []
        for g, t in st.pc:
            if g.op == 'or' and neg in g.a:
                r = or_(*[y for y in g.a if y is not neg])
                new.append((r, t))
            else:
                new.append((g, t))
        st.pc = tuple(new) + ((f, tag),)

    # ------------------------------------------------------------ joins
    def delta(self, base, pc):
        b = set(f for f, _ in base)
        return [(f, t) for f, t in pc if f not in b]

    def join(self, c, a, b, base_pc):
        """Join of two alive/dead states reached under c / !c from base_pc."""
        if not a.alive and not b.alive:
            return a
        if not a.alive:
            # the fact becomes a CHECK when the other branch aborted
            return b
        if not b.alive:
            return a
        s = State()
        if a.env is b.env or a.env == b.env:
            s.env = a.env
        else:
            s.env = dict(a.env)
            for k, v in b.env.items():
                if k not in s.env:
                    s.env[k] = v
                elif s.env[k] is not v:
                    s.env[k] = ite(c, s.env[k], v)
        s.mut = dict(a.mut)
        for k, n in b.mut.items():
            if s.mut.get(k, 0) < n:
                s.mut[k] = n
        if a.store == b.store:
            s.store = a.store
        else:
            keys = set(a.store) | set(b.store)
            for k in keys:
                va, vb = a.store.get(k), b.store.get(k)
                if va is None:
                    va = self.read(a, k)
                if vb is None:
                    vb = self.read(b, k)
                s.store[k] = ite(c, va, vb)
        # versions: a joined store without entry must not look like either version
        da = [x for x in self.delta(base_pc, a.pc) if x[0] is not c]
        db = [x for x in self.delta(base_pc, b.pc) if x[0] is not not_(c)]
        # conjuncts of c itself
        cs = set(c.a) if c.op == 'and' else {c}
        ncs = set(not_(c).a) if not_(c).op == 'and' else {not_(c)}
        da = [x for x in da if x[0] not in cs]
        db = [x for x in db if x[0] not in ncs]
        s.pc = tuple(x for x in a.pc if x[0] in set(f for f, _ in b.pc) and x[0] in set(f for f, _ in base_pc))
        common = [x for x in da if x[0] in set(f for f, _ in db)]
        cf = set(x[0] for x in common)
        da = [x for x in da if x[0] not in cf]
        db = [x for x in db if x[0] not in cf]
        s.pc = s.pc + tuple(common)
        if da and len(da) <= 6:
            self.add_pc(s, or_(not_(c), and_(*[f for f, _ in da])),
                        'chk' if all(t == 'chk' for _, t in da) else 'if')
        if db and len(db) <= 6:
            self.add_pc(s, or_(c, and_(*[f for f, _ in db])),
                        'chk' if all(t == 'chk' for _, t in db) else 'if')
        s.alive = True
        s.locks = tuple(l for l in a.locks if l in b.locks)
        s.regions = tuple(l for l in a.regions if l in b.regions)
        s.epoch = max(a.epoch, b.epoch)
        return s

    def join_exits(self, exits, base_pc, value=True):
        """exits: [(state, val)] -> (state, val)"""
        exits = [(s, v) for s, v in exits]
        if not exits:
            d = State()
            d.alive = False
            return d, VOID
        st, val = exits[-1]
        for s, v in reversed(exits[:-1]):
            d = self.delta(base_pc, s.pc)
            c = and_(*[f for f, t in d if t == 'if']) if d else TRUE
            if c is TRUE and not d:
                # cannot distinguish: havoc differing values
                c = mk('nondet', self.nseq())
            if c is TRUE:
                c = mk('nondet', self.nseq())
            ns = self.join(c, s, st, base_pc)
            val = ite(c, v, val) if v is not val else v
            st = ns
        return st, val

    # ------------------------------------------------------------ entry points
    def run(self, fn, args=None, this=None, locks=(), pc=(), store=None, cls=None):
        """Summarise a function as an entry point."""
        self.out = []
        st = State()
        st.locks = tuple(locks)
        st.pc = tuple((f, 'pre') for f in pc)
        if store:
            st.store.update(store)
        self.fid += 1
        T = fn['T']
        th = this if this is not None else (mk('this') if fn.get('cls') and not fn.get('static') else None)
        fr = Frame(fn, self.fid, th, T, fn.get('file') or '?', (fn['sqn'],),
                   cls=cls or (T[fn['clst']] if 'clst' in fn else None))
        params = []
        for i, p in enumerate(fn['params']):
            v = args[i] if args and i < len(args) and args[i] is not None else mk('param', p['n'] or 'arg%d' % i, i)
            if isinstance(v, Term) and v.ty is None:
                v.ty = T[p['t']]
            params.append(v)
            st.env[(fr.fid, p['d'])] = v
        for e in fn.get('req', []):
            l = self.lockpath(self.ev(e, st, fr))
            if l not in st.locks:
                st.locks = st.locks + (l,)
                st.regions = st.regions + ((l, 'entry'),)
        fr.entry_locks = st.locks
        self.analysed.add(fn['sqn'])
        self.stack = [fn['id']]
        if 'clst' in fn and self.this_rec is None:
            self.this_rec = self.p.records.get(T[fn['clst']])
        if fn['kind'] == 'ctor':
            self.ctor_inits(fn, st, fr)
        self.stmt(fn['body'], st, fr)
        if st.alive:
            fr.exits.append((st, VOID))
            self.emit(st, fr, 'return', fn.get('el', fn['l']), val=VOID, x='fall')
        fst, val = self.join_exits(fr.exits, tuple((f, 'pre') for f in pc))
        s = Summary(fn, self.out, val, fr.exits, self, params)
        self.out = []
        s.state = fst
        return s

    def closure(self, lam, args=None, locks=None):
        """Effects of a closure run later on its own (deferred execution)."""
        info = self.lams.get(lam.a[0]) if lam.op == 'lam' else None
        if info is None:
            return None
        node, fr0, st0, loops, pc, this = info
        save = (self.out, self.loopstack, self.stack, self.dry, self.touch)
        self.out, self.loopstack, self.dry, self.touch = [], loops, 0, []
        st = st0.copy()
        st.alive = True
        st.locks = tuple(locks or ())
        st.regions = ()
        for e in node.get('req', []):
            l = self.lockpath(self.ev(e, st, fr0))
            st.locks = st.locks + (l,)
        # the world may have moved on: forget stored field values
        n = self.nseq()
        for k in list(st.store):
            r = root(k)
            if r.op in ('this', 'param', 'g'):
                del st.store[k]
                st.mut[k] = n
        fr = Frame(fr0.fn, fr0.fid, fr0.this, fr0.T, fr0.file, fr0.chain + ('lambda@%d' % node['l'],), fr0.cls)
        fr.lam = True
        ps = []
        for i, p in enumerate(node['params']):
            v = args[i] if args and i < len(args) else mk('param', p['n'] or 'arg%d' % i, 'lam%d_%d' % (lam.a[0], i))
            st.env[(fr.fid, p['d'])] = v
            ps.append(v)
        base = st.pc
        self.stmt(node['body'], st, fr)
        if st.alive:
            fr.exits.append((st, VOID))
            self.emit(st, fr, 'return', node['l'], val=VOID, x='fall')
        fst, val = self.join_exits(fr.exits, base)
        s = Summary(fr0.fn, self.out, val, fr.exits, self, ps)
        self.out, self.loopstack, self.stack, self.dry, self.touch = save
        return s

    def lockpath(self, t):
        return strip(t)

    # ------------------------------------------------------------ inlining
    def inline(self, fn, this, args, st, fr, line, cls=None, node=None):
        """Execute callee in a new frame; returns value; st updated in place."""
        self.inlined.add(fn['sqn'])
        self.fid += 1
        T = fn['T']
        nf = Frame(fn, self.fid, this, T, fn.get('file') or '?', fr.chain + (fn['sqn'],), cls=cls)
        mv = self.mutvars(nf)
        for i, p in enumerate(fn['params']):
            v = args[i] if i < len(args) else mk('param', p['n'] or 'arg%d' % i, 'd%d' % self.fid)
            t = T[p['t']]
            if not p.get('ref') and not p.get('ptr') and p['d'] in mv and self.copyable(t) and \
                    v.op not in ('obj', 'struct', 'lam'):
                v = mk('copy', v, self.nseq())
            st.env[(nf.fid, p['d'])] = v
        base = st.pc
        nf.entry_locks = st.locks
        s2 = st.copy()
        self.stack.append(fn['id'])
        self.depth += 1
        if fn['kind'] == 'ctor':
            self.ctor_inits(fn, s2, nf)
        self.stmt(fn['body'], s2, nf)
        self.depth -= 1
        self.stack.pop()
        if s2.alive:
            nf.exits.append((s2, VOID))
        rs, val = self.join_exits(nf.exits, base)
        if rs.alive and rs.pc[:len(base)] == base:
            # control comes back on every path but those that end the process
            rs.pc = base + tuple((f, 'chk' if t == 'if' else t) for f, t in rs.pc[len(base):])
        self.assign_state(st, rs)
        return val

    def assign_state(self, st, rs):
        st.env, st.store, st.mut, st.pc, st.locks, st.alive, st.regions, st.epoch = \
            rs.env, rs.store, rs.mut, rs.pc, rs.locks, rs.alive, rs.regions, rs.epoch

    def ctor_inits(self, fn, st, fr):
        for i in fn.get('inits', []):
            if 'field' in i:
                if i.get('e') is None:
                    continue
                e = i['e']
                if e.get('k') == 'ctor' and is_lockcls(e['cls']):
                    continue
                v = self.ev(e, st, fr)
                if v.op == 'void':
                    continue
                path = F(fr.this, i['field'])
                v = self.own(v, st)
                self.write(st, path, v)
                self.emit(st, fr, 'write', i.get('l', fn['l']), obj=path, val=v, x='init')
            elif i.get('e') is not None:
                e = i['e']
                if e.get('k') == 'ctor' and e.get('f') in self.p.funcs:
                    cf = self.p.funcs[e['f']]
                    args = [self.ev(a, st, fr) for a in e['args']]
                    if cf.get('body') and not cf.get('implicit') and self.can_inline(cf):
                        self.inline(cf, fr.this, args, st, fr, i.get('l', fn['l']))
                else:
                    self.ev(e, st, fr)

    def own(self, v, st):
        return v

    def can_inline(self, fn):
        return (fn.get('body') is not None and self.depth < MAXDEPTH and self.stack.count(fn['id']) < 1
                and not self.is_opaque(fn, fn['sqn']))

    # ------------------------------------------------------------ mutated variables
    def mutvars(self, fr):
        if fr.mutvars is None:
            fn = fr.fn
            m = fn.get('_mut')
            if m is None:
                m = set()
                collect_mut(fn.get('body'), m)
                for i in fn.get('inits', []):
                    collect_mut(i.get('e'), m)
                fn['_mut'] = m
            fr.mutvars = m
        return fr.mutvars

    def copyable(self, t):
        t = re.sub(r'([*&])\s*(const|volatile)\s*$', r'\1', t.strip())
        if t.endswith('*') or t.endswith('&'):
            return False
        if t.startswith('const '):
            t = t[6:]
        base = t.split('<')[0].split('::')[-1]
        if t.startswith(NOCOPY) or '_iterator' in t.split('<')[0] or \
                'Iterator' in base and not (t.startswith('cartographer::') and base not in ('Iterator', 'ConstIterator')):
            return False
        if t in ('int', 'bool', 'double', 'float', 'unsigned int', 'long', 'unsigned long', 'char', 'unsigned char',
                 'short', 'unsigned short', 'long long', 'unsigned long long', 'signed char'):
            return False
        return '::' in t or '<' in t

    # ------------------------------------------------------------ statements
    def block_exit_locks(self, st, fr, before, regions, node):
        if not st.alive:
            return
        gone = [l for l in st.locks if l not in before]
        for l in reversed(gone):
            self.emit(st, fr, 'unlock', node.get('el', node['l']), obj=l)
        st.locks, st.regions = before, regions

    def stmt(self, n, st, fr):
        if n is None or not st.alive:
            return
        self.steps += 1
        if self.steps > self.budget:
            raise AnalysisError('analysis budget exceeded in %s' % fr.chain[0])
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m:
            m(n, st, fr)
        else:
            self.ev(n, st, fr)

    def s_block(self, n, st, fr):
        before = st.locks
        for s in n['s']:
            if not st.alive:
                break
            self.stmt(s, st, fr)
        if st.alive:
            # only scoped locks are released by leaving the block
            rel = fr.manual
            keep = tuple(l for l in st.locks if l in before or l in rel)
            gone = [l for l in st.locks if l not in keep]
            for l in reversed(gone):
                self.emit(st, fr, 'unlock', n.get('el', n['l']), obj=l)
            st.locks = keep
            st.regions = tuple(r for r in st.regions if r[0] in keep)

    def s_decl(self, n, st, fr):
        for v in n['vars']:
            self.declare(v, st, fr)

    def declare(self, v, st, fr):
        T = fr.T
        t = T[v['t']]
        init = v.get('init')
        key = (fr.fid, v['d'])
        if init is not None and init.get('k') == 'ctor' and is_lockcls(init['cls']) and init['args']:
            self.acquire(init, st, fr, v)
            st.env[key] = mk('lockvar', st.locks[-1] if st.locks else VOID)
            return
        if init is None:
            arr = t.endswith(']') and '[' in t
            val = mk('uninit', fr.fid, v['d'], v['n']) if not self.copyable(t) and not arr else mk('obj', t, self.nseq())
            if val.op == 'obj' and not arr:
                self.valobjs.add(val)
        elif v.get('ref'):
            val = self.ev(init, st, fr, lv=True)
        else:
            val = self.ev(init, st, fr)
            if init.get('k') == 'ctor' and val.op == 'obj':
                self.valobjs.add(val)
            if self.copyable(t) and v['d'] in self.mutvars(fr) and val.op not in ('obj', 'lam'):
                src = val
                if src.op == 'struct':
                    # a value built in place: an object of its own, written field by field
                    val = mk('obj', t, self.nseq())
                    self.valobjs.add(val)
                    for fname, fv in src.a[1]:
                        st.store[F(val, fname)] = fv
                        st.mut[F(val, fname)] = self.nseq()
                        if not (fv.op == 'obj' and fv.a[0] != 'copy'):
                            self.emit(st, fr, 'write', v.get('l') or init.get('l') or 0, obj=F(val, fname), val=fv)
                else:
                    val = mk('copy', src, self.nseq())
                val.ty = t
                if src.op == 'struct':
                    pass
                elif not strip_copy_ok(src):
                    pass
                self.copy_store(st, src, val)
        if v.get('static'):
            val = mk('static', fr.fn['sqn'] if fr.fn else '?', v['n'])
        if isinstance(val, Term) and val.ty is None:
            val.ty = t
        if v.get('bind'):
            self.bind(v, val, t, st, fr)
        self.setenv(st, key, val)

    def copy_store(self, st, src, dst):
        """A copy starts with the field values its source has now."""
        src = stripv(src)
        for k, v in list(st.store.items()):
            if k.op in ('f', 'at') and self.isprefix(src, k):
                st.store[replace_root(k, src, dst)] = v
                st.mut[replace_root(k, src, dst)] = self.nseq()

    def bind(self, v, val, t, st, fr):
        base = t.replace('const ', '').rstrip('& ')
        if base.startswith('std::pair'):
            names = ['first', 'second']
        elif base.startswith('std::tuple') or base.startswith('std::array'):
            names = [str(i) for i in range(len(v['bind']))]
        else:
            r = self.p.records.get(base)
            names = [f['n'] for f in r['fields']] if r else [str(i) for i in range(len(v['bind']))]
        for b, nm in zip(v['bind'], names):
            st.env[(fr.fid, b['d'])] = F(val, nm) if v.get('ref') else self.read(st, F(val, nm))

    def acquire(self, ctor, st, fr, v=None):
        m = self.lockpath(self.ev(ctor['args'][0], st, fr, lv=True))
        self.emit(st, fr, 'lock', ctor['l'], obj=m)
        st.locks = st.locks + (m,)
        self.regionc += 1
        st.regions = st.regions + ((m, self.regionc),)
        # state guarded by the mutex may have changed while it was free
        owner = m.a[0] if m.op == 'f' else None
        if owner is not None:
            self.on_acquire(st, owner, m, fr)

    def on_acquire(self, st, owner, m, fr=None):
        for k in list(st.store):
            if k.op == 'f' and k.a[0] is owner and root(k).op in ('this', 'param', 'g'):
                del st.store[k]
        n = self.nseq()
        rec = self.rec_of_owner(owner)
        if rec is None and fr is not None and fr.this is owner and fr.fn and 'clst' in fr.fn:
            rec = self.p.records.get(fr.fn['T'][fr.fn['clst']])
        paths = set()
        if st.regions:
            self.sections[st.regions[-1][1]] = (n, paths)
        if rec:
            for f in rec['fields']:
                for g in f.get('guard', []):
                    if g.get('k') == 'mem' and g.get('n') == m.a[1]:
                        paths.add(F(owner, f['n']))
                        st.mut[F(owner, f['n'])] = n
                        self.touched(('p', F(owner, f['n'])))
                        for k in list(st.store):
                            if self.isprefix(F(owner, f['n']), k):
                                del st.store[k]

    def rec_of_owner(self, owner):
        if owner.op == 'this':
            return self.this_rec
        return None

    this_rec = None

    def s_if(self, n, st, fr):
        if n.get('i'):
            self.stmt(n['i'], st, fr)
        if n.get('var'):
            self.declare(n['var'], st, fr)
        c = self.cond(n['c'], st, fr)
        if not st.alive:
            return
        self.branch(c, lambda s: self.stmt(n['t'], s, fr), lambda s: self.stmt(n.get('e'), s, fr), st, fr, n['l'])

    def branch(self, c, then, els, st, fr, line):
        base = st.pc
        if c is TRUE:
            then(st)
            return
        if c is FALSE:
            els(st)
            return
        a, b = st.copy(), st.copy()
        self.add_pc(a, c)
        self.add_pc(b, not_(c))
        n0 = self.abortmark()
        if a.alive:
            then(a)
        afatal = not a.alive and self.aborted(n0)
        n1 = self.abortmark()
        if b.alive:
            els(b)
        bfatal = not b.alive and self.aborted(n1)
        r = self.join(c, a, b, base)
        if r.alive and afatal:
            r.pc = tuple((f, 'chk' if f is not_(c) or (not_(c).op == 'and' and f in not_(c).a) else t) for f, t in r.pc)
        if r.alive and bfatal:
            r.pc = tuple((f, 'chk' if f is c or (c.op == 'and' and f in c.a) else t) for f, t in r.pc)
        self.assign_state(st, r)

    fatal_count = 0
    other_exit = 0

    def abortmark(self):
        return (self.fatal_count, self.other_exit)

    def aborted(self, m):
        """The branch died only through aborts (no return/break/continue)."""
        return self.fatal_count > m[0] and self.other_exit == m[1]

    def s_switch(self, n, st, fr):
        if n.get('i'):
            self.stmt(n['i'], st, fr)
        if n.get('var'):
            self.declare(n['var'], st, fr)
        c = self.ev(n['c'], st, fr)
        body = n['b']['s'] if n['b'] and n['b']['k'] == 'block' else [n['b']]
        # flatten labels
        flat = []

        def add(x):
            if x is None:
                return
            if x['k'] == 'case':
                flat.append(('case', x['v']))
                add(x['s'])
            elif x['k'] == 'default':
                flat.append(('default', None))
                add(x['s'])
            else:
                flat.append(('s', x))
        for x in body:
            add(x)
        vals = [self.ev(x, st, fr) for kk, x in flat if kk == 'case']
        base = st.pc
        ctl = {'kind': 'switch', 'breaks': [], 'continues': None}
        fr.loops.append(ctl)
        conds = [eq(c, v) for v in vals]
        # a switch over all enumerators has no implicit default
        total = n.get('enum') and set(x[1] for x in n['enum']) <= set(
            str(const(v)[1]) if const(v) else '?' for v in vals)
        dflt = and_(*[not_(x) for x in conds])
        cur = None       # state flowing through
        ci = 0
        have_default = False
        results = []
        for kk, x in flat:
            if kk in ('case', 'default'):
                if kk == 'case':
                    cc = conds[ci]
                    ci += 1
                else:
                    cc = dflt
                    have_default = True
                entry = st.copy()
                self.add_pc(entry, cc)
                if cur is not None and cur.alive:
                    cur = self.join(not_(cc), cur, entry, base) if entry.alive else cur
                else:
                    cur = entry
            else:
                if cur is not None and cur.alive:
                    self.stmt(x, cur, fr)
        fr.loops.pop()
        exits = list(ctl['breaks'])
        if cur is not None and cur.alive:
            exits.append(cur)
        if not have_default and not total:
            e = st.copy()
            self.add_pc(e, dflt)
            if e.alive:
                exits.append(e)
        rs, _ = self.join_exits([(s, VOID) for s in exits], base)
        self.assign_state(st, rs)

    def s_break(self, n, st, fr):
        self.other_exit += 1
        if fr.loops:
            c = fr.loops[-1]
            s = st.copy()
            c['breaks'].append(s)
            if c['kind'] == 'loop':
                c['loop'].exits.append(('break', self.delta(c['base'], st.pc), n['l']))
        st.alive = False

    def s_continue(self, n, st, fr):
        self.other_exit += 1
        for c in reversed(fr.loops):
            if c['kind'] == 'loop':
                c['continues'].append(st.copy())
                c['loop'].continues.append((self.delta(c['base'], st.pc), n['l']))
                break
        st.alive = False

    def s_nop(self, n, st, fr):
        pass

    def s_return(self, n, st, fr):
        v = VOID
        if n.get('e') is not None:
            e = n['e']
            rt = fr.T[fr.fn['ret']] if fr.fn and 'ret' in fr.fn and not getattr(fr, 'lam', False) else ''
            v = self.ev(e, st, fr, lv=rt.endswith('&'))
            if not st.alive:
                return
            if not rt.endswith(('&', '*')):
                v = self.value(st, v)
        self.other_exit += 1
        for c in fr.loops:
            if c['kind'] == 'loop':
                c['loop'].exits.append(('return', self.delta(c['base'], st.pc), n['l']))
        es = st.copy()
        if not getattr(fr, 'lam', False):
            es.locks = tuple(l for l in es.locks if l in fr.entry_locks or l in fr.manual)
            es.regions = tuple(r for r in es.regions if r[0] in es.locks)
        fr.exits.append((es, v))
        if len(fr.chain) == 1 or getattr(fr, 'lam', False):
            self.emit(st, fr, 'return', n['l'], val=v)
        st.alive = False

    def s_try(self, n, st, fr):
        self.stmt(n['b'], st, fr)

    def s_label(self, n, st, fr):
        raise AnalysisError('goto label in %s is outside the analysed fragment' % fr.chain[-1])

    s_goto = s_label

    def s_unk(self, n, st, fr):
        pass

    def s_case(self, n, st, fr):
        self.stmt(n['s'], st, fr)

    def s_default(self, n, st, fr):
        self.stmt(n['s'], st, fr)

    # ------------------------------------------------------------ loops
    def is_check_while(self, n):
        v = n.get('var')
        return v is not None and v.get('n') == '_result' and v.get('init', {}).get('cls') == 'google::CheckOpString'

    def s_while(self, n, st, fr):
        if self.is_check_while(n):
            return self.check_op(n, st, fr)
        c = n['c']
        if c['k'] == 'lit' and c.get('v') in ('0', 'false', False) or const_false(c):
            return
        self.loop(n, st, fr, cond=n['c'], var=n.get('var'), body=n['b'])

    def s_do(self, n, st, fr):
        c = n['c']
        if const_false(c):
            # do { ... } while (false)
            ctl = {'kind': 'switch', 'breaks': [], 'continues': None}
            base = st.pc
            fr.loops.append(ctl)
            self.stmt(n['b'], st, fr)
            fr.loops.pop()
            ex = ctl['breaks'] + ([st.copy()] if st.alive else [])
            rs, _ = self.join_exits([(s, VOID) for s in ex], base)
            self.assign_state(st, rs)
            return
        self.loop(n, st, fr, cond=n['c'], body=n['b'], post=True)

    def s_for(self, n, st, fr):
        before, regions = st.locks, st.regions
        if n.get('i'):
            self.stmt(n['i'], st, fr)
        k = self.trip_count(n, st, fr)
        if k is not None:
            for _ in range(k):
                if st.alive:
                    self.stmt(n['b'], st, fr)
                if st.alive:
                    self.ev(n['inc'], st, fr)
            return
        self.loop(n, st, fr, cond=n.get('c'), var=n.get('var'), body=n['b'], inc=n.get('inc'))

    UNROLL = 4

    def trip_count(self, n, st, fr):
        """Number of iterations of a counting loop over at most UNROLL constants without jumps, else None."""
        i, c, inc = n.get('i'), n.get('c'), n.get('inc')
        if not isinstance(i, dict) or not isinstance(c, dict) or not isinstance(inc, dict) or n.get('var'):
            return None
        m = set()
        collect_mut(inc, m)
        if len(m) != 1 or jumps(n['b']):
            return None
        mb = set()
        collect_mut(n['b'], mb)
        if m & mb:
            return None
        key = (fr.fid, list(m)[0])
        if key not in st.env or strip(st.env[key]).op != 'i' or c.get('k') != 'bin':
            return None
        s2 = st.copy()
        self.dry += 1
        try:
            for k in range(self.UNROLL + 1):
                v = const(self.cond(c, s2, fr))
                if v is None:
                    return None
                if not v[1]:
                    return k
                self.ev(inc, s2, fr)
            return None
        finally:
            self.dry -= 1

    def s_rfor(self, n, st, fr):
        r = self.ev(n['r'], st, fr, lv=True)
        b = self.p.funcs.get((n.get('beg') or {}).get('f'))
        if b is not None and self.can_inline(b):
            # a class whose begin() is that of one of its containers: iterate that container
            self.dry += 1
            v = self.inline(b, r, [], st.copy(), fr, n['l'])
            self.dry -= 1
            if stripv(v).op == 'begin':
                r = stripv(v).a[0]
        el = stripv(r)
        if el.op == 'list' and 0 < len(el.a) <= self.UNROLL and all(isinstance(x, Term) for x in el.a) and not n['var'].get('bind') and not jumps(n['b']):
            # a list written out: each of its elements in turn
            key = (fr.fid, n['var']['d'])
            for x in el.a:
                if st.alive:
                    t = fr.T[n['var']['t']]
                    if not n['var'].get('ref') and self.copyable(t) and n['var']['d'] in self.mutvars(fr):
                        x = mk('copy', x, self.nseq())
                    st.env[key] = x
                    self.stmt(n['b'], st, fr)
            return
        self.range_loop(n['l'], r, n['var'], st, fr, lambda s: self.stmt(n['b'], s, fr), n['r'])

    def sym_of(self, st, fr, key, L, kind):
        return mk(kind, L.id, key[0], key[1])

    def havoc(self, st, touched, L, kind, fr, skip=()):
        for k in touched:
            if k[0] == 'e':
                if k[1] in st.env and k[1] not in skip:
                    old = st.env[k[1]]
                    if kind == 'post':
                        st.env[k[1]] = mk('post', L.id, k[1][0], k[1][1], old)
                    else:
                        st.env[k[1]] = mk('phi', L.id, k[1][0], k[1][1])
            else:
                self.mutate(st, k[1])

    def body_once(self, run, st, fr, L, dry):
        """Run a loop body; returns (end states incl. continues, break states, touched)."""
        ctl = {'kind': 'loop', 'breaks': [], 'continues': [], 'loop': L, 'base': st.pc}
        ex, co = list(L.exits), list(L.continues)
        fr.loops.append(ctl)
        tset = set()
        self.touch.append(tset)
        saved = self.loopstack
        self.loopstack = saved + (L,)
        nex = len(fr.exits)
        mark = (self.fatal_count, self.other_exit)
        if dry:
            self.dry += 1
        run(st)
        if dry:
            self.dry -= 1
            L.exits, L.continues = ex, co
            del fr.exits[nex:]
            self.fatal_count, self.other_exit = mark
        self.loopstack = saved
        self.touch.pop()
        fr.loops.pop()
        ends = ctl['continues'] + ([st] if st.alive else [])
        return ends, ctl['breaks'], tset

    def loop(self, n, st, fr, cond, body, inc=None, var=None, post=False):
        L = Loop(n['k'], n['l'], fr.file)
        self.loops[L.id] = L
        pre = st.copy()

        def run_body(s, with_cond=True):
            if cond is not None and not post and with_cond:
                if var:
                    self.declare(var, s, fr)
                c = self.cond(cond, s, fr)
                L.cond = c
                self.add_pc(s, c)
            if s.alive:
                self.stmt(body, s, fr)

        def after_body(ends):
            # run the increment on the joined end state
            if not ends:
                return None
            j, _ = self.join_exits([(e, VOID) for e in ends], pre.pc)
            if inc is not None and j.alive:
                self.ev(inc, j, fr)
            if post and cond is not None and j.alive:
                self.cond(cond, j, fr)
            return j

        # pass 1: what does an iteration touch?
        def full(s, dry=True):
            tset = set()
            self.touch.append(tset)
            ends, br, _ = self.body_once(run_body, s, fr, L, True)
            self.dry += 1
            j = after_body(ends)
            self.dry -= 1
            self.touch.pop()
            return ends, br, tset, j

        s1 = pre.copy()
        ends, br, touched, j = full(s1)
        touched = {k for k in touched if not (k[0] == 'e' and k[1] not in pre.env)}
        # pass 2: induction variables
        h = pre.copy()
        self.havoc(h, touched, L, 'phi', fr)
        ends, br, t2, j = full(h.copy())
        touched |= {k for k in t2 if not (k[0] == 'e' and k[1] not in pre.env)}
        ind = {}
        if j is not None and j.alive:
            for k in touched:
                if k[0] != 'e' or k[1] not in pre.env:
                    continue
                phi = mk('phi', L.id, k[1][0], k[1][1])
                v = j.env.get(k[1])
                if v is None:
                    continue
                for step in (1, -1):
                    if v is arith('+', phi, I(step), True):
                        ind[k[1]] = step
        # candidate loop variable: the one compared in the condition
        c0 = stripv(L.cond) if L.cond is not None else None
        main = pre_inc = None
        conj = (c0.a if c0 is not None and c0.op == 'and' else (c0,)) if c0 is not None else ()
        for key, step in ind.items():
            phi = mk('phi', L.id, key[0], key[1])
            init = pre.env[key]
            for cc in conj:
                hi = None
                if cc.op == 'lt' and cc.a[0] is phi:
                    hi = cc.a[1]
                elif cc.op == 'not' and cc.a[0].op == 'eq' and phi in cc.a[0].a:
                    x, y = cc.a[0].a
                    hi = y if x is phi else x
                elif cc.op == 'le' and cc.a[0] is phi:
                    hi = arith('+', cc.a[1], I(1), True)
                elif step == -1 and cc.op == 'le' and cc.a[1] is phi:
                    hi = cc.a[0]
                elif step == -1 and cc.op == 'lt' and cc.a[1] is phi:
                    hi = arith('+', cc.a[0], I(1), True)
                if hi is not None and phi not in subterms(hi):
                    main = (key, step, init, hi, len(conj) > 1)
                    break
                # while (++it != end): the body sees the advanced value
                nx = arith('+', phi, I(1), True)
                if step == 1 and cc.op == 'lt' and cc.a[0] is nx:
                    hi = cc.a[1]
                elif step == 1 and cc.op == 'not' and cc.a[0].op == 'eq' and nx in cc.a[0].a:
                    hi = [x for x in cc.a[0].a if x is not nx][0]
                if hi is not None and phi not in subterms(hi):
                    main = (key, step, init, hi, len(conj) > 1)
                    pre_inc = key
                    break
            if main:
                break
        real = pre.copy()
        self.havoc(real, touched, L, 'phi', fr)
        if main is None:
            # iterator loops that advance with erase(): C visited element-wise
            for cc in conj:
                if cc.op == 'not' and cc.a[0].op == 'eq':
                    x, y = cc.a[0].a
                    if x.op == 'end':
                        x, y = y, x
                    if y.op == 'end' and x.op == 'phi' and x.a[0] == L.id:
                        key = (x.a[1], x.a[2])
                        init = pre.env.get(key)
                        if init is not None and stripv(init).op == 'begin' and stripv(init.a[0]) is stripv(y.a[0]):
                            L.erasing = True
                            L.C = y.a[0]
                            L.lo, L.hi, L.step = I(0), size(stripv(y.a[0])), 1
                            real.env[key] = at(y.a[0], L.idx)
        if main:
            key, step, init, hi, extra = main
            if stripv(init).op == 'copy' and stripv(stripv(init).a[0]).op == 'begin':
                init = stripv(init).a[0]        # a copy of an iterator points to the same element
            si = stripv(init)
            L.step = step
            if key == pre_inc:
                if si.op == 'copy':
                    init = si.a[0]
                L.lo, L.hi = arith('+', init, I(1), True), hi
                real.env[key] = arith('-', L.idx, I(1), True)
            elif si.op == 'begin' and stripv(hi).op == 'end':
                C = init.a[0] if init.op == 'begin' else si.a[0]
                L.C = C
                L.lo, L.hi = I(0), size(stripv(C))
                real.env[key] = at(C, L.idx)
            elif step == 1:
                L.lo, L.hi = init, hi
                real.env[key] = L.idx
            else:
                # descending: lo..hi reversed
                L.lo, L.hi = hi, arith('+', init, I(1), True)
                L.step = 1
                L.down = True
                real.env[key] = L.idx
            if extra:
                L.exits.append(('cond', [], n['l']))
        base = real.pc

        def run_real(s):
            if cond is not None and not post:
                if var:
                    self.declare(var, s, fr)
                c = self.cond(cond, s, fr)
                L.cond = c
                if main or L.erasing:
                    # range membership is recorded on the loop itself
                    cs = c.a if c.op == 'and' else (c,)
                    for x in cs:
                        if L.idx in subterms(x) and x.op in ('lt', 'le', 'not'):
                            self.add_pc(s, x, 'loop')
                        else:
                            self.add_pc(s, x)
                else:
                    self.add_pc(s, c)
            if s.alive:
                self.stmt(body, s, fr)

        rs = real.copy()
        n0 = len(self.out)
        ends, breaks, t3 = self.body_once(run_real, rs, fr, L, False)
        for e in ends:
            for k in touched:
                if k[0] == 'e':
                    v = e.env.get(k[1])
                    L.updates.setdefault(k[1], []).append((self.delta(base, e.pc), v))
        jj = None
        if ends:
            jj, _ = self.join_exits([(e, VOID) for e in ends], base)
            if inc is not None and jj.alive:
                saved = self.loopstack
                self.loopstack = saved + (L,)
                self.ev(inc, jj, fr)
                self.loopstack = saved
            if post and cond is not None and jj.alive:
                saved = self.loopstack
                self.loopstack = saved + (L,)
                L.again = self.cond(cond, jj, fr)
                self.loopstack = saved
        self.note_carried(pre, touched, L, jj, breaks)
        self.iterize(n0, pre, touched, L, jj)
        # after the loop
        out = pre.copy()
        self.havoc(out, touched, L, 'post', fr)
        self.simple_posts(out, pre, touched, L, jj, breaks, fr, base)
        infinite = cond is None or const_true(cond)
        if infinite:
            if not breaks:
                out.alive = False
            elif len(breaks) == 1:
                for f, t in self.delta(base, breaks[0].pc):
                    self.add_pc(out, f, t)
                for k in touched:
                    if k[0] == 'e' and k[1] in breaks[0].env:
                        out.env[k[1]] = breaks[0].env[k[1]]
        elif cond is not None and not breaks:
            self.dry += 1
            c = self.cond(cond, out.copy(), fr)
            self.dry -= 1
            if not main:
                self.add_pc(out, not_(c), 'loopexit')
        elif len(breaks) >= 1 and cond is not None:
            pass
        self.assign_state(st, out)

    def simple_posts(self, out, pre, touched, L, jj, breaks, fr, base):
        """flag = false; for (...) if (c) { flag = true; break; }  ->  exists"""
        clean = jj is not None and jj.alive and not breaks and L.lo is not None and all(x[0] == 'return' for x in L.exits)
        carried = {}
        if clean:
            for k in touched:
                if k[0] == 'e' and k[1] in pre.env:
                    phi = mk('phi', L.id, k[1][0], k[1][1])
                    v = jj.env.get(k[1])
                    if v is None or v is phi or pre.env[k[1]].op in ('obj', 'loc'):
                        continue
                    sub = subterms(v)
                    if len(sub) < 400 and not any(x.op in ('phi', 'post', 'loc') and x is not phi for x in sub):
                        carried[phi] = mk('iter', L.idx, pre.env[k[1]], subst_term(stripv(v), phi, mk('acc')))
        for k in touched:
            if k[0] != 'e' or k[1] not in pre.env:
                continue
            init = pre.env[k[1]]
            phi = mk('phi', L.id, k[1][0], k[1][1])
            if clean:
                v = jj.env.get(k[1])
                if v is phi:
                    out.env[k[1]] = init
                    continue
                if v is not None and any(x in carried and x is not phi for x in subterms(v)):
                    v = rewrite(v, lambda x: carried.get(x) if x.op == 'phi' and x is not phi else None)
                if v is not None and not (const(init) is not None and self.flag_update(v, phi, init)[1] is not None):
                    sub = subterms(v)
                    if phi in sub and not any(x.op in ('phi', 'post', 'loc') and x is not phi for x in sub) and \
                            init.op not in ('obj', 'loc'):
                        rng = stripv(L.C) if L.C is not None else mk('list', stripv(L.lo), stripv(L.hi))
                        out.env[k[1]] = mk('fold', rng, L.idx, init, subst_term(stripv(v), phi, mk('acc')))
                        continue
            if const(init) is None:
                continue
            conds, ok, newv = [], True, None
            cands = [(b, b.env.get(k[1]), self.delta(base, b.pc)) for b in breaks]
            if jj is not None and jj.alive:
                cands.append((jj, jj.env.get(k[1]), []))
            for s, v, d in cands:
                if v is None or v is phi or v is init:
                    continue
                g = [f for f, t in d if t == 'if']
                c, v2 = self.flag_update(v, phi, init)
                if v2 is None or (newv is not None and v2 is not newv):
                    ok = False
                    break
                newv = v2
                conds.append(and_(*(g + [c])))
            if ok and newv is not None and const(newv) is not None:
                body = or_(*conds)
                body = subst_term(body, phi, init)
                ex = mk('exists', L.id, stripv(L.C) if L.C is not None else VOID, body)
                out.env[k[1]] = ite(ex, newv, init)

    def flag_update(self, v, phi, init):
        """v as a function of phi: returns (cond, newvalue) for 'set to const under cond'."""
        if const(v) is not None:
            return TRUE, v
        if v.op == 'ite' and v.a[2] is phi and const(v.a[1]) is not None:
            return v.a[0], v.a[1]
        if v.op == 'ite' and v.a[1] is phi and const(v.a[2]) is not None:
            return not_(v.a[0]), v.a[2]
        if v.op == 'or' and phi in v.a and init is FALSE:
            return or_(*[x for x in v.a if x is not phi]), TRUE
        if v.op == 'and' and phi in v.a and init is TRUE:
            return not_(and_(*[x for x in v.a if x is not phi])), FALSE
        return TRUE, None

    def range_loop(self, line, C, var, st, fr, body, rnode=None, elem=None, name='rfor'):
        L = Loop(name, line, fr.file)
        self.loops[L.id] = L
        # iterate a copied/temporary container by its identity
        L.C = C
        L.lo, L.hi, L.step = I(0), size(stripv(C)), 1
        pre = st.copy()

        def run(s):
            if var is not None:
                e = self.read(s, at(C, L.idx)) if elem is None else elem(L)
                key = (fr.fid, var['d'])
                t = fr.T[var['t']]
                if not var.get('ref') and self.copyable(t) and var['d'] in self.mutvars(fr):
                    e = mk('copy', e, self.nseq())
                if var.get('ref'):
                    e = at(C, L.idx) if elem is None else elem(L)
                if e.ty is None:
                    e.ty = t
                s.env[key] = e
                if var.get('bind'):
                    self.bind(var, e, t, s, fr)
            body(s)

        ends, br, touched = self.body_once(run, pre.copy(), fr, L, True)
        touched = {k for k in touched if not (k[0] == 'e' and k[1] not in pre.env)}
        real = pre.copy()
        self.havoc(real, touched, L, 'phi', fr)
        base = real.pc
        n0 = len(self.out)
        ends, breaks, t3 = self.body_once(run, real.copy(), fr, L, False)
        for e in ends:
            for k in touched:
                if k[0] == 'e':
                    L.updates.setdefault(k[1], []).append((self.delta(base, e.pc), e.env.get(k[1])))
        jj = None
        if ends:
            jj, _ = self.join_exits([(e, VOID) for e in ends], base)
        self.note_carried(pre, touched, L, jj, breaks)
        self.iterize(n0, pre, touched, L, jj)
        out = pre.copy()
        self.havoc(out, touched, L, 'post', fr)
        self.simple_posts(out, pre, touched, L, jj, breaks, fr, base)
        self.assign_state(st, out)
        return L

    def note_carried(self, pre, touched, L, jj, breaks):
        for k in touched:
            if k[0] == 'e' and k[1] in pre.env:
                vs = [b.env.get(k[1]) for b in ([jj] if jj is not None and jj.alive else []) + list(breaks)]
                L.carried[mk('phi', L.id, k[1][0], k[1][1])] = (pre.env[k[1]], [v for v in vs if v is not None])

    def iterize(self, n0, pre, touched, L, jj):
        """In the effects of the loop, a variable carried from one iteration to the next becomes
        iter(init, step): its value at the start of the current iteration."""
        if self.dry or jj is None or not jj.alive or len(self.out) == n0:
            return
        m, rest = {}, []
        for k in touched:
            if k[0] != 'e' or k[1] not in pre.env:
                continue
            phi = mk('phi', L.id, k[1][0], k[1][1])
            v = jj.env.get(k[1])
            init = pre.env[k[1]]
            if v is None or init.op in ('obj', 'loc') or v.op == 'obj':
                continue
            if v is phi:
                m[phi] = init
                continue
            sub = subterms(v)
            if any(x.op == 'phi' and x is not phi and x.a[0] == L.id for x in sub) or len(sub) > 400:
                rest.append((phi, init, v))
                continue
            w = stripv(v)
            if L.lo is not None and stripv(L.lo) is I(0) and L.step == 1 and w.op == 'op' and len(w.a) == 3 and w.a[1] is phi and \
                    phi not in subterms(w.a[2]) and L.idx not in subterms(w.a[2]):
                k = arith('*', w.a[2], L.idx, True)
                if w.a[0] in ('>>', '<<'):
                    m[phi] = mk('op', w.a[0], stripv(init), k)
                    continue
                if w.a[0] in ('+', '-'):
                    m[phi] = arith(w.a[0], stripv(init), k, True)
                    continue
            if L.lo is not None and stripv(L.lo) is I(0) and L.step == 1 and w.op == 'lin':
                d = arith('-', w, phi, True)
                if not {phi, L.idx} & set(subterms(d)):
                    m[phi] = arith('+', stripv(init), arith('*', d, L.idx, True), True)
                    continue
            m[phi] = mk('iter', L.idx, init, subst_term(w, phi, mk('acc')))
        m1 = dict(m)
        for phi, init, v in rest:
            w = rewrite(stripv(v), lambda x: m1.get(x) if x.op == 'phi' else None)
            sub = subterms(w)
            if len(sub) <= 400 and not any(x.op == 'phi' and x is not phi and x.a[0] == L.id for x in sub):
                m[phi] = mk('iter', L.idx, init, subst_term(w, phi, mk('acc')))
        if not m:
            return
        memo = {}

        def r(t):
            return rewrite(t, lambda x: m.get(x) if x.op == 'phi' else None, memo) if isinstance(t, Term) else t
        for e in self.out[n0:]:
            e.obj, e.val, e.ret = r(e.obj), r(e.val), r(e.ret)
            e.args = [r(a) for a in e.args]
            e.pc = type(e.pc)((r(f), t) for f, t in e.pc)
        for M in {M for e in self.out[n0:] for M in e.loops}:
            M.carried = {k: (r(i), [r(v) for v in vs]) for k, (i, vs) in M.carried.items()}

    # ------------------------------------------------------------ CHECKs
    def check_op(self, n, st, fr):
        call = n['var']['init']['args'][0]
        name = call.get('n', '')
        a, b = [self.ev(x, st, fr) for x in call['args'][:2]]
        isint = self.is_intt(call['args'][0], fr) and self.is_intt(call['args'][1], fr)
        op = name.replace('Check_', '').replace('Impl', '')
        if isint:
            self.note_ints(a, b)
        f = {'EQ': lambda: eq(a, b), 'NE': lambda: not_(eq(a, b)), 'LT': lambda: lt(a, b), 'GT': lambda: lt(b, a),
             'LE': lambda: le(a, b, isint), 'GE': lambda: le(b, a, isint)}[op]()
        self.emit(st, fr, 'assert', n['l'], val=f)
        self.fatal_args(n['b'], st, fr)
        self.add_pc(st, f, 'chk')

    def fatal_args(self, n, st, fr):
        pass

    # ------------------------------------------------------------ expressions
    def is_intt(self, e, fr):
        t = e.get('t')
        if t is None:
            return False
        s = fr.T[t] if isinstance(t, int) and 0 <= t < len(fr.T) else ''
        s = s.replace('const ', '').rstrip('& ')
        return s in INTS

    def cond(self, n, st, fr):
        v = self.ev(n, st, fr)
        return self.truth(v, n, fr)

    def truth(self, v, n, fr):
        if is_boolish(v):
            return v
        t = fr.T[n['t']] if n is not None and isinstance(n.get('t'), int) and n['t'] >= 0 else 'bool'
        t = t.replace('const ', '')
        if t.endswith('*') or t.startswith(SMART) or t.startswith('std::function'):
            return not_(eq(v, NULL))
        if t in INTS and t != 'bool':
            return not_(eq(v, I(0)))
        return v

    def ev(self, n, st, fr, lv=False):
        if n is None:
            return VOID
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            # statement in expression position
            self.stmt(n, st, fr)
            return VOID
        return m(n, st, fr, lv)

    def e_lit(self, n, st, fr, lv):
        v = n['v']
        t = fr.T[n['t']] if isinstance(n.get('t'), int) else ''
        if t == 'bool' or v in ('true', 'false'):
            return TRUE if str(v) in ('true', '1', 'True') else FALSE
        try:
            return I(int(v))
        except ValueError:
            try:
                return mk('fl', float(v))
            except ValueError:
                return mk('str', v)

    def e_str(self, n, st, fr, lv):
        return mk('str', n['v'])

    def e_null(self, n, st, fr, lv):
        return NULL

    def e_this(self, n, st, fr, lv):
        return fr.this if fr.this is not None else mk('this')

    def e_zero(self, n, st, fr, lv):
        t = fr.T[n['t']] if isinstance(n.get('t'), int) else ''
        if t in INTS or t in ('double', 'float'):
            return FALSE if t == 'bool' else I(0)
        if t.endswith('*'):
            return NULL
        return mk('zero', t)

    def e_ref(self, n, st, fr, lv):
        dk = n['dk']
        if dk == 'enum':
            r = mk('enum', n.get('qn', n['n']), int(n.get('v', 0)))
            if n.get('sib') and r not in SIBLINGS:
                sib = [mk('enum', x['n'], int(x['v'])) for x in n['sib']]
                for x in sib:
                    SIBLINGS[x] = sib
            return r
        if dk == 'fn':
            return mk('fnref', short(n.get('qn', n['n'])), n.get('f') or '')
        if dk == 'var':
            key = (fr.fid, n['d'])
            if key in st.env:
                v = st.env[key]
                if not lv and v.op in ('f', 'at', 'loc', 'last') and self.is_refvar(n, fr):
                    return self.read(st, v)
                return v
            return mk('free', n['n'], fr.fid)
        if dk == 'global':
            if n.get('v') is not None:
                try:
                    return I(int(n['v']))
                except (ValueError, TypeError):
                    pass
                try:
                    return mk('fl', float(n['v']))
                except (ValueError, TypeError):
                    pass
            if n.get('sv') is not None:
                return mk('str', n['sv'])
            if n.get('sl') is not None:
                return mk('list', *[mk('str', x) for x in n['sl']])
            g = mk('g', short(n.get('qn', n['n'])))
            return g if lv else self.read(st, g)
        return mk('sym', n.get('qn', n['n']))

    def path_of(self, n, st, fr):
        """Lvalue path for a write."""
        k = n['k']
        if k == 'ref' and n['dk'] == 'var':
            key = (fr.fid, n['d'])
            v = st.env.get(key)
            t = fr.T[n['t']] if isinstance(n.get('t'), int) else ''
            # reference variables denote another location
            if self.is_refvar(n, fr):
                return v if v is not None else mk('free', n['n'], fr.fid)
            return mk('loc', fr.fid, n['d'], n['n'])
        if k == 'mem':
            b = self.ev(n['b'], st, fr, lv=True)
            return F(b, n['n'])
        if k == 'idx':
            b = self.ev(n['b'], st, fr, lv=True)
            i = self.ev(n['i'], st, fr)
            return at(b, i)
        if k == 'un' and n['op'] == '*':
            return self.ev(n['e'], st, fr)
        if k == 'un' and n['op'] in ('++', '--'):
            self.ev(n, st, fr)
            return self.path_of(n['e'], st, fr)
        if k == 'cast':
            return self.path_of(n['e'], st, fr)
        if k == 'call':
            return self.ev(n, st, fr, lv=True)
        if k == 'cond':
            return self.ev(n, st, fr, lv=True)
        if k == 'bin' and n['op'] in ('=', '+=', '-='):
            self.ev(n, st, fr)
            return self.path_of(n['a'], st, fr)
        return self.ev(n, st, fr, lv=True)

    def is_refvar(self, n, fr):
        d = n['d']
        fn = fr.fn
        m = fn.get('_refs')
        if m is None:
            m = set()
            for p in fn['params']:
                if p.get('ref'):
                    m.add(p['d'])
            collect_refs(fn.get('body'), m)
            for i in fn.get('inits', []):
                collect_refs(i.get('e'), m)
            fn['_refs'] = m
        return d in m

    def e_mem(self, n, st, fr, lv):
        b = self.ev(n['b'], st, fr, lv=True)
        path = F(b, n['n'])
        if self.reads is not None and not self.dry:
            self.reads(path, n, st, fr, self)
        if lv:
            # a pointer-valued field denotes its pointee when the store knows it
            v = st.store.get(stripv(path))
            if v is not None and self.ptr_like(n, fr):
                return v
            return path
        return self.read(st, path)

    def ptr_like(self, n, fr):
        t = fr.T[n['t']] if isinstance(n.get('t'), int) and n['t'] >= 0 else ''
        t = t.replace('const ', '').rstrip('& ')
        return t.endswith('*') or t.startswith(SMART)

    def e_memfn(self, n, st, fr, lv):
        return mk('fnref', n.get('n', '?'), '')

    def e_idx(self, n, st, fr, lv):
        b = self.ev(n['b'], st, fr, lv=True)
        i = self.ev(n['i'], st, fr)
        p = at(b, i)
        return p if lv else self.read(st, p)

    def e_throw(self, n, st, fr, lv):
        self.emit(st, fr, 'fatal', n['l'], name='throw')
        self.fatal_count += 1
        st.alive = False
        return VOID

    def e_other(self, n, st, fr, lv):
        ch = [self.ev(c, st, fr) for c in n.get('ch', [])]
        if n.get('sk') in ('CXXStdInitializerListExpr', 'MaterializeTemporaryExpr') and ch:
            return ch[0]
        return mk('other', n.get('sk', '?'), *ch)

    def e_delete(self, n, st, fr, lv):
        v = self.ev(n['e'], st, fr)
        self.emit(st, fr, 'delete', n['l'], obj=v)
        return VOID

    def e_new(self, n, st, fr, lv):
        t = fr.T[n['nt']]
        if n.get('n'):
            self.ev(n['n'], st, fr)
        i = n.get('init')
        if i is not None and i['k'] == 'ctor':
            return self.construct(i, st, fr, fresh=True, t=t)
        v = self.ev(i, st, fr) if i is not None else VOID
        o = mk('obj', t, self.nseq())
        self.emit(st, fr, 'new', n['l'], name=short(t), obj=o, args=[v], ret=o)
        return o

    def e_un(self, n, st, fr, lv):
        op = n['op']
        if op == '&':
            e = n['e']
            if e['k'] == 'ref' and e['dk'] == 'var' and not self.is_refvar(e, fr):
                t = fr.T[e['t']] if isinstance(e.get('t'), int) else ''
                if not self.copyable(t) or t.startswith(('std::function', 'std::basic_string')):
                    return mk('loc', fr.fid, e['d'], e['n'])
                v = st.env.get((fr.fid, e['d']))
                return v if v is not None else mk('loc', fr.fid, e['d'], e['n'])
            if e['k'] == 'ref' and e['dk'] == 'fn':
                return self.ev(e, st, fr)
            return self.ev(e, st, fr, lv=True)
        if op == '*':
            v = self.ev(n['e'], st, fr)
            if v.op == 'loc' and not lv:
                return self.read(st, v)
            return v if lv else self.read(st, v) if v.op in ('f', 'at') else v
        if op in ('++', '--', '++post', '--post'):
            path = self.path_of(n['e'], st, fr)
            old = self.read(st, path)
            d = 1 if op.startswith('++') else -1
            new = arith('+', old, I(d), True)
            self.write(st, path, new)
            if stripv(path).op != 'loc':
                self.emit(st, fr, 'write', n['l'], obj=stripv(path), val=new, x='inc')
            return old if op.endswith('post') else new
        v = self.ev(n['e'], st, fr)
        if op == '!':
            return not_(self.truth(v, n['e'], fr))
        if op == '-':
            if v.op == 'i':
                return I(-v.a[0])
            if v.op == 'fl':
                return mk('fl', -v.a[0])
            if self.is_intt(n['e'], fr):
                return arith('-', I(0), v, True)
            return mk('op', 'neg', v)
        if op == '+':
            return v
        return mk('op', op, v)

    def e_bin(self, n, st, fr, lv):
        op = n['op']
        if op in ('&&', '||'):
            a = self.cond(n['a'], st, fr)
            if not st.alive:
                return a
            s2 = st.copy()
            self.add_pc(s2, a if op == '&&' else not_(a))
            base = st.pc
            if s2.alive:
                b = self.cond(n['b'], s2, fr)
                # effects of evaluating b are kept under its guard
                if s2.env != st.env or s2.store != st.store or s2.mut != st.mut:
                    r = self.join(a if op == '&&' else not_(a), s2, st.copy(), base)
                    self.assign_state(st, r)
            else:
                b = TRUE if op == '&&' else FALSE
                return FALSE if op == '&&' else TRUE
            return and_(a, b) if op == '&&' else or_(a, b)
        if op == ',':
            self.ev(n['a'], st, fr)
            return self.ev(n['b'], st, fr, lv)
        if op == '=':
            v = self.ev(n['b'], st, fr)
            path = self.path_of(n['a'], st, fr)
            self.assign(path, v, st, fr, n)
            return path if lv else v
        if op in ('+=', '-=', '*=', '/=', '|=', '&=', '%=', '^=', '<<=', '>>='):
            v = self.ev(n['b'], st, fr)
            path = self.path_of(n['a'], st, fr)
            old = self.read(st, path)
            isint = self.is_intt(n['a'], fr) and self.is_intt(n['b'], fr)
            if op in ('|=', '&=') and (is_boolish(v) and is_boolish(old) or self.is_boolt(n['a'], fr)):
                v2 = self.unboolcast(v)
                new = or_(old, v2) if op == '|=' else and_(old, v2)
            else:
                new = arith(op[:-1], old, v, isint)
            self.assign(path, new, st, fr, n, x=op)
            return path if lv else new
        a = self.ev(n['a'], st, fr)
        b = self.ev(n['b'], st, fr)
        return self.binop(op, a, b, n, fr)

    def is_boolt(self, e, fr):
        t = e.get('t')
        return isinstance(t, int) and t >= 0 and fr.T[t].replace('const ', '').rstrip('& ') == 'bool'

    def unboolcast(self, v):
        return v.a[1] if v.op == 'cast' else v

    def note_ints(self, *xs):
        for x in xs:
            if x.op != 'i' and x not in self.ints:
                self.ints.add(x)
                INT_TERMS.add(x)
                INT_TERMS.add(strip(x))
                for f in (canon, canonc):
                    INT_TERMS.add(f(strip(x)))

    ints = set()

    def binop(self, op, a, b, n, fr):
        isint = n is not None and self.is_intt(n['a'], fr) and self.is_intt(n['b'], fr)
        if isint and op in ('<', '>', '<=', '>='):
            self.note_ints(a, b)
            for x, y in ((a, n['a']), (b, n['b'])):
                if strip(x).op in ('f', 'param') and fr.T[y['t']].replace('const ', '').startswith('unsigned'):
                    UNSIGNED.update((x, strip(x)))
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b, isint)
        if op == '>=':
            return le(b, a, isint)
        if op in ('&', '|') and is_boolish(a) and is_boolish(b):
            return and_(a, b) if op == '&' else or_(a, b)
        return arith(op, a, b, isint)

    def assign(self, path, v, st, fr, n, x=None):
        path = stripv(path)
        if path.op == 'tie':
            for i, p in enumerate(path.a):
                self.assign(p, self.read(st, F(v, str(i))), st, fr, n)
            return
        if path.op == 'ite':
            # write through a conditional location
            c, p, q = path.a
            base = st.pc
            a, b = st.copy(), st.copy()
            self.add_pc(a, c)
            self.add_pc(b, not_(c))
            if a.alive:
                self.assign(p, v, a, fr, n)
            if b.alive:
                self.assign(q, v, b, fr, n)
            self.assign_state(st, self.join(c, a, b, base))
            return
        if path.op == 'loc' and not isinstance(path.a[0], int):
            return
        if path.op == 'copy' or path.op == 'obj':
            # whole-object assignment of a local object
            self.mutate(st, path)
            for k, vv in list(st.store.items()):
                pass
            self.emit(st, fr, 'write', n['l'], obj=path, val=v, x=x or 'whole')
            self.rebind(st, path, v)
            return
        self.write(st, path, v)
        if path.op != 'loc':
            self.emit(st, fr, 'write', n['l'], obj=path, val=v, x=x)

    def rebind(self, st, path, v):
        """Local variables denoting the assigned object now denote the new value."""
        if v.op in ('obj', 'struct', 'call', 'callx', 'mk', 'param', 'f', 'at', 'v', 'copy', 'ite'):
            nv = mk('copy', v, self.nseq()) if v.op not in ('obj',) else v
            self.copy_store(st, v, nv)
            if v.op == 'struct':
                for fn_, fv in v.a[1]:
                    st.store[F(nv, fn_)] = fv
                    st.mut[F(nv, fn_)] = self.nseq()
            for k, t in list(st.env.items()):
                if t is path:
                    self.setenv(st, k, nv)

    def e_cond(self, n, st, fr, lv):
        c = self.cond(n['c'], st, fr)
        if not st.alive:
            return VOID
        if c is TRUE:
            return self.ev(n['a'], st, fr, lv)
        if c is FALSE:
            return self.ev(n['b'], st, fr, lv)
        res = {}
        # CHECK(c): one arm is a fatal log message
        fa, fb = is_fatal(n['a']), is_fatal(n['b'])
        if fa or fb:
            f = c if fb else not_(c)
            self.emit(st, fr, 'assert', n['l'], val=f)
            self.add_pc(st, f, 'chk')
            return VOID
        if is_log(n['a']) or is_log(n['b']):
            return VOID

        def t(s):
            res['a'] = self.ev(n['a'], s, fr, lv)

        def e(s):
            res['b'] = self.ev(n['b'], s, fr, lv)
        self.branch(c, t, e, st, fr, n['l'])
        a, b = res.get('a'), res.get('b')
        if a is None:
            return b if b is not None else VOID
        if b is None:
            return a
        return ite(c, a, b)

    def e_cast(self, n, st, fr, lv):
        v = self.ev(n['e'], st, fr, lv)
        ck = n['ck']
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            if is_boolish(v):
                return v
            if ck == 'PointerToBoolean':
                return not_(eq(v, NULL))
            m = n['e']
            while isinstance(m, dict):
                if m.get('k') == 'call' and m.get('args') and m.get('n') == '__builtin_expect':
                    m = m['args'][0]
                    continue
                if m.get('k') not in ('cast', 'paren') or m.get('ck') == 'UserDefinedConversion':
                    break
                if m.get('k') == 'cast' and isinstance(m.get('ft'), int) and m['ft'] >= 0 and \
                        fr.T[m['ft']].replace('const ', '') == 'bool':
                    return v
                m = m['e']
            return not_(eq(v, I(0)))
        if ck in ('IntegralCast', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral'):
            ft, tt = fr.T[n['ft']].replace('const ', ''), fr.T[n['t']].replace('const ', '')
            return self.numcast(v, ck, ft, tt)
        if ck == 'Dynamic':
            return mk('dyncast', short(fr.T[n['t']]), v)
        if ck in ('BaseToDerived',):
            return v
        return v

    def numcast(self, v, ck, ft, tt):
        if v.op in ('i', 'b', 'enum') and ck in ('IntegralCast', 'IntegralToFloating'):
            return v if v.op != 'b' else v
        if v.op == 'fl' and ck == 'FloatingCast':
            return v
        if v.op == 'i' and ck == 'IntegralToFloating':
            return v
        if ck == 'IntegralToFloating':
            return v
        if ft not in WIDTH or tt not in WIDTH:
            return v
        if ck == 'IntegralCast':
            if WIDTH[tt] >= WIDTH[ft]:
                return v
            if nonneg(v):
                return v
        if ck == 'FloatingCast' and WIDTH[tt] >= WIDTH[ft]:
            return v
        return mk('cast', tt, v)

    def e_ilist(self, n, st, fr, lv):
        if 'fields' in n:
            fs = [(nm, self.ev(e, st, fr)) for nm, e in n['fields']]
            for nm, v in fs:
                self.escape(v, st, fr)
            return struct(short(n.get('cls', '?')), fs)
        el = [self.ev(e, st, fr) for e in n['elems']]
        if len(el) == 0:
            return mk('list')
        t = fr.T[n['t']] if isinstance(n.get('t'), int) and n['t'] >= 0 else ''
        if len(el) == 1 and (t in INTS or t in ('double', 'float') or t.endswith('*')):
            return el[0]
        return mk('list', *el)

    def e_lambda(self, n, st, fr, lv):
        uid = len(self.lams) + 1
        snap = st.copy()
        for c in n['caps']:
            if c.get('init') is not None:
                v = self.ev(c['init'], st, fr)
                snap.env[(fr.fid, c['d'])] = v
                st.env[(fr.fid, c['d'])] = v
        self.lams[uid] = (n, fr, snap, self.loopstack, st.pc, fr.this)
        t = mk('lam', uid)
        return t

    def escape(self, v, st, fr):
        pass

    def invoke_lambda(self, lam, args, st, fr):
        node, fr0, st0, loops, pc, this = self.lams[lam.a[0]]
        lid = 'lam%d' % lam.a[0]
        if self.stack.count(lid) or self.depth >= MAXDEPTH:
            return mk('callx', 'lambda', VOID, self.nseq())
        nf = Frame(fr0.fn, fr0.fid, fr0.this, fr0.T, fr0.file, fr0.chain + ('lambda@%d' % node['l'],), fr0.cls)
        nf.lam = True
        # by-value captures keep the captured value
        for k, v in st0.env.items():
            if k not in st.env:
                st.env[k] = v
        for c in node['caps']:
            if 'd' in c and not c.get('ref'):
                k = (fr0.fid, c['d'])
                if k in st0.env:
                    st.env[k] = st0.env[k]
        for i, p in enumerate(node['params']):
            v = args[i] if i < len(args) else mk('param', p['n'] or 'arg%d' % i, 'l%d' % lam.a[0])
            st.env[(nf.fid, p['d'])] = v
        base = st.pc
        s2 = st.copy()
        self.stack.append(lid)
        self.depth += 1
        lam_emit = self.out
        n0 = len(self.out)
        self.stmt(node['body'], s2, nf)
        # returns of an inlined lambda are not returns of the caller
        self.out[n0:] = [e for e in self.out[n0:] if not (e.kind == 'return' and e.chain == nf.chain)]
        self.depth -= 1
        self.stack.pop()
        if s2.alive:
            nf.exits.append((s2, VOID))
        rs, val = self.join_exits(nf.exits, base)
        lk, rg = st.locks, st.regions
        self.assign_state(st, rs)
        st.locks, st.regions = lk, rg
        return val

    # ------------------------------------------------------------ construction
    def construct(self, n, st, fr, fresh=False, t=None, args=None):
        cls = canon_ext(n['cls'])
        if args is None:
            args = [self.ev(a, st, fr, lv=True if n.get('cp') or n.get('mv') else False) for a in n['args']]
        if not st.alive:
            return VOID
        ty = t or (fr.T[n['t']] if isinstance(n.get('t'), int) else cls)
        if n.get('cp') or n.get('mv'):
            v = args[0] if args else VOID
            v2 = self.read(st, v) if v.op in ('f', 'at', 'loc') and not lval_keep(v) else v
            return v2 if not fresh else self.fresh_copy(v2, ty, st, fr, n)
        fn = self.p.funcs.get(n['f'])
        if fn is not None and fn.get('body') and not fn.get('implicit') and not n.get('pb') and \
                not self.is_opaque(fn, fn['sqn']) and self.can_inline(fn) and not fn.get('cpctor'):
            # simple constructors become structs
            b = fn['body']
            r = self.p.records.get(fn['T'][fn['clst']])
            simple = not b.get('s') and all('field' in i for i in fn.get('inits', []) ) and not fresh
            o = mk('obj', ty, self.nseq())
            if not fresh:
                self.valobjs.add(o)
            if simple:
                n0 = len(self.out)
                self.inline(fn, o, args, st, fr, n['l'], cls=ty)
                # drop the init writes of the throw-away object
                ws = {e.obj.a[1]: e.val for e in self.out[n0:] if e.kind == 'write' and e.obj.op == 'f' and
                      e.obj.a[0] is o} if not self.dry else \
                     {k.a[1]: v for k, v in st.store.items() if k.op == 'f' and k.a[0] is o}
                if not self.dry:
                    self.out[n0:] = [e for e in self.out[n0:] if not (e.kind == 'write' and e.obj.op == 'f' and
                                                                     e.obj.a[0] is o)]
                for k in [k for k in st.store if k.op == 'f' and k.a[0] is o]:
                    del st.store[k]
                for k in [k for k in st.mut if k.op == 'f' and k.a[0] is o]:
                    del st.mut[k]
                self.emit(st, fr, 'new', n['l'], name=short(cls), obj=VOID, args=args)
                return struct(short(cls), list(ws.items()))
            self.emit(st, fr, 'new', n['l'], name=short(cls), obj=o, args=args, ret=o)
            self.inline(fn, o, args, st, fr, n['l'], cls=ty)
            return o
        if cls.startswith(IDENT_CTORS) and not fresh:
            real = [a for a in args if not (a.op == 'obj' and 'allocator' in a.a[0].split('<')[0])]
            if not real:
                return mk('str', '') if 'string' in cls else NULL
            if len(real) == 1 or cls.startswith(SMART):
                return real[0]
            return mk('mk', cls, *real)
        if cls in ('Eigen::Array', 'Eigen::Matrix') and len(args) == 1 and not fresh and \
                fr.T[n['args'][0]['t']] not in WIDTH if n['args'] and isinstance(n['args'][0].get('t'), int) else False:
            # evaluating an expression template into a dense object
            return args[0]
        if cls == 'std::pair' and len(args) == 1 and args[0].op == 'struct' and args[0].a[0] == 'std::pair':
            return args[0]
        if cls == 'std::pair' and len(args) == 2:
            return struct('std::pair', [('first', args[0]), ('second', args[1])])
        if cls == 'std::tuple':
            return struct('std::tuple', [(str(i), a) for i, a in enumerate(args)])
        if cls == 'absl::Condition':
            return mk('mk', cls, *args)
        if not args or fresh:
            if not args and fn is None and not n.get('pb'):
                pass
            o = mk('obj', ty, self.nseq())
            if not fresh:
                self.valobjs.add(o)
            if fn is not None and (fn.get('implicit') or not fn.get('inits')):
                pass
            if short(ty) != short(cls) or True:
                self.emit(st, fr, 'new', n['l'], name=short(cls), obj=o, args=args, ret=o)
            r = self.p.records.get(ty)
            if r and fn is not None and fn.get('body') is not None:
                self.depth += 1
                if self.depth < MAXDEPTH and not self.stack.count(fn['id']):
                    self.stack.append(fn['id'])
                    self.fid += 1
                    nf = Frame(fn, self.fid, o, fn['T'], fn.get('file') or fr.file, fr.chain + (fn['sqn'],), cls=ty)
                    for i, p in enumerate(fn['params']):
                        st.env[(nf.fid, p['d'])] = args[i] if i < len(args) else mk('param', p['n'], 'c%d' % self.fid)
                    self.ctor_inits(fn, st, nf)
                    self.stack.pop()
                self.depth -= 1
            return o
        if cls in ('std::vector', 'std::deque', 'std::list', 'std::set', 'std::map', 'std::basic_string') and \
                args and args[0].op == 'list':
            return args[0]
        if cls in ('std::vector', 'google::protobuf::RepeatedField', 'google::protobuf::RepeatedPtrField') and len(args) >= 2 and args[0].op == 'begin' and args[1].op == 'end' and \
                stripv(args[0].a[0]) is stripv(args[1].a[0]):
            return args[0].a[0]
        real = [a for a in args if not (a.op == 'obj' and 'allocator' in a.a[0].split('<')[0])]
        self.emit(st, fr, 'new', n['l'], name=short(cls), obj=VOID, args=real)
        for a in real:
            if a.op == 'lam':
                pass
        return mk('mk', short(cls), *real)

    def fresh_copy(self, v, ty, st, fr, n):
        o = mk('obj', ty, self.nseq())
        self.emit(st, fr, 'new', n['l'], name=short(ty), obj=o, args=[v], ret=o)
        if v.op == 'struct':
            for nm, x in v.a[1]:
                self.write(st, F(o, nm), x)
                self.emit(st, fr, 'write', n['l'], obj=F(o, nm), val=x, x='init')
        else:
            self.copy_store(st, v, o)
        return o

    def e_ctor(self, n, st, fr, lv):
        return self.construct(n, st, fr)

    # ------------------------------------------------------------ calls
    def e_call(self, n, st, fr, lv):
        import calls
        return calls.call(self, n, st, fr, lv)


def lval_keep(v):
    return False


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'char', 'unsigned char', 'short', 'unsigned short',
        'long long', 'unsigned long long', 'signed char', 'bool'}
WIDTH = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
         'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64,
         'float': 32, 'double': 64, 'long double': 80}


def is_boolish(v):
    return is_bool_term(v) or (v.op == 'v' and is_boolish(v.a[0]))


def const_false(c):
    c = uncast(c)
    return c is not None and c.get('k') == 'lit' and str(c.get('v')).lower() in ('0', 'false')


def const_true(c):
    c = uncast(c)
    return c is not None and c.get('k') == 'lit' and str(c.get('v')).lower() in ('1', 'true')


def uncast(c):
    while c is not None and c.get('k') == 'cast':
        c = c['e']
    return c


def replace_root(k, src, dst):
    if k is src:
        return dst
    if k.op == 'f':
        return F(replace_root(k.a[0], src, dst), k.a[1])
    if k.op == 'at':
        return at(replace_root(k.a[0], src, dst), k.a[1])
    if k.op == 'v':
        return replace_root(k.a[0], src, dst)
    return k


def subst_term(t, old, new):
    from terms import rewrite
    return rewrite(t, lambda x: new if x is old else None)


def strip_copy_ok(t):
    return True


def find_k(n, pred):
    if isinstance(n, dict):
        if pred(n):
            return True
        return any(find_k(v, pred) for v in n.values())
    if isinstance(n, list):
        return any(find_k(v, pred) for v in n)
    return False


def is_fatal(n):
    return find_k(n, lambda x: x.get('k') == 'ctor' and x.get('cls', '') in
                  ('google::LogMessageFatal', 'google::NullStreamFatal')) if n else False


def is_log(n):
    return n is not None and n.get('k') == 'call' and n.get('qn', '').startswith('google::LogMessageVoidify')


def rootvar(e):
    while e is not None:
        k = e.get('k')
        if k == 'ref':
            return e['d'] if e.get('dk') == 'var' else None
        if k in ('mem',):
            if e.get('a'):
                # through a pointer: the pointee, not the variable
                b = e['b']
                if b.get('k') == 'call' and b.get('op') == '->':
                    return None
                return None
            e = e['b']
        elif k == 'idx':
            e = e['b']
        elif k == 'un':
            if e['op'] == '*':
                return None
            e = e['e']
        elif k == 'cast':
            e = e['e']
        elif k == 'call' and e.get('o') is not None:
            if e.get('const') and not e.get('op') == '[]':
                return None
            e = e['o']
        elif k == 'call' and e.get('qn') in ('std::move', 'std::forward', 'std::get') and e['args']:
            e = e['args'][0]
        elif k == 'cond':
            return rootvar(e['a'])
        else:
            return None
    return None


MUTOPS = ('=', '+=', '-=', '*=', '/=', '|=', '&=', '%=', '^=', '<<=', '>>=')


def jumps(n):
    if isinstance(n, list):
        return any(jumps(x) for x in n)
    if not isinstance(n, dict):
        return False
    return n.get('k') in ('break', 'continue', 'return', 'goto', 'label') or any(
        jumps(v) for k, v in n.items() if isinstance(v, (dict, list)))


def collect_mut(n, out):
    if isinstance(n, list):
        for x in n:
            collect_mut(x, out)
        return
    if not isinstance(n, dict):
        return
    k = n.get('k')
    if k == 'bin' and n['op'] in MUTOPS:
        r = rootvar(n['a'])
        if r is not None:
            out.add(r)
    elif k == 'un' and n['op'] in ('++', '--', '++post', '--post', '&'):
        r = rootvar(n['e'])
        if r is not None:
            out.add(r)
    elif k == 'call':
        if n.get('o') is not None and not n.get('const') and not n.get('static'):
            r = rootvar(n['o'])
            if r is not None:
                out.add(r)
        pm = n.get('pm', '')
        for i, a in enumerate(n.get('args', [])):
            c = pm[i] if i < len(pm) else 'v'
            if c == 'w' and n.get('qn') not in ('std::move', 'std::forward', 'std::get'):
                r = rootvar(a)
                if r is not None:
                    out.add(r)
    for key, v in n.items():
        if isinstance(v, (dict, list)) and key != 'T':
            collect_mut(v, out)


def collect_refs(n, out):
    if isinstance(n, list):
        for x in n:
            collect_refs(x, out)
        return
    if not isinstance(n, dict):
        return
    if n.get('k') == 'decl':
        for v in n['vars']:
            if v.get('ref'):
                out.add(v['d'])
            for b in v.get('bind', []):
                if v.get('ref'):
                    out.add(b['d'])
    elif n.get('k') == 'lambda':
        for p in n['params']:
            if p.get('ref'):
                out.add(p['d'])
    v = n.get('var')
    if isinstance(v, dict):
        if v.get('ref'):
            out.add(v['d'])
            for b in v.get('bind', []):
                out.add(b['d'])
    for key, x in n.items():
        if isinstance(x, (dict, list)) and key != 'T':
            collect_refs(x, out)
