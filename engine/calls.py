"""Call handling of the effect analysis: library models, protobuf accessors,
locks, closures, inlining."""
import re

from ir import short
from terms import *  # noqa: F401,F403
from terms import F, I, TRUE, FALSE, NULL, VOID, mk, and_, or_, not_, eq, lt, le, ite, at, size, has, begin, end, \
    struct, const, arith, stripv, strip, subterms
import interp as ip
import canon as canon_mod

CONTAINER_CLS = ('std::vector', 'std::deque', 'std::list', 'std::map', 'std::set', 'std::unordered_map',
                 'std::unordered_set', 'std::array', 'std::multimap', 'std::multiset', 'std::basic_string',
                 'std::queue', 'std::stack', 'std::priority_queue', 'std::_Vector_base', 'std::bitset',
                 'absl::flat_hash_map', 'absl::flat_hash_set', 'absl::node_hash_map', 'absl::node_hash_set',
                 'absl::container_internal::', 'google::protobuf::RepeatedField',
                 'google::protobuf::RepeatedPtrField', 'google::protobuf::Map', 'mapping::MapById',
                 'sensor::MapByTime', 'absl::Span', 'std::_Rb_tree', 'std::__', 'std::map', 'std::initializer_list',
                 'absl::string_view', 'std::basic_string_view', 'mapping::Range')
GROW = {'push_back': -1, 'emplace_back': None, 'push': -1, 'emplace': None, 'push_front': -1, 'emplace_front': None,
        'insert': None, 'try_emplace': None, 'insert_or_assign': None, 'emplace_hint': None}
SHRINK = ('pop_back', 'pop_front', 'pop', 'erase', 'clear', 'resize', 'assign', 'swap', 'shrink_to_fit',
          'remove', 'remove_if', 'merge', 'splice', 'extract', 'Truncate', 'DeleteSubrange', 'RemoveLast')
BEGIN = ('begin', 'cbegin')
END = ('end', 'cend')


def call(s, n, st, fr, lv):
    qn0 = n.get('qn')
    if qn0 is None:
        return call_indirect(s, n, st, fr, lv)
    ext = ip.canon_ext(qn0)
    name = n['n']
    fn = s.p.funcs.get(n.get('f'))
    # ---- logging
    if ext.startswith('google::') and not ext.startswith('google::protobuf'):
        r = glog(s, n, st, fr, ext, name)
        if r is not None:
            return r
    if ext == '__builtin_expect':
        return s.ev(n['args'][0], st, fr)
    if ext in ('std::operator<<', 'Eigen::operator<<', 'std::basic_ostream::operator<<') or (
            n.get('op') == '<<' and is_logstream(n)):
        if is_logstream(n):
            for a in log_args(n):
                s.ev(a, st, fr)
            if is_fatal_stream(n):
                s.emit(st, fr, 'fatal', n['l'], name='LOG(FATAL)')
                s.fatal_count += 1
                st.alive = False
            return VOID
        if ext != 'Eigen::operator<<' and 'stream' in (fr.T[n['t']] if isinstance(n.get('t'), int) and n['t'] >= 0 else ''):
            sn, an = (n['o'], n['args'][0]) if n.get('o') is not None else n['args'][:2]
            o = s.ev(sn, st, fr, lv=True)
            v = s.ev(an, st, fr)
            if not st.alive:
                return VOID
            s.emit(st, fr, 'append', n['l'], obj=stripv(o), val=v, name='<<')
            s.mutate(st, o)
            return o
    if n.get('pb') or ext.startswith('google::protobuf::Message') and n.get('o') is not None:
        r = protobuf(s, n, st, fr, ext, name, lv)
        if r is not None:
            return r
    sqn = short(qn0)
    if fn is not None and fn.get('body') is not None and not n.get('pb'):
        return repo_call(s, n, st, fr, lv, fn, sqn)
    if fn is None and n.get('op') == '=' and ext.startswith('cartographer::') and n.get('o') is not None and \
            not is_container_cls(sqn):
        # implicitly defaulted assignment of a repository class
        v = s.ev(n['args'][0], st, fr)
        if not st.alive:
            return VOID
        p = s.path_of(n['o'], st, fr)
        s.assign(p, v, st, fr, n)
        return p
    if n.get('op') == '()' and n.get('o') is not None and '(anonymous class)' in ext or '(lambda' in ext:
        return external(s, n, st, fr, lv, ext, name)
    if ext.startswith('cartographer::') and not is_container_cls(sqn):
        return opaque(s, n, st, fr, lv, sqn)
    return external(s, n, st, fr, lv, ext, name)


# -------------------------------------------------------------------- logging
def log_args(n):
    out = []
    while n is not None and n.get('k') == 'call' and n.get('op') == '<<':
        if n.get('o') is not None:
            out += n['args']
            n = n['o']
        else:
            out.append(n['args'][1])
            n = n['args'][0]
    return out


def log_base(n):
    while n is not None and n.get('k') == 'call' and n.get('op') == '<<':
        n = n['o'] if n.get('o') is not None else n['args'][0]
    return n


def is_logstream(n):
    b = log_base(n)
    return b is not None and b.get('k') == 'call' and b.get('qn', '').startswith(
        ('google::LogMessage::stream', 'google::ErrnoLogMessage', 'google::NullStream', 'google::LogMessageFatal'))


def is_fatal_stream(n):
    b = log_base(n)
    o = b.get('o') if b else None
    return o is not None and o.get('k') == 'ctor' and 'Fatal' in o.get('cls', '')


def glog(s, n, st, fr, ext, name):
    if name == 'GetReferenceableValue':
        return s.ev(n['args'][0], st, fr)
    if name == 'stream':
        o = n.get('o')
        if o is not None and o.get('k') == 'ctor' and 'Fatal' in o.get('cls', ''):
            s.emit(st, fr, 'fatal', n['l'], name='LOG(FATAL)')
            s.fatal_count += 1
            st.alive = False
        return VOID
    if name == 'operator&':
        for a in n['args']:
            s.ev(a, st, fr)
        return VOID
    if name == 'CheckNotNull':
        v = s.ev(n['args'][-1], st, fr)
        f = not_(eq(v, NULL))
        s.emit(st, fr, 'assert', n['l'], val=f)
        s.add_pc(st, f, 'chk')
        return v
    return VOID


# -------------------------------------------------------------------- protobuf
def protobuf(s, n, st, fr, ext, name, lv):
    if n.get('o') is None:
        return None
    o = s.ev(n['o'], st, fr, lv=True)
    args = n['args']
    cls = short(n['qn'].rsplit('::', 1)[0])
    line = n['l']

    def argv():
        return [s.ev(a, st, fr) for a in args]

    if name in ('SerializeToString', 'SerializeAsString'):
        v = s.vers(st, mk('call', 'Serialized', o), o)
        if name == 'SerializeAsString':
            return v
        a = s.ev(args[0], st, fr, lv=True)
        if a.op == 'loc':
            s.setenv(st, a.a[:2], v)
        else:
            s.write(st, a, v)
            s.emit(st, fr, 'write', line, obj=stripv(a), val=v)
        return mk('call', 'Serialized.ok', o)
    if n.get('const'):
        if name.startswith('has_') and not args:
            return s.vers(st, mk('has_', F(o, name[4:])), F(o, name[4:]))
        if name.endswith('_size') and not args and name not in size_fields():
            f = F(o, name[:-5])
            return s.vers(st, size(f), f)
        if name.endswith('_case') and not args:
            return s.vers(st, mk('case', o, name[:-5]), o)
        if name in ('SerializeAsString', 'DebugString', 'ByteSizeLong', 'GetTypeName', 'IsInitialized',
                    'ShortDebugString', 'SerializeToString', 'SerializeToOstream', 'GetDescriptor', 'New'):
            return opaque(s, n, st, fr, lv, cls + '::' + name, o=o)
        if len(args) == 1:
            i = s.ev(args[0], st, fr)
            p = at(F(o, name), i)
            return p if lv else s.read(st, p)
        p = F(o, name)
        if s.reads is not None and not s.dry:
            s.reads(p, n, st, fr, s)
        return p if lv else s.read(st, p)
    # mutators
    if name.startswith('set_allocated_'):
        v = argv()[0]
        f = F(o, name[14:])
        s.write(st, f, v)
        s.emit(st, fr, 'write', line, obj=stripv(f), val=v, name=cls, x='pb')
        return VOID
    if name.startswith('set_'):
        a = argv()
        f = F(o, name[4:])
        if len(a) == 2:
            f = at(f, a[0])
        s.write(st, f, a[-1])
        s.emit(st, fr, 'write', line, obj=stripv(f), val=a[-1], name=cls, x='pb')
        return VOID
    if name.startswith('mutable_'):
        a = argv()
        f = F(o, name[8:])
        if a:
            return at(f, a[0])
        s.emit(st, fr, 'touch', line, obj=stripv(f), name=cls)
        return stripv(f)
    if name.startswith('add_'):
        a = argv()
        f = stripv(F(o, name[4:]))
        if a:
            s.mutate(st, f)
            s.emit(st, fr, 'append', line, obj=f, val=a[0], name=cls, x='pb')
            return VOID
        s.mutate(st, f)
        e = mk('obj', fr.T[n['t']].rstrip('* '), s.nseq())
        s.emit(st, fr, 'append', line, obj=f, val=e, name=cls, x='pb')
        return e
    if name.startswith('clear_'):
        f = stripv(F(o, name[6:]))
        s.mutate(st, f)
        s.emit(st, fr, 'mutate', line, name='clear', obj=f)
        return VOID
    if name.startswith('release_'):
        f = stripv(F(o, name[8:]))
        v = s.read(st, f)
        return v
    if name in ('operator=', 'CopyFrom', 'MergeFrom'):
        a = argv()[0]
        p = opath(s, n, st, fr, o) if name == 'operator=' else o
        if name == 'operator=' and p.op == 'loc':
            s.assign(p, mk('copy', a, s.nseq()), st, fr, n)
            return o
        p = stripv(p)
        if p.op in ('copy', 'obj'):
            s.mutate(st, p)
            s.emit(st, fr, 'write', line, obj=p, val=a, name=cls, x='pb')
            s.rebind(st, p, a)
            return o
        s.write(st, p, a)
        s.emit(st, fr, 'write', line, obj=p, val=a, name=cls, x='pb')
        return o
    if name in ('Swap',):
        a = argv()[0]
        s.mutate(st, stripv(o))
        s.mutate(st, stripv(a))
        s.emit(st, fr, 'write', line, obj=stripv(o), val=a, name=cls, x='swap')
        return VOID
    return opaque(s, n, st, fr, lv, cls + '::' + name, o=o)


# -------------------------------------------------------------------- repo functions
def eval_args(s, n, st, fr, fn):
    out = []
    ps = fn['params'] if fn is not None else []
    pm = n.get('pm', '')
    for i, a in enumerate(n['args']):
        ref = i < len(ps) and ps[i].get('ref') or (fn is None and i < len(pm) and pm[i] in 'wcm')
        out.append(s.ev(a, st, fr, lv=bool(ref)))
    return out


def rd(s, st, v):
    return s.read(st, v) if v.op in ('f', 'at', 'loc', 'last') else v


def repo_call(s, n, st, fr, lv, fn, sqn):
    o = None
    if n.get('o') is not None:
        o = s.ev(n['o'], st, fr, lv=True)
    if not st.alive:
        return VOID
    if n.get('op') == '()' and o is not None:
        f = rd(s, st, o)
        if f.op == 'lam':
            pm = n.get('pm', '')
            args = [s.ev(a, st, fr, lv=True) for a in n['args']]
            args = [rd(s, st, a) if pm[i:i + 1] != 'w' else a for i, a in enumerate(args)]
            return invoke(s, f, args, st, fr, n)
    if n.get('op') == '=' and fn.get('implicit') and o is not None:
        v = s.ev(n['args'][0], st, fr)
        p = opath(s, n, st, fr, o)
        s.assign(p, v, st, fr, n)
        return p
    if n.get('op') in ('==', '!='):
        pass
    if n.get('virt') and not n.get('nv'):
        tgt = None
        if s.devirt and o is not None and o.op == 'this' and fr.this is o and fr.cls:
            tgt = s.p.find_method(fr.cls, n['n'], len(fn['params']))
        if tgt is None:
            return opaque(s, n, st, fr, lv, sqn, o=o, fn=fn)
        fn = tgt
        sqn = fn['sqn']
    if is_container_cls(sqn) and s.default_opaque and not any(r.search(sqn) for r in s.noopaque):
        return external(s, n, st, fr, lv, sqn, n['n'], o=o, repo=fn)
    if not s.can_inline(fn):
        return opaque(s, n, st, fr, lv, sqn, o=o, fn=fn)
    args = eval_args(s, n, st, fr, fn)
    if not st.alive:
        return VOID
    # by-value scalars / pointers are values
    for i, p in enumerate(fn['params']):
        if i < len(args) and not p.get('ref'):
            args[i] = args[i]
    cls = fn['T'][fn['clst']] if 'clst' in fn else None
    if o is not None and o is fr.this:
        cls = fr.cls or cls
    for e in fn.get('excl', []):
        pass
    v = s.inline(fn, o, args, st, fr, n['l'], cls=cls, node=n)
    if not lv and v.op in ('f', 'at') and fn['T'][fn['ret']].endswith('&'):
        v = s.read(st, v)
    return v


def call_indirect(s, n, st, fr, lv):
    """Call through a function pointer / callable value."""
    f = s.ev(n['fp'], st, fr) if n.get('fp') else VOID
    args = [s.ev(a, st, fr) for a in n.get('args', [])]
    return invoke(s, f, args, st, fr, n)


def invoke(s, f, args, st, fr, n, lv=False):
    f = s.read(st, f) if f.op in ('f', 'at', 'loc') else f
    g = stripv(f)
    if f.op == 'lam':
        return s.invoke_lambda(f, args, st, fr)
    if f.op == 'fnref' and f.a[1] in s.p.funcs:
        fn = s.p.funcs[f.a[1]]
        if s.can_inline(fn):
            return s.inline(fn, None, args, st, fr, n['l'])
    r = mk('callx', 'invoke', g, *args, s.nseq())
    s.emit(st, fr, 'invoke', n['l'], name='invoke', obj=g, args=args, ret=r)
    for a in args:
        if a.op == 'loc':
            s.setenv(st, a.a[:2], mk('out', r, a.a[2]))
    return r


def opaque(s, n, st, fr, lv, sqn, o=None, fn=None, args=None):
    """Call whose body is not looked into: an effect and an uninterpreted result."""
    if o is None and n.get('o') is not None:
        o = s.ev(n['o'], st, fr, lv=True)
    if args is None:
        args = eval_args(s, n, st, fr, fn)
    if not st.alive:
        return VOID
    pm = n.get('pm', '')
    vals = []
    for i, a in enumerate(args):
        c = pm[i] if i < len(pm) else 'v'
        if c == 'c' and a.op in ('f', 'at', 'loc'):
            vals.append(s.read(st, a))
        else:
            vals.append(a)
    pure = (n.get('const') or n.get('o') is None or n.get('static')) and 'w' not in pm
    ret_void = isinstance(n.get('t'), int) and fr.T[n['t']] == 'void'
    ov = o if o is not None else VOID
    if n.get('const') and o is not None and o.op in ('f', 'at'):
        rv = s.read(st, o)
        ovv = rv
    else:
        ovv = ov
    if pure and not ret_void:
        r = mk('call', sqn, ovv, *vals)
        if o is not None:
            r = s.vers(st, r, o)
        seqd = False
    else:
        r = mk('callx', sqn, stripv(ov), *vals, s.nseq())
    s.emit(st, fr, 'call', n['l'], name=sqn, obj=ov, args=vals, ret=r,
           x={'virt': bool(n.get('virt')), 'const': bool(n.get('const')), 'pm': pm, 'f': n.get('f')})
    if o is not None and not n.get('const') and not n.get('static'):
        if o.op == 'loc':
            s.setenv(st, o.a[:2], mk('out', r, 'this'))
        else:
            s.mutate(st, o)
    for i, a in enumerate(args):
        c = pm[i] if i < len(pm) else 'v'
        if c == 'w':
            if a.op == 'loc':
                s.setenv(st, a.a[:2], mk('out', r, i))
            elif a.op in ('f', 'at', 'param', 'obj', 'copy', 'v'):
                s.mutate(st, a)
    if n.get('nr'):
        s.emit(st, fr, 'fatal', n['l'], name=sqn)
        s.fatal_count += 1
        st.alive = False
    return r


# -------------------------------------------------------------------- library
def is_container_cls(sqn):
    return sqn.startswith(CONTAINER_CLS)


STREAM_CLS = re.compile(r'std::basic_(ios|i?o?f?stream|[io]f?stream|[io]stringstream|stringstream)$')


def external(s, n, st, fr, lv, ext, name, o=None, repo=None):
    if o is None and n.get('o') is not None:
        o = s.ev(n['o'], st, fr, lv=True)
    if not st.alive:
        return VOID
    op = n.get('op')
    line = n['l']
    A = n['args']
    cls = ext.rsplit('::', 1)[0]

    # ---- streams: chainable operations give the stream; its truth value is !fail()
    if STREAM_CLS.match(cls) and o is not None:
        if name in ('read', 'write', 'put', 'flush', 'seekp', 'seekg', 'ignore', 'getline') or name == 'get' and A:
            opaque(s, n, st, fr, lv, ext, o=o)
            return o
        if name in ('operator!', 'operator bool', 'fail', 'bad', 'good', 'eof', 'is_open'):
            w = stripv(o)
            st_of = lambda x: mk('call', 'std::basic_ios::' + x, w, I(s.version(st, w)))
            if name == 'operator bool':
                return not_(st_of('fail'))
            return st_of('fail' if name == 'operator!' else name)
    # ---- identity functions
    if ext in ('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof',
               'std::static_pointer_cast', 'std::const_pointer_cast', 'absl::WrapUnique', 'absl::make_optional',
               'std::make_optional', 'absl::implicit_cast'):
        v = s.ev(A[0], st, fr, lv=True)
        return v if lv else rd(s, st, v)
    if ext in ('memcpy', 'std::memcpy') and len(A) == 3:
        d, src, ln = s.ev(A[0], st, fr), s.ev(A[1], st, fr, lv=True), s.ev(A[2], st, fr)
        if not st.alive:
            return VOID
        src = rd(s, st, src)
        base, off = d, I(0)
        if d.op == 'lin' or d.op == 'op' and d.a[0] == '+':
            for t in subterms(d):
                if t.op == 'obj':
                    base, off = t, arith('-', d, t, True)
        if d.op == 'at':
            base, off = d.a[0], d.a[1]
        s.emit(st, fr, 'write', line, obj=at(stripv(base), stripv(off)), val=src, args=[ln], name='memcpy')
        s.mutate(st, base)
        return d
    if ext in ('std::get',):
        v = s.ev(A[0], st, fr, lv=True)
        ta = n.get('ta') or []
        i = ta[0][1:] if ta and isinstance(ta[0], str) else '0'
        i = {'0': 'first', '1': 'second'}[i] if is_pairish(v, A[0], fr) else i
        p = F(v, i)
        return p if lv else rd(s, st, p)
    if ext == 'std::tie':
        return mk('tie', *[s.path_of(a, st, fr) for a in A])
    if ext == 'std::minmax' and len(A) == 2:
        a, b = [rd(s, st, s.ev(x, st, fr, lv=True)) for x in A]
        a, b = (b, a) if a.id > b.id else (a, b)
        return struct('std::pair', [('first', mk('op', 'min', a, b)), ('second', mk('op', 'max', a, b))])
    if ext in ('std::make_pair',):
        return struct('std::pair', [('first', s.ev(A[0], st, fr)), ('second', s.ev(A[1], st, fr))])
    if ext in ('std::make_tuple', 'std::forward_as_tuple'):
        return struct('std::tuple', [(str(i), s.ev(a, st, fr)) for i, a in enumerate(A)])
    # ---- allocation
    if ext in ('absl::make_unique', 'std::make_unique', 'std::make_shared', 'std::allocate_shared'):
        return make_object(s, n, st, fr)
    # ---- locks
    r = locks(s, n, st, fr, ext, name, o)
    if r is not None:
        return r
    # ---- callables
    if op == '()' and o is not None:
        args = [s.ev(a, st, fr, lv=True) for a in A]
        f = rd(s, st, o)
        if f.op == 'lam' or ext.startswith('std::function') or 'AnyInvocable' in ext:
            args = [rd(s, st, a) if n.get('pm', '')[i:i + 1] not in ('w',) else a for i, a in enumerate(args)]
            return invoke(s, o, args, st, fr, n)
        if f.op == 'mk' or True:
            # Eigen element access m(i, j), function objects
            if n.get('const') or cls.startswith('Eigen'):
                p = mk('at', stripv(o), *[stripv(a) for a in args]) if len(args) != 1 else at(stripv(o), args[0])
                return p if lv else (s.read(st, p) if len(args) == 1 else s.vers(st, p, o))
            return opaque(s, n, st, fr, lv, ext, o=o, args=args)
    # ---- smart pointers, optional
    if cls.startswith(ip.SMART) or ext in ('std::operator==', 'std::operator!=') and False:
        if name in ('get', 'operator*', 'operator->', 'value', 'lock'):
            v = rd(s, st, o) if o.op != 'loc' else s.read(st, o)
            return v
        if name in ('operator bool', 'has_value'):
            return not_(eq(rd(s, st, o), NULL))
        if name == 'expired':
            return eq(rd(s, st, o), NULL)
        if name in ('reset', 'operator='):
            p = opath(s, n, st, fr, o)
            v = s.ev(A[0], st, fr) if A else NULL
            s.assign(p, v, st, fr, n, x='=')
            return p
        if name == 'release':
            v = rd(s, st, o)
            p = opath(s, n, st, fr, o)
            s.assign(p, NULL, st, fr, n)
            return v
        if name == 'swap':
            return swap(s, opath(s, n, st, fr, o), s.ev(A[0], st, fr, lv=True), st, fr, n)
        if name == 'emplace':
            p = opath(s, n, st, fr, o)
            args = [s.ev(a, st, fr) for a in A]
            v = args[0] if len(args) == 1 else mk('mk', 'emplaced', *args)
            s.assign(p, v, st, fr, n)
            return p
        if name == 'value_or':
            v = rd(s, st, o)
            return ite(not_(eq(v, NULL)), v, s.ev(A[0], st, fr))
        if name == 'use_count':
            return s.vers(st, mk('call', 'use_count', o), o)
    if ext.startswith('std::function'):
        if name == 'operator bool':
            return not_(eq(rd(s, st, o), NULL))
        if name == 'operator=':
            p = opath(s, n, st, fr, o)
            v = s.ev(A[0], st, fr)
            s.assign(p, v, st, fr, n)
            return p
        if name == 'swap':
            return swap(s, opath(s, n, st, fr, o), s.ev(A[0], st, fr, lv=True), st, fr, n)
    # ---- iterators
    if ('iterator' in cls or 'Iterator' in cls):
        return iterator(s, n, st, fr, lv, ext, name, o)
    # ---- free comparison / arithmetic operators
    if op in ('==', '!=', '<', '>', '<=', '>='):
        xs = ([o] if o is not None else []) + [s.ev(a, st, fr, lv=True) for a in A]
        if len(xs) == 2:
            a, b = [rd(s, st, x) for x in xs]
            return found(s, st, s.binop(op, a, b, None, fr), a, b)
    if op in ('+', '-', '*', '/', '%', '|', '&', '^') and ext.startswith(('std::', 'Eigen::', 'absl::', 'operator')) and \
            op not in ('<<', '>>'):
        xs = ([o] if o is not None else []) + [s.ev(a, st, fr, lv=True) for a in A]
        xs = [rd(s, st, x) for x in xs]
        if len(xs) == 2:
            if 'basic_string' in fr.T[n['t']]:
                return mk('op', 'cat', *xs)
            if cls.startswith('Eigen') or 'Eigen' in ext:
                if op == '*':
                    ts = [fr.T[x['t']].replace('const ', '').rstrip('& ') for x in ([n['o']] if n.get('o') else []) + A]
                    if not any(t in SCALARS for t in ts):
                        return mk('op', '@', *xs)    # matrix, quaternion, transform product: not commutative
                    for t, x in zip(ts, xs):
                        if t in SCALARS:
                            canon_mod.scalar(x)
                if op == '/' and fr.T[A[-1]['t']].replace('const ', '').rstrip('& ') in SCALARS:
                    canon_mod.scalar(xs[1])
                if op == '/' and int_eigen(n, A, fr):
                    return mk('op', '//', *xs)
                return arith(op, xs[0], xs[1], False)
            return mk('op', op, *xs) if not chrono(ext) else arith(op, xs[0], xs[1], False)
        if len(xs) == 1:
            if op == '-':
                return mk('op', 'neg', xs[0])
            return xs[0]
    if op in ('+=', '-=', '*=', '/=', '|=', '&=') and o is not None and not ext.startswith('std::basic_string'):
        v = s.ev(A[0], st, fr)
        p = opath(s, n, st, fr, o)
        old = s.read(st, p)
        t = fr.T[A[0]['t']].replace('const ', '').rstrip('& ') if isinstance(A[0].get('t'), int) and A[0]['t'] >= 0 else ''
        eig = cls.startswith('Eigen') or 'Eigen' in ext
        if op == '*=' and eig and t not in SCALARS:
            new = mk('op', '@', old, v)
        elif op == '/=' and eig and int_eigen(n, A, fr):
            new = mk('op', '//', old, v)
        elif eig or chrono(ext):
            new = arith(op[:-1], old, v, False)
        else:
            new = mk('op', op[:-1], old, v)
        s.assign(p, new, st, fr, n, x=op)
        return p
    if op in ('++', '--') and o is not None:
        p = opath(s, n, st, fr, o)
        old = s.read(st, p)
        new = arith('+', old, I(1 if op == '++' else -1), True)
        s.assign(p, new, st, fr, n)
        return new if not A else old
    if op == '=' and o is not None:
        v = s.ev(A[0], st, fr)
        p = opath(s, n, st, fr, o)
        t = fr.T[n['o']['t']] if isinstance(n['o'].get('t'), int) and n['o']['t'] >= 0 else ''
        if p.op == 'loc' and s.copyable(t) and v.op not in ('obj', 'lam'):
            # a local object takes a copy of the value
            nv = mk('copy', v, s.nseq())
            s.copy_store(st, v, nv)
            v = nv
        s.assign(p, v, st, fr, n, x='=')
        return p
    # ---- containers
    if o is not None and is_container_cls(ext):
        r = container(s, n, st, fr, lv, ext, name, o)
        if r is not None:
            return r
    # ---- algorithms
    if o is None and ext.startswith(('std::', 'absl::')):
        r = algorithm(s, n, st, fr, lv, ext, name)
        if r is not None:
            return r
    # ---- Eigen / numeric library: pure functions of their operands
    if cls.startswith('Eigen') or ext.startswith('Eigen'):
        if o is not None and name in ('x', 'y', 'z', 'w', 'coeffRef', 'operator[]', 'operator()', 'coeff') and \
                len(A) <= 1:
            k = {'x': I(0), 'y': I(1), 'z': I(2), 'w': I(3)}.get(name)
            if k is None:
                k = s.ev(A[0], st, fr) if A else I(0)
            p = at(stripv(o), k)
            return p if lv else s.read(st, p)
        args = [rd(s, st, s.ev(a, st, fr, lv=True)) for a in A]
        if o is not None and not n.get('const') and name in ('setZero', 'setIdentity', 'setConstant', 'normalize',
                                                             'resize', 'conservativeResize', 'extend', 'setEmpty', 'setOnes',
                                                             'setRandom', 'fill', 'swap', 'clamp', 'translate',
                                                             'rotate', 'setUnit', 'compute', 'noalias', 'setLinSpaced'):
            s.mutate(st, o)
            s.emit(st, fr, 'mutate', line, name=name, obj=stripv(o), args=args)
            return o
        if o is not None:
            if op == ',' or op == '<<':
                s.mutate(st, root_of(o))
                s.emit(st, fr, 'mutate', line, name='operator' + op, obj=stripv(o), args=args)
                return o
            return mk('call', short(name), rd(s, st, o), *args)
        return mk('call', ext.split('::')[-1] if not cls.startswith('Eigen') else short(ext), VOID, *args)
    if ext in ('std::min', 'std::max') and len(A) == 2:
        a, b = [rd(s, st, s.ev(x, st, fr, lv=True)) for x in A]
        if const(a) and const(b):
            f = min if name == 'min' else max
            return a if f(const(a)[1], const(b)[1]) == const(a)[1] else b
        if a.id > b.id:
            a, b = b, a
        return mk('op', name, a, b)
    if ext.startswith('std::numeric_limits'):
        t = n['qn'].split('<')[-1].split('>')[0] if '<' in n['qn'] else ''
        return mk('lim', name, re.sub(r'^.*numeric_limits<([^>]*)>.*$', r'\1', n['qn']))
    if ext.startswith('std::chrono') and name == 'count':
        return mk('call', 'count', rd(s, st, o))
    return opaque(s, n, st, fr, lv, ext, o=o)


def root_of(o):
    return stripv(o)



def int_eigen(n, A, fr):
    x = n.get('o') or A[0]
    t = fr.T[x['t']] if isinstance(x.get('t'), int) and x['t'] >= 0 else ''
    return bool(re.search(r'(Array|Matrix)<int\b', t)) and not re.search(r'(Array|Matrix)<(float|double)\b', t)


SCALARS = ('float', 'double', 'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned char', 'T')


def chrono(ext):
    return 'chrono' in ext


def is_pairish(v, a, fr):
    t = fr.T[a['t']] if isinstance(a.get('t'), int) and a['t'] >= 0 else ''
    return 'std::pair' in t.split('<')[0] or v.op == 'struct' and v.a[0] == 'std::pair'


def swap(s, p, q, st, fr, n):
    a, b = s.read(st, p), s.read(st, q)
    if stripv(p).op in ('obj', 'copy', 'loc'):      # what becomes of a local object comes last
        p, q, a, b = q, p, b, a
    s.assign(p, b, st, fr, n, x='swap')
    s.assign(q, a, st, fr, n, x='swap')
    return VOID


def make_object(s, n, st, fr):
    ta = n.get('ta') or []
    t = fr.T[ta[0]] if ta and isinstance(ta[0], int) else '?'
    args = [s.ev(a, st, fr, lv=True) for a in n['args']]
    if not st.alive:
        return VOID
    rec = s.p.records.get(t)
    # copy construction of the same class
    if len(n['args']) == 1:
        at0 = n['args'][0]
        t0 = fr.T[at0['t']] if isinstance(at0.get('t'), int) and at0['t'] >= 0 else ''
        if t0.replace('const ', '').rstrip('& ') == t.replace('const ', ''):
            return s.fresh_copy(rd(s, st, args[0]), t, st, fr, n)
    args = [rd(s, st, a) for a in args]
    o = mk('obj', t, s.nseq())
    s.emit(st, fr, 'new', n['l'], name=short(t), obj=o, args=args, ret=o)
    if rec is not None and not s.is_opaque(None, rec['sqn'] + '::'):
        cands = [s.p.funcs[m['id']] for m in rec['methods']
                 if m['id'] in s.p.funcs and s.p.funcs[m['id']]['kind'] == 'ctor' and
                 s.p.funcs[m['id']].get('body') and not s.p.funcs[m['id']].get('cpctor')]
        exact = [c for c in cands if len(c['params']) == len(args)]
        if not exact:
            exact = [c for c in cands if len(c['params']) >= len(args)]
        if len(exact) == 1 and s.can_inline(exact[0]):
            s.inline(exact[0], o, args, st, fr, n['l'], cls=t)
    return o


# -------------------------------------------------------------------- locks
def locks(s, n, st, fr, ext, name, o):
    if ext in ('absl::Mutex::Lock', 'absl::Mutex::WriterLock', 'absl::Mutex::ReaderLock', 'std::mutex::lock'):
        m = s.lockpath(o)
        s.emit(st, fr, 'lock', n['l'], obj=m)
        st.locks = st.locks + (m,)
        s.regionc += 1
        st.regions = st.regions + ((m, s.regionc),)
        fr.manual = fr.manual | {m}
        if m.op == 'f':
            s.on_acquire(st, m.a[0], m)
        return VOID
    if ext in ('absl::Mutex::Unlock', 'absl::Mutex::WriterUnlock', 'absl::Mutex::ReaderUnlock', 'std::mutex::unlock'):
        m = s.lockpath(o)
        s.emit(st, fr, 'unlock', n['l'], obj=m)
        st.locks = tuple(l for l in st.locks if l is not m)
        st.regions = tuple(r for r in st.regions if r[0] is not m)
        return VOID
    if ext == 'absl::ReleasableMutexLock::Release' or ext.startswith('std::unique_lock::unlock'):
        v = o
        m = v.a[0] if v.op == 'lockvar' else None
        if m is not None:
            s.emit(st, fr, 'unlock', n['l'], obj=m)
            st.locks = tuple(l for l in st.locks if l is not m)
            st.regions = tuple(r for r in st.regions if r[0] is not m)
        return VOID
    if ext in ('absl::Mutex::AssertHeld', 'absl::Mutex::AssertReaderHeld'):
        return VOID
    if ext in ('absl::Mutex::Await', 'absl::Mutex::AwaitWithTimeout', 'absl::Mutex::AwaitWithDeadline',
               'absl::Mutex::LockWhen'):
        m = s.lockpath(o)
        cv = s.ev(n['args'][0], st, fr)
        if name == 'LockWhen':
            st.locks = st.locks + (m,)
            s.regionc += 1
            st.regions = st.regions + ((m, s.regionc),)
        if m.op == 'f':
            s.on_acquire(st, m.a[0], m)
        pred = cv.a[1] if cv.op == 'mk' and len(cv.a) > 1 else VOID
        if pred.op == 'loc':
            pred = s.read(st, pred)
        val = VOID
        if pred.op == 'lam':
            val = s.invoke_lambda(pred, list(cv.a[2:]), st, fr)
        elif len(cv.a) > 2 and pred.op == 'fnref':
            val = invoke(s, pred, list(cv.a[2:]), st, fr, n)
        tmo = len(n['args']) > 1
        s.emit(st, fr, 'await', n['l'], name=name, obj=m, val=val)
        if not tmo:
            if val is not VOID:
                s.add_pc(st, val, 'await')
            return VOID
        s.ev(n['args'][1], st, fr)
        return val if val is not VOID else mk('callx', ext, m, s.nseq())
    return None


# -------------------------------------------------------------------- iterators
def found(s, st, r, a, b):
    """Comparing an iterator with the end is a look at the container as it is now."""
    for x, y in ((a, b), (b, a)):
        if x.op in ('find', 'begin') and y.op == 'end':
            return s.vers(st, r, x.a[0])
    return r


def iterator(s, n, st, fr, lv, ext, name, o):
    op = n.get('op')
    cur = s.read(st, o) if o.op == 'loc' or n.get('o') and n['o'].get('k') == 'mem' and o.op == 'f' else o
    if name in ('operator*', 'operator->', 'base'):
        v = cur
        return deref_it(v, fr.T[n['t']] if isinstance(n.get('t'), int) and n['t'] >= 0 else '')
    if op in ('++', '--'):
        p = opath(s, n, st, fr, o)
        old = s.read(st, p)
        new = arith('+', old, I(1 if op == '++' else -1), True)
        s.assign(p, new, st, fr, n)
        return old if n['args'] else new
    if op in ('==', '!='):
        a = cur
        b = s.ev(n['args'][0], st, fr)
        return found(s, st, s.binop(op, a, b, None, fr), a, b)
    if op in ('+', '-'):
        b = s.ev(n['args'][0], st, fr)
        return arith(op, cur, b, True)
    if op in ('+=', '-='):
        p = opath(s, n, st, fr, o)
        old = s.read(st, p)
        b = s.ev(n['args'][0], st, fr)
        s.assign(p, arith(op[0], old, b, True), st, fr, n)
        return p
    if op == '=':
        v = s.ev(n['args'][0], st, fr)
        p = opath(s, n, st, fr, o)
        s.assign(p, v, st, fr, n)
        return p
    if op == '[]':
        return at(o, s.ev(n['args'][0], st, fr))
    return opaque(s, n, st, fr, lv, ext, o=o)


SCALARS = {'int', 'unsigned int', 'long', 'unsigned long', 'char', 'unsigned char', 'short', 'unsigned short', 'float', 'double'}


def deref_it(v, t=''):
    w = stripv(v)
    if w.op == 'ite':
        return ite(w.a[0], deref_it(w.a[1], t), deref_it(w.a[2], t))
    if w.op == 'lin' and len(w.a[1]) == 1 and w.a[1][0][1] == 1:
        b = w.a[1][0][0]
        if b.op == 'begin':
            return mk('at', b.a[0], I(w.a[0]))
        if b.op != 'end' and t.replace('const ', '').rstrip(' &') in SCALARS:
            return mk('at', b, I(w.a[0]))
    elif w.op in ('f', 'param', 'loc', 'v') and t.replace('const ', '').rstrip(' &') in SCALARS:
        return mk('at', w, I(0))
    if w.op == 'begin':
        return mk('at', w.a[0], I(0))
    if w.op == 'lin' and len(w.a[1]) == 1 and w.a[1][0][0].op == 'end' and w.a[1][0][1] == 1 and w.a[0] == -1:
        return mk('last', w.a[1][0][0].a[0])
    return v


# -------------------------------------------------------------------- containers
def container(s, n, st, fr, lv, ext, name, o):
    A = n['args']
    line = n['l']
    op = n.get('op')
    isstr = 'basic_string' in ext
    P = stripv(o)
    ismapid = ext.startswith(('mapping::MapById', 'sensor::MapByTime', 'cartographer::mapping::MapBy'))
    if name in ('size', 'length', 'empty') and not A:
        w = stripv(st.store.get(P, P))
        n = size(w) if w is not P and w.op in ('param', 'f') else s.vers(st, size(P), P)
        return n if name != 'empty' else eq(n, I(0))
    if name in ('operator[]', 'at', 'Get', 'Mutable') or op == '[]':
        i = s.ev(A[0], st, fr)
        p = at(P, i)
        if name == 'operator[]' and not n.get('const') and ('map' in ext):
            s.emit(st, fr, 'touch', line, obj=p, name='operator[]')
        return p if lv else s.read(st, p)
    if name in ('front', 'top') and not A:
        p = at(P, I(0))
        return p if lv else s.read(st, p)
    if name == 'back' and not A:
        p = mk('last', P)
        w = st.store.get(p)
        if w is not None and w.op == 'obj':
            return w            # the element just made in place
        return p if lv else s.read(st, p)
    if name in BEGIN and not A:
        return s.vers(st, begin(P), P) if False else begin(P)
    if name in END and not A:
        return end(P)
    if name in ('rbegin', 'crbegin'):
        return mk('rbegin', P)
    if name in ('rend', 'crend'):
        return mk('rend', P)
    if name == 'BeginOfTrajectory':
        return begin(mk('traj', P, s.ev(A[0], st, fr)))
    if name == 'EndOfTrajectory':
        return end(mk('traj', P, s.ev(A[0], st, fr)))
    if name == 'trajectory':
        return mk('traj', P, s.ev(A[0], st, fr))
    if name == 'SizeOfTrajectoryOrZero':
        t = mk('traj', P, s.ev(A[0], st, fr))
        return s.vers(st, size(t), P)
    if name == 'trajectory_ids':
        return mk('trajs', P)
    if name == 'HasTrajectory' and ismapid:
        return s.vers(st, has(mk('trajs', P), s.ev(A[0], st, fr)), P)
    if name == 'find' and not isstr:
        k = s.ev(A[0], st, fr)
        return mk('find', P, k)
    if name in ('contains', 'Contains') and (not isstr) and len(A) == 1:
        return s.vers(st, has(P, s.ev(A[0], st, fr)), P)
    if name == 'count' and len(A) == 1:
        return s.vers(st, mk('count', P, s.ev(A[0], st, fr)), P)
    if name in ('reserve', 'Reserve', 'capacity', 'get_allocator', 'max_size'):
        for a in A:
            s.ev(a, st, fr)
        return VOID
    if name in ('data', 'c_str') and not A:
        return P
    if name in GROW or name in ('operator+=', 'append') and isstr or ismapid and name in ('Insert', 'Append'):
        args = [s.ev(a, st, fr) for a in A]
        if not st.alive:
            return VOID
        if name in ('insert', 'emplace_hint') and len(args) == 3:
            # insert(pos, first, last)
            if stripv(args[1]).op == 'begin' and stripv(args[2]).op == 'end':
                src = stripv(args[1]).a[0]
                return append_range(s, P, src, st, fr, line)
        if name == 'append' and isstr or name == 'operator+=':
            s.mutate(st, P)
            s.emit(st, fr, 'append', line, obj=P, val=args[0] if len(args) == 1 else mk('mk', 'str', *args), x=name)
            return o
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') and ('map' in ext or 'set' in ext or
                                                                                'hash' in ext):
            key, v = None, None
            if len(args) == 1:
                v = args[0]
                key = F(v, 'first') if 'map' in cont_type(n, fr, ext) else v
                v = F(v, 'second') if 'map' in cont_type(n, fr, ext) else v
            elif len(args) == 2 and args[0].op in ('begin', 'end', 'find') and name == 'insert' and \
                    stripv(args[1]).op != 'end':
                v = args[1]
                key = F(v, 'first') if 'map' in cont_type(n, fr, ext) else v
            elif len(args) == 2 and args[0].op == 'begin' and stripv(args[1]).op == 'end':
                return append_range(s, P, args[0].a[0], st, fr, line)
            elif len(args) >= 2:
                if args[0].op == 'mk' and 'piecewise' in show(args[0]) or 'piecewise' in show(args[0]):
                    key, v = piece(args[1]), piece(args[2])
                else:
                    key = args[0]
                    v = args[1] if len(args) == 2 else mk('mk', 'emplaced', *args[1:])
            else:
                key = v = mk('mk', 'emplaced')
            was = s.vers(st, has(P, key), P)
            old = s.read(st, at(P, key))
            s.mutate(st, P)
            s.emit(st, fr, 'append', line, obj=P, val=v, args=[key], name=name, x='key')
            pth = at(P, key)
            if was is FALSE or name == 'insert_or_assign' or 'map' not in cont_type(n, fr, ext):
                st.store[pth] = v
            else:
                st.store[pth] = ite(was, old, v)   # an existing entry is kept
            st.mut[pth] = s.nseq()
            # result: pair<iterator, inserted>
            return struct('std::pair', [('first', mk('find', P, key)), ('second', not_(was))])
        v = emplaced(s, n, args, st, fr, ext)
        s.mutate(st, P)
        s.emit(st, fr, 'append', line, obj=P, val=v, args=args, name=name)
        if name == 'emplace_back' and not A and v.op == 'obj' and v.a[0] in s.p.records:
            st.store[mk('last', P)] = v
            st.mut[mk('last', P)] = s.nseq()
        if ismapid and name == 'Append':
            return mk('callx', 'Append', P, *args, s.nseq())
        if name in ('emplace_back', 'emplace_front', 'emplace'):
            return mk('last', P) if v.op not in ('obj',) else v
        return VOID
    if name in ('Add',) and 'Repeated' in ext:
        args = [s.ev(a, st, fr) for a in A]
        s.mutate(st, P)
        e = args[0] if args else mk('obj', fr.T[n['t']].rstrip('* '), s.nseq())
        s.emit(st, fr, 'append', line, obj=P, val=e, x='pb')
        return e
    if name in SHRINK or (ismapid and name in ('Trim',)) or (name in ('Clear',) and 'Repeated' in ext) \
            or (name == 'Swap' and 'Repeated' in ext):
        args = [s.ev(a, st, fr) for a in A]
        if not st.alive:
            return VOID
        if name == 'swap':
            return swap(s, opath(s, n, st, fr, o), args[0], st, fr, n)
        if name == 'erase' and len(args) == 1 and strip(args[0]) is begin(stripv(P)) and 'std::deque' in ext:
            name, args = 'pop_front', []
            s.mutate(st, P)
            s.emit(st, fr, 'mutate', line, name=name, obj=P, args=args)
            return begin(P)
        s.mutate(st, P)
        s.emit(st, fr, 'mutate', line, name=name, obj=P, args=args)
        if name == 'erase':
            return arith('+', args[0], I(1), True) if args and args[0].op in ('phi', 'at') and False else \
                mk('callx', 'erase', P, *args, s.nseq())
        return VOID
    if name in ('substr', 'compare', 'find_first_of', 'find_last_of', 'rfind', 'find', 'lower_bound', 'upper_bound',
                'equal_range', 'Get', 'IsEmpty', 'GetReference'):
        args = [s.ev(a, st, fr) for a in A]
        return s.vers(st, mk('call', name, P, *args), P)
    return None


def cont_type(n, fr, ext):
    o = n.get('o') or {}
    t = fr.T[o['t']] if isinstance(o.get('t'), int) and o['t'] >= 0 else ext
    t = t.replace('const ', '')
    return t.split('<')[0]


def piece(t):
    if t.op == 'struct' and t.a[0] == 'std::tuple':
        fs = t.a[1]
        if len(fs) == 1:
            return fs[0][1]
        return mk('mk', 'emplaced', *[v for _, v in fs])
    return t


def emplaced(s, n, args, st, fr, ext):
    if len(args) == 1:
        return args[0]
    o = n.get('o') or {}
    t = fr.T[o['t']] if isinstance(o.get('t'), int) and o['t'] >= 0 else ''
    m = re.match(r'(?:const )?std::(?:vector|deque|list)<(.*), std::allocator<', t)
    if m and n['n'].startswith('emplace'):
        et = m.group(1)
        if et.startswith('std::pair<') and len(args) == 2:
            return struct('std::pair', [('first', args[0]), ('second', args[1])])
        rec = s.p.records.get(et)
        if rec:
            cands = [s.p.funcs[x['id']] for x in rec['methods'] if x['id'] in s.p.funcs and
                     s.p.funcs[x['id']]['kind'] == 'ctor' and s.p.funcs[x['id']].get('body') and
                     len(s.p.funcs[x['id']]['params']) == len(args) and not s.p.funcs[x['id']].get('cpctor')]
            if len(cands) == 1:
                node = {'cls': rec['qn'], 'f': cands[0]['id'], 'args': [], 'l': n['l'], 'k': 'ctor', 't': None}
                return s.construct(node, st, fr, t=et, args=args)
        if not args:
            ob = mk('obj', et, s.nseq())
            return ob
        return mk('mk', short(et), *args)
    if not args:
        return mk('obj', 'elem', s.nseq())
    return mk('mk', 'emplaced', *args)


def append_range(s, P, src, st, fr, line):
    L = ip.Loop('range', line, fr.file)
    s.loops[L.id] = L
    L.C = src
    L.lo, L.hi, L.step = I(0), size(stripv(src)), 1
    saved = s.loopstack
    s.loopstack = saved + (L,)
    s.emit(st, fr, 'append', line, obj=P, val=at(src, L.idx))
    s.loopstack = saved
    s.mutate(st, P)
    return VOID


# -------------------------------------------------------------------- algorithms
def algorithm(s, n, st, fr, lv, ext, name):
    A = n['args']
    line = n['l']

    def rng(a, b):
        a, b = stripv(a), stripv(b)
        if a.op == 'begin' and b.op == 'end' and a.a[0] is b.a[0]:
            return a.a[0]
        return None

    if ext in ('std::prev', 'std::next'):
        v = s.ev(A[0], st, fr)
        k = s.ev(A[1], st, fr) if len(A) > 1 else I(1)
        return arith('-' if name == 'prev' else '+', v, k, True)
    if ext in ('std::begin', 'std::cbegin'):
        return begin(stripv(s.ev(A[0], st, fr, lv=True)))
    if ext in ('std::end', 'std::cend'):
        return end(stripv(s.ev(A[0], st, fr, lv=True)))
    if ext == 'std::distance':
        a, b = [s.ev(x, st, fr) for x in A]
        C = rng(a, b)
        if C is not None:
            return s.vers(st, size(C), C)
        return arith('-', b, a, True)
    if ext == 'std::swap':
        return swap(s, s.path_of(A[0], st, fr), s.path_of(A[1], st, fr), st, fr, n)
    if ext in ('std::lower_bound', 'std::upper_bound', 'std::partition_point', 'std::find', 'std::find_if_not', 'std::count'):
        C = rng(s.ev(A[0], st, fr), s.ev(A[1], st, fr))
        if C is not None:
            key = rd(s, st, s.ev(A[2], st, fr, lv=True))
            cmp_ = s.ev(A[3], st, fr) if len(A) > 3 else None
            holder = {}

            def body(x):
                L = s.loopstack[-1]
                el = at(C, L.idx)
                if name in ('partition_point', 'find_if_not'):
                    v = not_(invoke(s, key, [el], x, fr, n))
                elif name in ('find', 'count'):
                    v = eq(rd(s, x, el), key)
                elif name == 'lower_bound':
                    v = not_(invoke(s, cmp_, [el, key], x, fr, n) if cmp_ is not None else lt(rd(s, x, el), key))
                else:
                    v = invoke(s, cmp_, [key, el], x, fr, n) if cmp_ is not None else lt(key, rd(s, x, el))
                holder['v'] = rewrite(strip(v), lambda y: mk('elem') if y is strip(el) else None, {})
            s.range_loop(line, C, None, st, fr, body, name='alg')
            if 'v' in holder:
                r = s.vers(st, mk('first', C, holder['v']), C)
                if name == 'count':
                    return ite(eq(r, end(C)), I(0), arith('+', size(mk('call', 'more', C, holder['v'])), I(1), True))
                return r
    if ext in ('std::for_each', 'std::any_of', 'std::all_of', 'std::none_of', 'std::count_if', 'std::find_if',
               'absl::c_any_of', 'absl::c_all_of', 'absl::c_none_of', 'absl::c_for_each', 'absl::c_count_if',
               'absl::c_find_if'):
        if ext.startswith('absl'):
            C = stripv(s.ev(A[0], st, fr, lv=True))
            f = s.ev(A[1], st, fr)
        else:
            C = rng(s.ev(A[0], st, fr), s.ev(A[1], st, fr))
            f = s.ev(A[2], st, fr)
        if C is None:
            return None
        holder = {}

        def body(x):
            L = s.loopstack[-1]
            holder['v'] = invoke(s, f, [at(C, L.idx)], x, fr, n)
            holder['L'] = L
        L = s.range_loop(line, C, None, st, fr, body, name='alg')
        v = holder.get('v', VOID)
        nm = name.replace('c_', '')
        if nm == 'any_of':
            return mk('exists', L.id, C, v)
        if nm == 'none_of':
            return not_(mk('exists', L.id, C, v))
        if nm == 'all_of':
            return not_(mk('exists', L.id, C, not_(v)))
        if nm == 'count_if':
            return mk('countif', L.id, C, v)
        if nm == 'find_if':
            el = strip(at(C, L.idx))
            return mk('first', C, rewrite(strip(v), lambda y: mk('elem') if y is el else None, {}))
        return f
    if ext in ('std::transform', 'std::copy', 'std::copy_if'):
        a, b = s.ev(A[0], st, fr), s.ev(A[1], st, fr)
        C = rng(a, b)
        dst = s.ev(A[2], st, fr)
        f = s.ev(A[3], st, fr) if len(A) > 3 else None
        if C is None:
            return None

        def body(x):
            L = s.loopstack[-1]
            v = at(C, L.idx)
            if name == 'transform':
                v = invoke(s, f, [v], x, fr, n)
            elif name == 'copy_if':
                c = invoke(s, f, [v], x, fr, n)
                s.add_pc(x, c)
            if dst.op == 'mk' and dst.a[0] == 'back_inserter':
                s.mutate(x, dst.a[1])
                s.emit(x, fr, 'append', line, obj=dst.a[1], val=v)
            else:
                d = stripv(dst)
                p = at(d.a[0], L.idx) if d.op == 'begin' else mk('at', d, L.idx)
                s.assign(p, v, x, fr, n)
        s.range_loop(line, C, None, st, fr, body, name='alg')
        return mk('callx', ext, VOID, s.nseq())
    if ext in ('std::set_difference', 'std::set_intersection') and len(A) == 5:
        v = [s.ev(a, st, fr) for a in A]
        C, B, dst = rng(v[0], v[1]), rng(v[2], v[3]), v[4]
        if C is not None and B is not None and dst.op == 'mk' and dst.a[0] == 'back_inserter':
            def body(x):
                el = at(C, s.loopstack[-1].idx)
                c = s.vers(x, has(B, rd(s, x, el)), B)
                s.add_pc(x, c if name == 'set_intersection' else not_(c))
                s.mutate(x, dst.a[1])
                s.emit(x, fr, 'append', line, obj=dst.a[1], val=rd(s, x, el), x={'sorted': (C, B)})
            s.range_loop(line, C, None, st, fr, body, name='alg')
            return mk('callx', ext, VOID, s.nseq())
    if ext in ('std::back_inserter', 'std::inserter'):
        return mk('mk', 'back_inserter', stripv(s.ev(A[0], st, fr, lv=True)))
    if ext in ('std::sort', 'std::stable_sort', 'std::reverse', 'std::shuffle', 'std::fill', 'std::remove_if',
               'std::unique', 'std::remove', 'std::iota', 'std::nth_element', 'std::partial_sort', 'std::push_heap',
               'std::pop_heap', 'std::make_heap', 'std::rotate', 'std::partition'):
        args = [s.ev(a, st, fr) for a in A]
        c0 = stripv(args[0])
        if c0.op == 'begin':
            s.mutate(st, c0.a[0])
        r = mk('callx', ext, VOID, *args, s.nseq())
        s.emit(st, fr, 'call', line, name=ext, obj=c0.a[0] if c0.op == 'begin' else VOID, args=args, ret=r, x={})
        return r
    if ext in ('std::abs', 'std::sqrt', 'std::floor', 'std::ceil', 'std::round', 'std::lround', 'std::isnan',
               'std::isfinite', 'std::pow', 'std::exp', 'std::log', 'std::sin', 'std::cos', 'std::atan2',
               'std::to_string', 'std::fabs', 'std::hypot', 'std::tan', 'std::asin', 'std::acos', 'std::fmod'):
        args = [rd(s, st, s.ev(a, st, fr, lv=True)) for a in A]
        return mk('call', ext, VOID, *args)
    return None


def has_call(n, memo={}):
    r = memo.get(id(n))
    if r is not None and r[0] is n:
        return r[1]
    v = False
    if isinstance(n, dict):
        v = n.get('k') in ('call', 'new', 'ctor', 'lambda') or any(has_call(x) for x in n.values())
    elif isinstance(n, list):
        v = any(has_call(x) for x in n)
    if isinstance(n, (dict, list)):
        memo[id(n)] = (n, v)
    return v


def opath(s, n, st, fr, o):
    """Location denoted by the object expression; an expression with calls is not evaluated a second time."""
    if o is not None and has_call(n['o']):
        return o
    if n.get('a') and n['o'].get('k') == 'ref':
        v = s.ev(n['o'], st, fr)        # pointer->member(): what the pointer points to
        if v.op not in ('null', 'void'):
            return v
    return s.path_of(n['o'], st, fr)
