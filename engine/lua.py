"""Abstract execution of the Lua stack: which value each stack query of a function sees, and the net stack change."""
import copy
from terms import *
from terms import mk, I, VOID, strip, rewrite, entails, not_, and_, TRUE, Term

REG = -1001000
NONE = mk('call', 'lua::nothing', VOID)


def T(name, *a):
    return mk('call', 'lua::' + name, VOID, *a)


QUERY = {'lua_type': 'type', 'lua_isnumber': 'isnumber', 'lua_isstring': 'isstring', 'lua_tonumberx': 'tonumber', 'lua_tointegerx': 'tointeger',
         'lua_toboolean': 'toboolean', 'lua_tolstring': 'tostring', 'lua_touserdata': 'touserdata', 'lua_isinteger': 'isinteger', 'lua_rawlen': 'len'}


class Path:
    def __init__(self):
        self.st, self.facts, self.bad, self.lines = {}, [], [], []

    def copy(self):
        p = Path()
        p.st = {k: list(v) for k, v in self.st.items()}
        p.facts, p.bad, p.lines = list(self.facts), list(self.bad), list(self.lines)
        return p


class Machine:
    def __init__(self, s, args=None, pops=None):
        """args: number of values on the stack of a Lua C function when it is entered (None: an unknown stack).
        pops: {opaque function: number of values it takes from the stack of this.L_}"""
        self.s, self.args, self.map, self.pops = s, args, {}, pops or {}
        self.returned, self.looping = [], []
        self.run()

    def sub(self, t):
        return rewrite(strip(t), lambda x: self.map.get(x)) if isinstance(t, Term) else t

    def stack(self, p, L):
        if L not in p.st:
            p.st[L] = [T('arg', I(i + 1)) for i in range(self.args)] if self.args is not None and L.op == 'param' else []
        return p.st[L]

    def pop(self, p, L):
        s = self.stack(p, L)
        if s:
            return s.pop()
        p.below = True
        d = p.st.setdefault(('under', L), [])
        d.append(1)
        return T('slot', I(-len(d)))

    def depth(self, p, L):
        return len(self.stack(p, L)) - len(p.st.get(('under', L), []))

    def slot(self, p, L, i):
        i = strip(i)
        if i.op == 'call' and i.a[0] == 'lua::top':      # an index remembered by lua_gettop
            k = i.a[2].a[0] - self.depth(p, L)
            return self.slot(p, L, I(-1 + k))
        if i.op == 'ite':
            return ite(i.a[0], self.slot(p, L, i.a[1]), self.slot(p, L, i.a[2]))
        if i.op != 'i':
            return T('unknown', i)
        i = i.a[0]
        if i == REG:
            return T('registry')
        s = self.stack(p, L)
        if i > 0:
            return s[i - 1] if self.args is not None and i <= len(s) else T('arg', I(i))
        if -i <= len(s):
            return s[i]
        return T('slot', I(i + len(s) - len(p.st.get(('under', L), []))))

    def put(self, p, L, i, v):
        i = strip(i)
        s = self.stack(p, L)
        if i.op == 'call' and i.a[0] == 'lua::top':
            i = I(-1 + i.a[2].a[0] - self.depth(p, L))
        if i.op == 'i' and i.a[0] < 0 and -i.a[0] <= len(s):
            s[i.a[0]] = v
        elif i.op == 'i' and i.a[0] < 0:
            p.st[('set', L, i.a[0] + len(s))] = v
        else:
            p.bad.append('unknown slot %s replaced' % i)

    def step(self, p, e):
        n = e.name.split('::')[-1]
        for _ in range(self.pops.get(n, 0)):
            self.pop(p, mk('f', mk('this'), 'L_'))
        if not n.startswith('lua'):
            return
        a = [self.sub(x) for x in e.args]
        L = a[0] if a else None
        push = lambda v, l=None: self.stack(p, l if l is not None else L).append(v)
        ret = None
        if n in QUERY:
            ret = T(QUERY[n], self.slot(p, L, a[1]))
        elif n == 'lua_gettop':
            ret = I(len(self.stack(p, L))) if self.args is not None and not p.st.get(('multi', L)) else T('top', I(self.depth(p, L)))
        elif n in ('lua_pushstring', 'lua_pushinteger', 'lua_pushlightuserdata', 'lua_pushlstring', 'lua_pushnumber', 'lua_pushboolean'):
            push(a[1])
        elif n == 'lua_pushnil':
            push(T('nil'))
        elif n == 'lua_pushvalue':
            push(self.slot(p, L, a[1]))
        elif n == 'lua_rawgeti':
            push(T('globals') if strip(a[2]) is I(2) and strip(a[1]) is I(REG) else T('get', self.slot(p, L, a[1]), a[2]))
        elif n == 'lua_getfield':
            push(T('get', self.slot(p, L, a[1]), a[2]))
        elif n in ('lua_rawget', 'lua_gettable'):
            b = self.slot(p, L, a[1])
            k = self.pop(p, L)
            push(T('get', b, k))
        elif n in ('lua_settable', 'lua_rawset'):
            b = self.slot(p, L, a[1])
            v, k = self.pop(p, L), self.pop(p, L)
            p.lines.append(('set', b, k, v))
        elif n == 'lua_settop':
            i = strip(a[1])
            if i.op == 'i' and i.a[0] < 0:
                for _ in range(-i.a[0] - 1):
                    self.pop(p, L)
            elif i.op == 'i' and self.args is not None:
                del self.stack(p, L)[i.a[0]:]
            else:
                p.bad.append('stack set to an unknown height at line %d' % e.line)
        elif n == 'lua_replace':
            i = strip(a[1])
            v = self.pop(p, L) if not (i.op == 'i' and i.a[0] < 0) else None
            if v is None:
                w = self.stack(p, L)[-1] if self.stack(p, L) else NONE
                self.put(p, L, i, w)
                self.pop(p, L)
            else:
                self.put(p, L, i, v)
        elif n in ('lua_callk', 'lua_pcallk'):
            na, nr = strip(a[1]), strip(a[2])
            xs = [self.pop(p, L) for _ in range(na.a[0] if na.op == 'i' else 0)][::-1]
            f = self.pop(p, L)
            if nr.op == 'i' and nr.a[0] >= 0:
                for i in range(nr.a[0]):
                    push(T('result', f, *xs))
            else:
                p.st[('multi', L)] = [f]
            ret = T('status', f, *xs)
        elif n in ('luaL_loadstring',):
            push(T('chunk', a[1]))
            ret = T('loading', a[1])
        elif n == 'luaL_loadbufferx':
            push(T('chunk', a[1]))
            ret = T('loading', a[1])
        elif n == 'lua_pushcclosure':
            push(a[1])
        elif n == 'lua_setglobal':
            v = self.pop(p, L)
            p.lines.append(('global', a[1], v))
        elif n == 'lua_newthread':
            ret = T('thread', I(e.seq))
            push(ret)
        elif n == 'luaL_ref':
            ret = T('ref', self.pop(p, L))
        elif n == 'lua_xmove':
            xs = [self.pop(p, L) for _ in range(strip(a[2]).a[0])][::-1]
            for x in xs:
                push(x, a[1])
        elif n == 'lua_next':
            k = self.pop(p, L)
            ret = T('next', k)
            p.pending = (ret, L)
        elif n in ('lua_close', 'luaL_openlibs', 'luaL_unref', 'luaL_newstate', 'lua_typename'):
            return
        else:
            p.bad.append('%s is not modelled (line %d)' % (n, e.line))
        if ret is not None and isinstance(e.ret, Term):
            old = self.map.get(strip(e.ret))
            if old is not None and old is not ret:
                ret = T('differs', old, ret)
            k = self.sub(e.ret)
            self.map[strip(e.ret)] = ret
            if k is not strip(e.ret) and k is not old:
                self.map[k] = ret

    def split(self, p, cond):
        """The path with the condition and the one without, as far as they are possible."""
        if entails(p.facts, cond):
            return p, None
        if entails(p.facts, not_(cond)):
            return None, p
        q = p.copy()
        for x in ('entry', 'pending'):
            if hasattr(p, x):
                setattr(q, x, getattr(p, x))
        p.facts = p.facts + [cond]
        q.facts = q.facts + [not_(cond)]
        return p, q

    def settle(self, r):
        if getattr(r, 'pending', None):
            t, L = r.pending
            if entails(r.facts, eq(t, I(0))):
                r.pending = None
            elif entails(r.facts, not_(eq(t, I(0)))):
                self.stack(r, L).extend([T('key', t), T('value', t)])
                r.pending = None

    def leave(self, paths, M):
        """The paths that leave the loop; the others go round again."""
        out = []
        for p in paths:
            brk = [and_(*[self.sub(f) for f, t in d]) for k, d, l in M.exits if k == 'break']
            rest = [p]
            for c in brk:
                nxt = []
                for r in rest:
                    a, b = self.split(r, c)
                    out += [a] if a else []
                    nxt += [b] if b else []
                rest = nxt
            if M.lo is not None:      # a range can be exhausted after any iteration
                out += [r.copy() for r in rest]
            elif M.cond is not None and not (strip(M.cond) is TRUE):
                nxt = []
                for r in rest:
                    a, b = self.split(r, self.sub(M.cond))
                    nxt += [a] if a else []
                    out += [b] if b else []
                rest = nxt
            for r in rest + out:
                self.settle(r)
            self.looping += rest
        return out

    def run(self):
        paths = [Path()]
        inside = []
        for e in self.s.effects:
            if e.kind not in ('call', 'return', 'fatal'):
                continue
            while inside and inside[-1] not in e.loops:
                paths = self.leave(paths, inside.pop())
            for l in e.loops:
                if l not in inside:
                    inside.append(l)
                    for p in paths:
                        p.entry = {k: self.depth(p, k) for k in p.st if not isinstance(k, tuple)}
            nxt = []
            for p in paths:
                a, b = self.split(p, and_(*[self.sub(x) for x in e.guard]))
                for r, go in ((a, True), (b, False)):
                    if r is None:
                        continue
                    self.settle(r)
                    if go and e.kind == 'call':
                        self.step(r, e)
                    if go and e.kind == 'fatal':
                        continue
                    if go and e.kind == 'return':
                        self.returned.append(r)
                        continue
                    nxt.append(r)
            paths = nxt
        while inside:
            paths = self.leave(paths, inside.pop())
        self.returned += paths

    def summary(self):
        """The function summary with stack queries replaced by the values they read."""
        t = copy.copy(self.s)
        t.effects = []
        for e in self.s.effects:
            c = copy.copy(e)
            c.val, c.obj = self.sub(strip(e.val) if isinstance(e.val, Term) else e.val), self.sub(e.obj)
            c.args = [self.sub(x) for x in e.args] if e.args is not None else e.args
            c.pc = tuple((self.sub(f), k) for f, k in e.pc)
            t.effects.append(c)
        return t

    def net(self):
        """{state: net change} of every returning path; problems."""
        out, bad = [], []
        for p in self.returned:
            bad += p.bad
            for L in p.st:
                if not isinstance(L, tuple):
                    out.append((L, self.depth(p, L)))
        for p in self.looping:
            bad += p.bad
            for L in p.st:
                if not isinstance(L, tuple) and self.depth(p, L) != getattr(p, 'entry', {}).get(L, 0):
                    bad.append('each iteration changes the stack height by %d' % (self.depth(p, L) - getattr(p, 'entry', {}).get(L, 0)))
        return out, bad
