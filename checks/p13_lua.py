#!/usr/bin/env python3
"""Configuration: what a Lua dictionary returns, what it refuses, and which file a name resolves to."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *
import lua


def nonnull(x):
    x = strip(x)
    if x.op == 'ite':
        return [z for y in x.a[1:] for z in nonnull(y)]
    return [] if x.op == 'null' or show(x) == 'null' else [x]


def check(ctx):
    p = ctx.program('common/lua_parameter_dictionary.cc', 'common/configuration_file_resolver.cc')
    K = 'common::LuaParameterDictionary::'

    def run(fn, args=None, opaque=(), net=0, rule='lua-stack-balanced'):
        f = fn if isinstance(fn, dict) else p.fn(fn)
        s = ctx.summarise(p, f, opaque=list(opaque))
        m = lua.Machine(s, args, {'PopDictionary': 1})
        ctx.ob('not-always-fatal', s.fn['sqn'], m.returned, 'no path returns')
        nets, bad = m.net()
        if net is not None:
            own = [d for L, d in nets if L.op != 'call' or not str(L.a[0]).startswith('lua::')]
            ctx.ob(rule, s.fn['sqn'], not bad and all(d == net for d in own), '; '.join(bad) or 'the Lua stack grows by %s' % own)
        return m, m.summary()

    def assert_(rule, t, cond, guard=None):
        ok = [e for e in t.effects if e.kind == 'assert' and (unify(pat(cond), E('assert').st(e.val), {}) is not None)]
        ctx.ob(rule, t.fn['sqn'], ok, 'not enforced: ' + cond)

    V = 'get(slot(-1), key)'
    hk = lambda e: e.kind in ('return', 'write', 'append') and not (e.kind != 'return' and isinstance(e.obj, Term) and strip(e.obj).op == 'f' and strip(strip(e.obj).a[0]).op == 'obj')
    for m, q, chk in (('GetString', 'tostring', 'isstring(%s) != 0'), ('GetDouble', 'tonumber', 'isnumber(%s) != 0'), ('GetInt', 'tointeger', 'isnumber(%s) != 0'),
                      ('GetBool', 'toboolean', 'type(%s) == 1')):
        _, t = run(K + m)
        v = '%s(%s)' % (q, V)
        if m == 'GetBool':
            v += ' != 0'
        ctx.spec_on('value-of-the-key', t, [E('return', val=v, guard='true', each=[], casts=True),
                                            E('write', 'this.reference_counts_[key]', '1 + this.reference_counts_[key]', guard='true', each=[])], rel=hk)
        assert_('missing-key-refused', t, 'type(%s) != 0' % V)
        assert_('wrong-type-refused', t, chk % V)
    _, t = run(K + 'GetNonNegativeInt')
    ctx.spec_on('value-of-the-key', t, [E('return', val='tointeger(%s)' % V, guard='true', each=[], casts=True),
                                        E('write', 'this.reference_counts_[key]', '1 + this.reference_counts_[key]', guard='true', each=[])], rel=hk)
    ctx.ob('negative-refused', t.fn['sqn'], [e for e in t.effects if e.kind == 'assert' and any(
        unify(pat(c), E('assert', casts=True).st(e.val), {}) is not None for c in ('-1 < tointeger(%s)' % V, '0 <= tointeger(%s)' % V))], 'a negative number is accepted')
    _, t = run(K + 'HasKey')
    ctx.spec_on('has-key', t, [E('return', val='type(%s) != 0' % V, guard='true', each=[])], rel=lambda e: e.kind in ('return', 'write', 'append'))
    # sub-dictionaries
    m, t = run(K + 'GetDictionary')
    ths = [e for e in t.effects if e.kind == 'write' and strip(e.obj).op == 'f' and strip(e.obj).a[1] == 'L_']
    ctx.ob('sub-dictionary', t.fn['sqn'], len(ths) == 1 and any(
        strip(x) is lua.T('get', lua.T('slot', I(-1)), strip(t.params[0])) for r in m.returned for x in r.st.get(strip(ths[0].val), [])[-1:]),
        'the dictionary does not hold the table of the key')
    ctx.spec_on('sub-dictionary', t, [
        E('write', '$d.L_', 'thread($n)', guard='true'), E('write', '$d.file_resolver_', 'this.file_resolver_', guard='true'), E('write', '$d.reference_count_', 'this.reference_count_', guard='true'),
        E('write', '$d.reference_counts_', None, optional=True), E('write', '$d.included_files_', None, optional=True),
        E('write', '$d.index_into_reference_table_', 'ref(thread($n))', guard='true'), E('write', 'this.reference_counts_[key]', '1 + this.reference_counts_[key]', guard='true', each=[])],
        rel=lambda e: e.kind in ('write', 'append'))
    assert_('missing-key-refused', t, 'type(%s) != 0' % V)
    assert_('wrong-type-refused', t, 'type(%s) == 5' % V)
    # arrays
    for m_, v, chk in (('GetArrayValuesAsDoubles', 'tonumber(%s)', 'isnumber(%s) != 0'), ('GetArrayValuesAsStrings', 'tostring(%s)', 'isstring(%s) != 0'),
                       ('GetArrayValuesAsDictionaries', 'this.PopDictionary(this.reference_count_)', None)):
        _, t = run(K + m_, opaque=['PopDictionary'])
        A = 'get(slot(-1), iter($i, 1, 1 + acc()))'
        for e in t.effects:      # a counted loop from one
            if e.loops and e.loops[-1].lo is not None and strip(e.loops[-1].lo) is I(1):
                A = 'get(slot(-1), $i)'
        present = 'type(%s) != 0' % A
        ctx.spec_on('array-values-in-order', t, [E('append', '$r', v % A if '%' in v else v, guard=present)],
                    rel=lambda e: e.kind == 'append')
        if chk:
            assert_('wrong-type-refused', t, chk % A)
    _, t = run(K + 'GetKeys')
    ctx.spec_on('keys-are-the-named-ones', t, [E('append', '$r', 'tostring($k)', guard='next(_) != 0 && isnumber($k) == 0')], rel=lambda e: e.kind == 'append')
    # every key is used exactly once
    f = p.fn(K + 'CheckAllKeysWereUsedExactlyOnceAndReset')
    s = ctx.summarise(p, f, opaque=['GetKeys'])
    C = 'this.reference_counts_[this.GetKeys()[$i]] == 1'
    ctx.match('every-key-used-exactly-once', s, lambda e: e.kind == 'assert', [
        E('assert', val=C, guard='true', each=['this.GetKeys()']), E('assert', val='this.GetKeys()[$i] in this.reference_counts_', guard='true', each=['this.GetKeys()'], optional=True)])
    ctx.match('every-key-used-exactly-once', s, lambda e: e.kind in ('mutate', 'write') and on_fields('reference_counts_')(e), [
        E('mutate', 'this.reference_counts_', name='clear', guard='true', each=[])])
    f = [f for f in p.fns(K + '~*')][0]
    s = ctx.summarise(p, f, opaque=['CheckAllKeys'])
    own = 'this.index_into_reference_table_ <= 0'
    ctx.spec_on('checked-when-destroyed', s, [
        E('call', 'this', name='CheckAllKeysWereUsedExactlyOnceAndReset', guard='this.reference_count_ == YES', tag='check'),
        E('call', name='lua_close', args=['this.L_'], guard=own, tag='close'),
        E('call', name='luaL_unref', args=['this.L_', str(lua.REG), 'this.index_into_reference_table_'], guard='!(%s)' % own, tag='close')],
        order=['check<close'], rel=lambda e: e.kind == 'call' and any(x in e.name for x in ('CheckAll', 'lua')))
    # construction
    for f in p.overloads(K + 'LuaParameterDictionary'):
        if f.get('implicit') or len(f['params']) < 2 or 'string' not in p.ptypes(f)[0]:
            continue
        m, t = run(f, net=None)
        ctx.ob('construction', t.fn['sqn'], m.returned and all(len(v) == 1 for r in m.returned for v in r.st.values() if isinstance(v, list)), 'the new state does not hold exactly the table')
        ctx.ob('construction', t.fn['sqn'], [e for e in t.effects if e.kind == 'call' and e.name.endswith('luaL_openlibs') and not e.guard], 'the Lua standard library is not loaded')
        rc = 'reference_count' if len(f['params']) == 3 else 'YES'
        ctx.spec_on('construction', t, [
            E('write', 'this.L_', None, guard='true'), E('write', 'this.index_into_reference_table_', '$n', guard='true'),
            E('write', 'this.file_resolver_', 'file_resolver', guard='true'), E('write', 'this.reference_count_', rc, guard='true'),
            E('write', 'this.reference_counts_', None, optional=True), E('write', 'this.included_files_', None, optional=True)], rel=lambda e: e.kind == 'write')
        for c in ('loading(code) == 0', 'status(chunk(code)) == 0', 'type(result(chunk(code))) == 5'):
            assert_('errors-refused', t, c)
        n = [e for e in t.effects if e.kind == 'write' and strip(e.obj).a[1] == 'index_into_reference_table_']
        ctx.ob('construction', t.fn['sqn'], n and const(strip(n[-1].val)) is not None and const(strip(n[-1].val))[1] <= 0, 'a dictionary that owns its state would not close it')
        g = {show(l[1]).strip('"'): show(l[2]) for r in m.returned for l in r.lines if l[0] == 'global'}
        for name, fn in (('choose', 'LuaChoose'), ('include', 'LuaInclude'), ('read', 'LuaRead')):
            ctx.ob('functions-registered', t.fn['sqn'], fn + ',' in g.get(name, '') or fn in g.get(name, '').split('::'), '%s is bound to %s' % (name, g.get(name)))
        ctx.ob('functions-registered', t.fn['sqn'], any(l[0] == 'set' and show(l[1]) == 'lua::registry()' and show(strip(l[2])) == '"this"' and strip(l[3]).op == 'this' or
                                                         l[0] == 'set' and show(strip(l[3])) == 'this' for r in m.returned for l in r.lines), 'the dictionary is not registered')
    s = ctx.summarise(p, p.fn(K + 'NonReferenceCounted'), opaque=['LuaParameterDictionary::LuaParameterDictionary'])
    ctx.ob('construction', s.fn['sqn'], 'NO' in ' '.join(show(strip(a)) for e in s.effects for a in (e.args or []) if isinstance(a, Term)) + show(strip(s.effects[-1].val)),
           'a dictionary that should not count references does')
    # Lua functions
    m, t = run('common::LuaChoose', 3, net=4)
    ok = bool(m.returned)
    for r in m.returned:
        b = lua.T('toboolean', lua.T('arg', I(1)))
        L = strip(t.params[0])
        for c, k in ((not_(eq(b, I(0))), 2), (eq(b, I(0)), 3)):
            if not entails(r.facts, not_(c)):
                ok = ok and under(strip(r.st.get(L, [VOID])[-1]), [strip(f) for f in r.facts] + [c]) is lua.T('arg', I(k))
    ctx.ob('choose-picks-by-condition', t.fn['sqn'], ok and all(strip(e.val) is I(1) for e in t.effects if e.kind == 'return'), 'choose(condition, a, b) does not yield a if the condition holds and b otherwise')
    assert_('wrong-type-refused', t, 'type(arg(1)) == 1')
    m, t = run(K + 'LuaInclude', 1, net=0)
    D_ = 'touserdata(get(registry(), "this"))'
    dreg = lambda m_, t_: ctx.ob('dictionary-of-the-state', t_.fn['sqn'], all(
        unify(pat(D_), y2, {}) is not None for e in t_.effects for y in ([e.obj, e.val] + list(e.args or [])) if isinstance(y, Term)
        for x in subterms(E('call').st(y)) if x.op == 'f' and x.a[1] in ('file_resolver_', 'included_files_') for y2 in nonnull(x.a[0])), 'the dictionary is not the one of this Lua state')
    dreg(m, t)
    F_ = '$d.file_resolver_.GetFullPathOrDie(tostring(arg(1)))'
    Z = '$d.file_resolver_.GetFileContentOrDie(tostring(arg(1)))'
    inc = '%s.included_files_'
    apps = [e for e in t.effects if e.kind == 'append' and show(strip(e.obj)).endswith('included_files_')]
    ctx.ob('included-once', t.fn['sqn'], len(apps) == 1 and not apps[0].guard and not apps[0].loops and
           unify(pat(F_), E('append').st(apps[0].val), {}) is not None, 'the included file is not recorded by its full path')
    fatal = [e for e in t.effects if e.kind == 'fatal']
    ctx.ob('included-once', t.fn['sqn'], fatal and any(unify(pat(x), E('fatal').st(and_(*e.guard)), {}) is not None for e in fatal for x in (
        'first($d.included_files_, elem() == %s) != end($d.included_files_)' % F_, 'exists($d.included_files_, elem() == %s)' % F_,
        '%s in $d.included_files_' % F_)), 'a file included before is included again')
    for c in ('isstring(arg(1)) != 0', 'loading(%s) == 0' % Z, 'status(chunk(%s)) == 0' % Z):
        assert_('errors-refused', t, c)
    calls_ = [e for e in t.effects if e.kind == 'call' and e.name.endswith('lua_pcallk')]
    ctx.ob('include-runs-the-file', t.fn['sqn'], len(calls_) == 1 and not calls_[0].guard, 'the file is not run')
    ctx.ob('include-runs-the-file', t.fn['sqn'], all(unify(pat('top(_)'), E('return').st(e.val), {}) is not None or unify(pat('lua_gettop(_)'), E('return').st(e.val), {}) is not None
                                                     for e in t.effects if e.kind == 'return'), 'the results of the file are not returned')
    m, t = run(K + 'LuaRead', 1, net=2)
    L = strip(t.params[0])
    ctx.ob('read-yields-the-content', t.fn['sqn'], m.returned and all(
        unify(pat(Z), E('call').st(r.st[L][-1]), {}) is not None for r in m.returned) and all(strip(e.val) is I(1) for e in t.effects if e.kind == 'return'), 'read() does not return the content of the file')
    dreg(m, t)
    m, t = run('common::QuoteStringOnStack')
    L = strip(t.params[0])
    ctx.ob('strings-quoted', t.fn['sqn'], m.returned and all(
        unify(pat('result(get(get(globals(), "string"), "format"), "%q", slot(-1))'), r.st.get(('set', L, -1), VOID), {}) is not None for r in m.returned), 'the string is not replaced by its quoted form')
    # ToString
    m, t = run(K + 'DoToString', opaque=['PopDictionary', 'GetKeys'])
    for e in t.effects:
        if e.kind != 'append':
            continue
        v = E('append').st(e.val)
        ty = [x for x in subterms(v) if x.op == 'call' and x.a[0] == 'lua::type']
        if not ty:
            continue
        x = ty[0].a[2]
        for k, want in ((1, 'toboolean($x) != 0 ? "true" : "false"'), (4, 'tostring(result(get(get(globals(), "string"), "format"), "%q", $x))'),
                        (3, 'isinf(tonumber($x)) ? (tonumber($x) < 0 ? "-math.huge" : "math.huge") : to_string(tonumber($x))'),
                        (5, 'this.PopDictionary(NO).DoToString(cat(indent, "  "))')):
            w = canon(rewrite(v, lambda y: I(k) if y is ty[0] else None))
            ctx.ob('printed-by-type', '%s line %s' % (t.fn['sqn'], e.line), unify(pat(want), w, {'x': x}) is not None, 'a value of Lua type %d is printed as %s' % (k, pshow(w)[:200]))
    ctx.match('entries-printed', t, lambda e: e.kind == 'append' and 'GetKeys()[' in pshow(canon(strip(e.val))) and not any(x.op == 'call' and x.a[0] == 'lua::type' for x in subterms(E('append').st(e.val))),
              [E('append', '$r', 'this.GetKeys()[$i]', each=['this.GetKeys()'])])
    # file resolver
    R = 'common::ConfigurationFileResolver::'
    D = 'this.configuration_files_directories_'
    ctx.spec('directories-in-order', p, R + 'ConfigurationFileResolver', [
        E('write', D, 'configuration_files_directories', guard='true', tag='a'), E('append', D, None, guard='true', each=[], tag='b')], order=['a<b'])
    N = 'cat(cat(%s[$i], "/"), basename)' % D
    s = ctx.spec('first-existing-file', p, R + 'GetFullPathOrDie', [E('return', val=N, guard='basic_ifstream(%s).good(_)' % N)], rel=lambda e: e.kind == 'return')
    s = ctx.summarise(p, p.fn(R + 'GetFullPathOrDie'))
    ctx.ob('first-existing-file', s.fn['sqn'], all(e.loops and e.loops[-1].C is not None and show(strip(e.loops[-1].C)) == D and not e.loops[-1].down and
                                                   all(x[0] == 'return' for x in e.loops[-1].exits) for e in s.effects if e.kind == 'return'), 'the directories are not searched one after another')
    ctx.ob('missing-file-refused', s.fn['sqn'], [e for e in s.effects if e.kind == 'fatal' and not e.guard and not e.loops] and
           not [e for e in s.effects if e.kind == 'return' and not e.guard], 'a missing file is not refused')
    s = ctx.summarise(p, p.fn(R + 'GetFileContentOrDie'), opaque=['GetFullPathOrDie'])
    ctx.spec_on('content-of-the-file', s, [E('return', val='basic_string(istreambuf_iterator(basic_ifstream(this.GetFullPathOrDie(basename))), _)', guard='true')], rel=lambda e: e.kind == 'return')
    ctx.refuses('missing-file-refused', s, '|basename| != 0', 'an empty file name is accepted')


if __name__ == '__main__':
    main('P13', check, 'abstract interpretation of the Lua stack on value-flow summaries of the configuration code',
         'the stack queries of every accessor read the entry of the key, on a balanced stack, and every use is counted', tus=['common/lua_parameter_dictionary.cc', 'common/configuration_file_resolver.cc'])
