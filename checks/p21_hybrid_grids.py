#!/usr/bin/env python3
"""3D hybrid grids: one cell per index at every level, growing keeps every cell, iteration visits exactly the cells that were set, with their own index."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

TUS = ['aux:hybrid_grid.cc']
B = '(1 << this.bits_)'
FLAT = '64 * {0}[2] + 8 * {0}[1] + {0}[0]'
META = FLAT.format('(index // 8)')
SH = '(index + 32 * %s)' % B
DMETA = '{1} * {1} * (({0}[2]) // 64) + {1} * (({0}[1]) // 64) + ({0}[0]) // 64'.format(SH, B)
OUT = '(64 * %s <= %s.cast()).any()' % (B, SH)
IN = ['FlatGrid::(value|mutable_value)', 'NestedGrid::(value|mutable_value)', 'Iterator::(Next|GetValue|GetCellIndex|Iterator)$']


def stop(l):
    """When does this loop end?"""
    u = lambda t: canonc(stripv(t))
    c = [not_(u(x)) for x in (l.cond, l.again) if x is not None]
    for x in l.exits:
        if x[0] != 'cond':
            c.append(and_(*[u(f) for f, t in x[1] if t == 'if']))
    return or_(*c)


def same(a, b):
    return entails([a], b) and entails([b], a)


def check(ctx):
    p = ctx.program(*TUS)
    G = {k: 'mapping::%sGrid::' % k for k in ('Flat', 'Nested', 'Dynamic')}

    def each(name, fn, few=1):
        fs = [f for f in p.overloads(name) if not f.get('implicit')]
        ctx.need(len(fs) >= few, '%s not found' % name)
        for f in fs:
            fn(f)
    S = lambda f, op=IN: ctx.summarise(p, f, opaque=[o for o in op])

    def returns(rule, name, val, **kw):
        each(name, lambda f: ctx.match(rule, S(f), of_kind('return'), [E('return', val=val, guard='true', **kw)], where=f['sqn']))
    # one cell per index
    for m in ('value', 'mutable_value'):
        returns('cell-of-an-index', G['Flat'] + m, 'this.cells_[%s]' % FLAT.format('index'))
    each(G['Flat'] + 'FlatGrid', lambda f: ctx.match('cells-start-out-default', S(f), lambda e: e.kind == 'write' and e.loops, [
        E('write', 'this.cells_[$i]', '$d', guard='true', each=['this.cells_'])]))
    for k, fld in (('Flat', 'cells_'), ('Nested', 'meta_cells_')):
        for r in p.rec_by_qn.get(G[k][:-2], []):
            for x in r['fields']:
                if x['n'] == fld:
                    t = r['T'][x['t']]
                    ctx.ob('cell-of-an-index', '%s (%s:%d)' % (G[k] + fld, r['file'], x['l']), t.startswith('std::array') and t.rstrip('> ').endswith(', 512'), 'there are not 8 x 8 x 8 cells: ' + t)
    for k, v in (('Flat', '8'), ('Nested', '64'), ('Dynamic', '64 * ' + B)):
        returns('cell-of-an-index', G[k] + 'grid_size', v)
    for k, meta, inner, out in (('Nested', META, 'index - 8 * (index // 8)', None), ('Dynamic', DMETA, '%s - 64 * (%s // 64)' % (SH, SH), OUT)):
        c = 'this.meta_cells_[%s]' % meta
        non = c + ' == null'
        inn = '%s && ' % ('!(%s)' % out) if out else ''

        def value(f):
            s = S(f)
            ctx.match('cell-of-an-index', s, lambda e: e.kind == 'return' and show(strip(e.val)).find('value(') >= 0, [
                E('return', val='%s.value(%s)' % (c, inner), guard=inn + c + ' != null')], where=f['sqn'])
            rest = [e for e in s.effects if e.kind == 'return' and show(strip(e.val)).find('value(') < 0]
            ctx.ob('absent-is-default', f['sqn'], rest and all(default(e.val) for e in rest), 'a cell that was never set does not read as the default: ' + '; '.join(map(brief, rest))[:300])
        each(G[k] + 'value', value)

        def mutable(f):
            s = S(f, IN + ['DynamicGrid::Grow'])
            w = [e for e in s.effects if e.kind == 'write' and 'meta_cells_' in show(strip(e.obj))]
            ctx.match('cell-made-on-first-access', s, lambda e: e in w, [E('write', c, '$n', guard=inn + non)], where=f['sqn'])
            n = w and strip(w[0].val)
            for e in w:
                ctx.ob('cell-made-on-first-access', f['sqn'], strip(e.val).op in ('obj', 'copy', 'mk', 'struct'), 'the new cell is not a fresh one: ' + brief(e)[:300])
            if out:
                ctx.match('grows-until-it-fits', s, lambda e: e.kind == 'call' and e.name.endswith(('Grow', 'DynamicGrid::mutable_value')), [
                    E('call', 'this', name='Grow', guard=out), E('call', 'this', name='DynamicGrid::mutable_value', args=['index'], guard=out, optional=True)], where=f['sqn'])
            made = [e for e in s.effects if e.kind == 'return' and unify(pat('$o.mutable_value(%s)' % inner), canonc(e.val), {})]
            again = [e for e in s.effects if e.kind == 'return' and unify(pat('this.mutable_value(index)'), canonc(e.val), {}) is not None] if out else []
            ctx.ob('cell-of-an-index', f['sqn'], len(made) >= 1 and all(e in made or e in again for e in s.effects if e.kind == 'return'), 'what is returned is not the value at the index: ' +
                   '; '.join(brief(e) for e in s.effects if e.kind == 'return' and e not in made + again)[:300])
            there = ctx_term(ctx, s, c)
            nul = eq(there, mk('null'))
            for e in made:
                o = unify(pat('$o.mutable_value(%s)' % inner), canonc(e.val), {})['o']
                g = [canonc(x) for x in e.guard]
                for facts, want in (([nul] + g, n and canonc(n)), ([not_(nul)] + g, there)):
                    ctx.ob('cell-of-an-index', f['sqn'], entails(facts, FALSE) or stripv(under(o, facts)) is stripv(want or VOID), 'what is returned is not in the cell of the index: ' + brief(e)[:300])
            if again:
                ctx.match('grows-until-it-fits', s, lambda e: e in again, [E('return', val='this.mutable_value(index)', guard=out)], where=f['sqn'])
        each(G[k] + 'mutable_value', mutable)
    each(G['Dynamic'] + 'DynamicGrid', lambda f: f['params'] or ctx.final('starts-small', p, None, {'this.bits_': '1', 'this.meta_cells_': 'vector(8)'}, s=S(f)))

    # growing: every cell moves by half the old extent, nothing else is there
    def grow(f):
        s = S(f)
        ctx.refuses('growing-keeps-every-cell', s, 'this.bits_ < 8', 'growing beyond the largest size is accepted')
        ctx.match('growing-keeps-every-cell', s, lambda e: e.kind == 'write' and not e.loops and target(e.obj).op == 'f', [
            E('write', 'this.bits_', '1 + this.bits_', guard='true', tag='bits'), E('write', 'this.meta_cells_', 'vector(8 * |this.meta_cells_|)', guard='true', tag='cells')], where=f['sqn'])
        mv = [e for e in s.effects if e.kind in ('write', 'mutate') and e.loops]
        ctx.ob('growing-keeps-every-cell', f['sqn'], len(mv) == 1, 'not one move per cell: ' + '; '.join(map(brief, mv))[:300])
        for e in mv:
            ls = e.loops
            ok = len(ls) == 3 and not e.guard and all(l.C is None and l.lo is not None and show(strip(l.lo)) == '0' and not l.exits and canonc(l.hi) is build_term('1 << this.bits_') for l in ls)
            ctx.ob('growing-keeps-every-cell', f['sqn'], ok, 'the move does not run over every old cell once: ' + brief(e)[:300])
            if not ok:
                continue
            b = unify(pat('this.meta_cells_[{0} * {0} * $z + {0} * $y + $x]'.format(B)), canonc(e.val), {})
            ctx.ob('growing-keeps-every-cell', f['sqn'], b is not None and {b[k] for k in 'xyz'} == {l.idx for l in ls}, 'what is moved is not each old cell once: ' + pshow(canonc(e.val))[:300])
            if b:
                n = '2 * ' + B
                h = '0.5 * ' + B
                t = '_[({n}) * ({n}) * ($z + {h}) + {n} * ($y + {h}) + $x + {h}]'.format(n=n, h=h)
                ctx.ob('growing-keeps-every-cell', f['sqn'], unify(pat(t), canonc(e.obj), b) is not None, 'a cell does not move by half the old extent: ' + pshow(canonc(e.obj))[:300])
            ctx.ob('growing-keeps-every-cell', f['sqn'], all(s.effects.index(e) < i for i, x in enumerate(s.effects) if x.kind == 'write' and not x.loops and show(strip(x.obj)) == 'this.bits_'), 'the size changes before the cells have moved')
    each(G['Dynamic'] + 'Grow', grow)
    ctx.frame('growing-keeps-every-cell', p, 'mapping::DynamicGrid', ['bits_'], ['mutable_value', 'Grow', 'operator='])

    # iteration
    nz = 'this.current_ != this.end_'

    def iterators(k, cells, param):
        I_ = G[k] + 'Iterator::'
        returns('iteration-ends-at-the-end', I_ + 'Done', 'this.current_ == this.end_')
        op = [o for o in IN]
        for f in p.overloads(I_ + 'Iterator'):
            if f.get('implicit') or not f['params'] or 'Iterator' in p.ptypes(f)[0]:
                continue
            s = S(f)
            first = {}
            for e in s.effects:
                if e.kind == 'write' and not e.loops and show(strip(e.obj)) in ('this.current_', 'this.end_', 'this.bits_'):
                    first.setdefault(show(strip(e.obj)), e)
            g = param + '.' + cells
            want = {'this.current_': g, 'this.end_': '%s + |%s|' % (g, g)}
            if k == 'Dynamic':
                want['this.bits_'] = param + '.bits_'
            for o, v in want.items():
                e = first.get(o)
                ctx.ob('iteration-starts-at-the-first-cell', f['sqn'], e is not None and not e.guard and unify(pat(v), canonc(e.val), {}) is not None, '%s starts as %s' % (o, e and pshow(canonc(e.val))[:200]))
            e = first.get('this.end_')
            advance(ctx, k, s, canonc(e.val) if e is not None else None)
        for n in ('Next',):
            def nxt(f):
                s = S(f, [o.replace('Next|', '') if k == 'Flat' else o for o in IN])
                if k == 'Flat':
                    advance(ctx, k, s, build_term('this.end_'))
                else:
                    ctx.match('iteration-visits-each-cell', s, lambda e: not e.loops and (e.kind == 'write' or e.kind == 'call'), [
                        E('call', 'this.nested_iterator_', name='Next', guard='true', tag='n'),
                        E('write', 'this.current_', '1 + this.current_', guard='this.nested_iterator_.current_ == this.nested_iterator_.end_', tag='c')], where=f['sqn'])
                    advance(ctx, k, s, build_term('this.end_'), when='this.nested_iterator_.current_ == this.nested_iterator_.end_')
            each(I_ + n, nxt)
        cur = {'Flat': 'this.current_', 'Nested': 'this.nested_iterator_.GetValue()', 'Dynamic': 'this.nested_iterator_.GetValue()'}[k]
        returns('iteration-pairs-index-and-value', I_ + 'GetValue', cur)
        i = '(512 + this.current_ - this.end_)' if k != 'Dynamic' else '((1 << (3 * this.bits_)) + this.current_ - this.end_)'
        m, sh = ('7', '3') if k != 'Dynamic' else ('(%s - 1)' % B, 'this.bits_')
        d3 = 'Array({i} & {m}, ({i} >> {s}) & {m}, ({i} >> {s}) >> {s})'.format(i=i, m=m, s=sh)
        returns('iteration-pairs-index-and-value', I_ + 'GetCellIndex', {'Flat': d3, 'Nested': '8 * %s + this.nested_iterator_.GetCellIndex()' % d3,
                                                                        'Dynamic': '64 * %s + this.nested_iterator_.GetCellIndex() - 32 * %s' % (d3, B)}[k], casts=True)
    for k, c, prm in (('Flat', 'cells_', 'flat_grid'), ('Nested', 'meta_cells_', 'nested_grid'), ('Dynamic', 'meta_cells_', 'dynamic_grid')):
        iterators(k, c, prm)
    D = G['Dynamic'] + 'Iterator::'
    each(D + 'AdvanceToEnd', lambda f: ctx.final('iteration-ends-at-the-end', p, None, {'this.current_': 'this.end_'}, s=S(f)))
    returns('iteration-pairs-index-and-value', D + 'operator*', '{first=this.GetCellIndex(), second=this.GetValue()}')
    each(D + 'operator++', lambda f: ctx.match('iteration-visits-each-cell', S(f), any_of(calls('Next'), of_kind('return')), [E('call', 'this', name='Next', guard='true'), E('return', val='this')]))
    returns('iteration-ends-at-the-end', D + 'operator!=', 'this.current_ != it.current_')
    # geometry
    H = 'mapping::HybridGridBase::'
    GEO = ['RoundToInt', 'Iterator::', 'DynamicGrid::']
    c = 'RoundToInt(point[%d] / this.resolution_)'
    R = lambda n, v, **kw: each(H + n, lambda f: ctx.match('cells-and-points', S(f, GEO), of_kind('return'), [E('return', val=v, guard='true', **kw)], where=f['sqn']))
    R('resolution', 'this.resolution_')
    R('GetCellIndex', 'Array(%s)' % ', '.join(c % k for k in range(3)))
    R('GetCenterOfCell', 'this.resolution_ * index.matrix().cast()')
    R('GetOctant', 'Array((i & 1) != 0, (i & 2) != 0, (i & 4) != 0)', casts=True)
    R('begin', 'Iterator(this)')
    each(H + 'end', lambda f: ctx.match('cells-and-points', S(f, GEO), any_of(of_kind('return'), calls('AdvanceToEnd')), [
        E('call', '$it', name='AdvanceToEnd', guard='true', tag='a'), E('return', val='Iterator(this)', guard='true', tag='r')], where=f['sqn']))
    each(H + 'HybridGridBase', lambda f: ctx.final('cells-and-points', p, None, {'this.resolution_': 'resolution'}, s=S(f, GEO)))
    # occupancy values
    P = 'mapping::HybridGrid::'
    V = ['DynamicGrid::', 'ProbabilityToValue', 'ValueToProbability', 'Iterator::']
    SV = lambda n: ctx.summarise(p, p.fn(P + n), opaque=V)
    c = 'this.mutable_value(index)'
    s = SV('SetProbability')
    ctx.spec_on('values', s, [E('write', c, 'ProbabilityToValue(probability)', guard='true')], rel=of_kind('write'))
    u = c + ' <= 32767'
    ctx.spec_on('updated-once-per-scan', SV('ApplyLookupTable'), [
        E('return', val='false', guard='32767 < ' + c), E('append', 'this.update_indices_', c, guard=u, tag='log'), E('write', c, 'table[%s]' % c, guard=u, tag='set'), E('return', val='true', guard=u)],
        rel=any_of(of_kind('return'), of_kind('append'), of_kind('write')))
    s = SV('FinishUpdate')
    U = 'this.update_indices_'
    if any(e.kind == 'mutate' and e.name.endswith('clear') for e in s.effects):
        ctx.spec_on('updated-once-per-scan', s, [E('write', U + '[$i]', U + '[$i] - 32768', guard='true', each=[U], tag='sub', casts=True), E('mutate', U, name='clear', guard='true', each=[], tag='pop')],
            order=['sub<pop'], rel=any_of(of_kind('write'), of_kind('mutate')))
    else:
        ctx.match('updated-once-per-scan', s, any_of(of_kind('write'), of_kind('mutate')), [
            E('write', 'last(this.update_indices_)', 'last(this.update_indices_) - 32768', stale_ok=True, tag='sub'), E('mutate', 'this.update_indices_', name='pop_back', tag='pop')])
        for l in {l for e in s.effects for l in e.loops}:
            ctx.ob('updated-once-per-scan', P + 'FinishUpdate', same(stop(l), build_term('|this.update_indices_| == 0')), 'finishing stops when %s' % show(stop(l))[:200])
        ctx.ob('updated-once-per-scan', P + 'FinishUpdate', all(len(e.loops) == 1 for e in s.effects if e.kind in ('write', 'mutate')), 'not every update is finished')
    ctx.match('values', SV('GetProbability'), of_kind('return'), [E('return', val='ValueToProbability(this.value(index))', guard='true')])
    ctx.match('values', SV('IsKnown'), of_kind('return'), [E('return', val='this.value(index) != 0', guard='true')])
    s = SV('ToProto')
    ctx.refuses('stored-cells', s, '|this.update_indices_| == 0', 'a grid in the middle of an update is stored')
    ctx.result('stored-cells', p, P + 'ToProto', {
        'resolution': 'this.resolution_',
        'x_indices': E('append', val='this[$i].first[0]', guard='true', each=['this']), 'y_indices': E('append', val='this[$i].first[1]', guard='true', each=['this']),
        'z_indices': E('append', val='this[$i].first[2]', guard='true', each=['this']), 'values': E('append', val='this[$i].second', guard='true', each=['this'])}, opaque=V)
    for f in p.overloads(P + 'HybridGrid'):
        if f.get('implicit') or 'HybridGrid &' in p.ptypes(f)[0] and 'proto' not in p.ptypes(f)[0]:
            continue
        s = ctx.summarise(p, f, opaque=V)
        if 'float' in p.ptypes(f)[0]:
            ctx.final('cells-and-points', p, None, {'this.resolution_': 'resolution'}, s=s)
            continue
        ctx.refuses('stored-cells', s, '|proto.values| == |proto.x_indices| && |proto.values| == |proto.y_indices| && |proto.values| == |proto.z_indices|', 'lists of different lengths are accepted')
        ctx.match('stored-cells', s, lambda e: e.kind == 'write' and 'update' not in show(e.obj), [
            E('write', 'this.resolution_', 'proto.resolution', guard='true', casts=True),
            E('write', 'this.mutable_value(Matrix(proto.x_indices[$i], proto.y_indices[$i], proto.z_indices[$i]))', 'ProbabilityToValue(ValueToProbability(proto.values[$i]))', guard='true', each=['..|proto.values|'], casts=True)])
    N = 'mapping::IntensityHybridGrid::'
    s = ctx.summarise(p, p.fn(N + 'AddIntensity'), opaque=V)
    ctx.spec_on('intensity-average', s, [E('write', c + '.count', '1 + %s.count' % c, guard='true'), E('write', c + '.sum', 'intensity + %s.sum' % c, guard='true')], rel=of_kind('write'))
    c = 'this.value(index)'
    ctx.match('intensity-average', ctx.summarise(p, p.fn(N + 'GetIntensity'), opaque=V), of_kind('return'), [
        E('return', val='0', guard=c + '.count == 0'), E('return', val='{0}.sum / {0}.count'.format(c), guard=c + '.count != 0', casts=True)])


def build_term(x):
    return canonc(build(pat(x), {}))


def ctx_term(ctx, s, x):
    return canonc(build(pat(x), {}, ctx.names(s)))


def default(v):
    v = strip(v)
    return v.op in ('obj', 'copy', 'struct', 'mk') or const(v) == ('n', 0)


def advance(ctx, k, s, end, when=None):
    """The loop that moves to the next cell that was set: stops at the end or there, and moves by one otherwise."""
    rule = 'iteration-visits-each-cell'
    fn = s.fn['sqn']
    ls = {e.loops for e in s.effects if e.loops and e.kind == 'write' and show(strip(e.obj)) == 'this.current_'}
    ctx.ob(rule, fn, len(ls) == 1 and all(len(x) == 1 for x in ls), 'not one search for the next cell')
    if len(ls) != 1:
        return
    l = list(ls)[0][0]
    # one step or none per round
    cur = build_term('this.current_')
    at_end = canonc(eq(cur, end))
    inside = [e for e in s.effects if l in e.loops and e.kind == 'write' and show(strip(e.obj)) in ('this.current_', 'this.nested_iterator_')]
    g = lambda e: and_(*[canonc(stripv(x)) for x in e.guard if canonc(stripv(x)) is not (build_term(when) if when else None)])
    if k == 'Flat':
        # the position the condition is about: before the step of a while loop, after that of a do loop
        ok = False
        for x in (cur, canonc(arith('+', cur, I(1), True))):
            d = [t for t in all_atoms(stop(l)) if t is not canonc(eq(x, end)) and x in subterms(t) or t is canonc(eq(x, I(0)))]
            ok = ok or len(d) == 1 and same(stop(l), or_(canonc(eq(x, end)), not_(d[0]))) and (x is cur) == (l.again is None)
        ctx.ob(rule, fn, ok, 'the search stops when %s' % show(stop(l))[:300])
        ctx.ob(rule, fn, len(inside) == 1 and unify(pat('1 + this.current_'), canonc(stripv(inside[0].val)), {}) is not None and
               (not inside[0].guard or entails([not_(stop(l))], g(inside[0]))), 'the search does not move one cell at a time: ' + '; '.join(map(brief, inside))[:300])
        return
    none = build_term('this.current_ == null')
    done = [build_term('this.nested_iterator_.current_ == this.nested_iterator_.end_'), build_term('Iterator(this.current_).current_ == Iterator(this.current_).end_')]
    ok = any(same(stop(l), or_(at_end, and_(not_(none), not_(d)))) or same(stop(l), or_(at_end, and_(not_(at_end), not_(none), not_(d)))) for d in done)
    ctx.ob(rule, fn, ok, 'the search stops when %s' % show(stop(l))[:300])
    for e in inside:
        if show(strip(e.obj)) == 'this.current_':
            ctx.ob(rule, fn, unify(pat('1 + this.current_'), canonc(stripv(e.val)), {}) is not None and any(same(g(e), and_(not_(at_end), or_(none, d))) for d in done), 'the search moves on wrongly: ' + brief(e)[:300])
        else:
            ctx.ob(rule, fn, unify(pat('Iterator(this.current_)'), canonc(stripv(e.val)), {}) is not None and same(g(e), and_(not_(at_end), not_(none))), 'the inner search starts wrongly: ' + brief(e)[:300])
    ctx.ob(rule, fn, len(inside) == 2, 'the search for the next cell: ' + '; '.join(map(brief, inside))[:300])


def all_atoms(t):
    s = set()
    atoms(t, s)
    return s


if __name__ == '__main__':
    main('P21', check, 'static analysis: symbolic effect summaries of the grid templates, instantiated, over polynomial index arithmetic',
         'every level maps an index to one cell and back, growing is a bijection onto the old cells, and iteration stops exactly at set cells', tus=TUS)
