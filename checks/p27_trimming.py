#!/usr/bin/env python3
"""Trimming: a trimmed submap goes with its constraints, its matcher and the nodes only it holds, nothing else does; the trimmers select exactly the submaps their configuration names."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *
from pgraph import *

P = 'this.parent_.'
PD = P + 'data_.'
PM = ['this.parent_.mutex_']
OTHER = '(%s.trajectory_id != submap_id.trajectory_id || %s.submap_index != submap_id.submap_index)'


def check(ctx):
    for d in (2, 3):
        trim(ctx, Graph(ctx, d))
    pure(ctx)
    overlapping(ctx)


def root(t):
    t = strip(t)
    while t.op in ('f', 'at', 'v'):
        t = t.a[0]
    return t


def named(*ns):
    return lambda e: e.kind in ('append', 'write', 'mutate') and root(e.obj).op == 'param' and root(e.obj).a[0] in ns


def trim(ctx, g):
    R = 'trimmed-with-what-it-holds'
    H = g.cls + '::TrimmingHandle'
    s = g.s('TrimSubmap', cls=H)
    fn = s.fn['sqn']
    ctx.refuses(R, s, PD + 'submap_data[submap_id].state == kFinished', 'an unfinished submap is trimmed')
    gone = [e for e in s.effects if e.kind == 'mutate' and e.name == 'Trim' and show(strip(e.obj)) == PD + 'trajectory_nodes']
    ctx.ob(R, fn, len(gone) == 1 and strip(gone[0].args[0]).op == 'at' and root(gone[0].args[0]).op == 'obj', 'the nodes only this submap holds are not removed at one place')
    if not (len(gone) == 1 and strip(gone[0].args[0]).op == 'at' and root(gone[0].args[0]).op == 'obj'):
        return
    rem = root(gone[0].args[0])
    made = [e for e in s.effects if e.kind in ('append', 'write', 'mutate') and root(e.obj) is rem]
    keep = {root(x.a[0]) for e in made for f in e.guard for x in subterms(strip(f)) if x.op == 'has'}
    ctx.ob(R, fn, len(made) == 1 and len(keep) == 1 and next(iter(keep)).op == 'obj', 'the nodes to remove are not those no other submap holds')
    if not (len(made) == 1 and len(keep) == 1 and next(iter(keep)).op == 'obj'):
        return
    keep = next(iter(keep))
    r = renamed(s, {'removed': rem, 'kept': keep})
    mine = PD + 'submap_data[submap_id].node_ids'
    S_ = PD + 'submap_data'
    nodes = S_ + '[$i].data.node_ids'
    ctx.spec_on(R, r, [
        E('append', 'kept', nodes + '[$j]', guard=OTHER % ((S_ + '[$i].id',) * 2), each=[S_, nodes], tag='kept'),
        E('append', 'removed', mine + '[$k]', guard='!(%s[$k] in kept)' % mine, each=[mine], tag='removed'),
        E('mutate', S_, name='Trim', args=['submap_id'], guard='true', tag='submap'),
        E('call', P + 'optimization_problem_', name='TrimSubmap', args=['submap_id'], guard='true'),
        E('mutate', PD + 'trajectory_nodes', name='Trim', args=['removed[$k]'], guard='true', each=['removed'], tag='nodes'),
        E('call', P + 'optimization_problem_', name='TrimTrajectoryNode', args=['removed[$k]'], guard='true', each=['removed'], tag='onodes')],
        rel=lambda e: named('removed', 'kept')(e) or e.kind == 'mutate' and show(strip(e.obj)) in (S_, PD + 'trajectory_nodes') or
        e.kind == 'call' and 'OptimizationProblem' in e.name and not (e.x or {}).get('const'), order=['kept<removed', 'removed<submap', 'removed<nodes', 'removed<onodes'])
    ctx.match(R, s, lambda e: e.kind == 'call' and 'ConstraintBuilder' in e.name and e.args and show(strip(e.args[0])) == 'submap_id', [
        E('call', P + 'constraint_builder_', name='DeleteScanMatcher', args=['submap_id'], guard='true')])
    filtered(ctx, R, s, rem)
    # nothing else of the graph changes
    for e in s.effects:
        if e.kind in ('write', 'append', 'mutate') and root(e.obj).op == 'this':
            o = show(strip(target(e.obj)))
            ctx.ob(R, '%s (%s:%d)' % (fn, e.file, e.line), o in (S_, PD + 'trajectory_nodes', PD + 'constraints'), 'trimming changes something else: ' + brief(e)[:200])
    # what the trimmers see
    ids = g.s('GetSubmapIds', cls=H)
    T = 'traj(%soptimization_problem_.submap_data(), trajectory_id)' % P
    built(ctx, R, ids, [E('append', 'result', T + '[$i].id', guard='true', each=[T])])


def built(ctx, rule, s, want, also=()):
    """The result is a fresh object filled by exactly these effects."""
    ret = [e for e in s.effects if e.kind == 'return']
    ctx.ob(rule, s.fn['sqn'], len(ret) == 1 and strip(ret[0].val).op in ('obj', 'copy'), 'the result is not built here')
    if len(ret) == 1 and strip(ret[0].val).op in ('obj', 'copy'):
        r = renamed(s, {'result': strip(ret[0].val)})
        ctx.spec_on(rule, r, want, rel=named('result'))


def filtered(ctx, rule, s, rem):
    """What remains of the constraints: the composition of all filters in order."""
    C = PD + 'constraints'
    fn = s.fn['sqn']
    steps = [e for e in s.effects if e.kind in ('write', 'append', 'mutate') and show(strip(target(e.obj))) == C and not e.loops or
             e.kind == 'write' and show(strip(e.obj)) == C]
    el = mk('elem')
    conds, ok = [], bool(steps)

    def norm(t, i):
        return rewrite(canon(strip(t)), lambda y: el if y.op == 'at' and show(y.a[0]) == C and (i is None or y.a[1] is i or strip(y.a[1]) is i) else None, {})
    for e in steps:
        if e.guard:
            ok = False
        elif e.kind == 'write':
            o = strip(e.val)
            fill = [x for x in s.effects if x.kind in ('append', 'write', 'mutate') and root(x.obj) is o]
            if o.op != 'obj' or len(fill) != 1 or fill[0].kind != 'append' or len(fill[0].loops) != 1 or show(strip(fill[0].loops[0].C if fill[0].loops[0].C is not None else VOID)) != C and not (
                    strip(fill[0].loops[0].hi).op == 'size' and show(strip(fill[0].loops[0].hi).a[0]) == C) or fill[0].loops[0].exits or s.effects.index(fill[0]) > s.effects.index(e):
                ok = False
                continue
            x = fill[0]
            if norm(x.val, None) is not el:
                ok = False
            conds.append(and_(*[norm(f, None) for f in x.guard]))
        elif e.kind == 'mutate' and e.name == 'erase' and len(e.args) == 2:
            a = strip(e.args[0])
            lam = [y for y in kids(a) if isinstance(y, Term) and y.op == 'lam'] if a.op == 'callx' and a.a[0] == 'std::remove_if' else []
            if len(lam) != 1 or strip(e.args[1]).op != 'end':
                ok = False
                continue
            c = ctx.closure(s, lam[0])
            q = [p_ for p_ in c.params if p_.op == 'param'][-1]
            out = or_(*[and_(*[canon(strip(f)) for f in y.guard if f not in e.guard], canon(strip(y.val))) for y in c.effects if y.kind == 'return'])
            conds.append(not_(rewrite(out, lambda y: el if y is q else None, {})))
        else:
            ok = False
    ctx.ob(rule, fn, ok, 'the constraints that stay are not a selection from all of them')
    if not ok:
        return
    got = and_(*conds)
    want = and_(build(pat((OTHER % ('c.submap_id', 'c.submap_id'))), {}, dict(ctx.names(s), c=el)), not_(has(rem, F(F(el, 'node_id'), 'x') if False else F(el, 'node_id'))))
    want = canon(strip(want))
    ctx.ob(rule, fn, entails([got], want), 'a constraint to the trimmed submap or of a removed node stays: kept if ' + pshow(got)[:300])
    ctx.ob(rule, fn, entails([want], got), 'a constraint between a submap and a node that stay is dropped: kept if ' + pshow(got)[:300])


def pure(ctx):
    R = 'localization-keeps-the-newest'
    p = ctx.program('mapping/pose_graph_trimmer.cc')
    C = 'mapping::PureLocalizationTrimmer'
    s = ctx.summarise(p, p.fn(C + '::PureLocalizationTrimmer'))
    ctx.refuses(R, s, 'num_submaps_to_keep > 1', 'fewer than two submaps may be kept: matching needs two')
    ctx.match(R, s, of_kind('write'), [E('write', 'this.trajectory_id_', 'trajectory_id', guard='true'), E('write', 'this.num_submaps_to_keep_', 'num_submaps_to_keep', guard='true'), E('write', 'this.finished_', 'false', guard='true')])
    s = ctx.summarise(p, p.fn(C + '::Trim'))
    fin = 'pose_graph.IsFinished(this.trajectory_id_)'
    ids = 'pose_graph.GetSubmapIds(this.trajectory_id_)'
    keep = '(%s ? 0 : this.num_submaps_to_keep_)' % fin
    end = '%s || this.num_submaps_to_keep_ == 0' % fin
    ctx.match(R, s, any_of(of_kind('write'), calls('TrimSubmap', 'SetTrajectoryState')), [
        E('write', 'this.num_submaps_to_keep_', '0', guard=fin),
        E('call', 'pose_graph', name='TrimSubmap', args=[ids + '[$n]'], each=[None]),
        E('write', 'this.finished_', 'true', guard=end), E('call', 'pose_graph', name='SetTrajectoryState', args=['this.trajectory_id_', 'DELETED'], guard=end)])
    t = [e for e in s.effects if e.kind == 'call' and e.name.endswith('TrimSubmap')]
    for e in t:
        L = e.loops[0] if len(e.loops) == 1 else None
        ok = L is not None and not [x for x in L.exits if x] if False else L is not None
        b = None
        if L is not None:
            n = canon(strip(strip(e.args[0]).a[1])) if strip(e.args[0]).op == 'at' else None
            cond = [canon(strip(f)) for f in e.guard]
            top = '%s + $n < |%s|' % (keep, ids)
            if n is not None and n.op == 'iter':
                b = len(cond) == 1 and unify(pat(top), cond[0], {}) is not None and unify(pat('iter($i, 0, 1 + acc())'), n, {}) is not None and unify(pat(top.replace('$n', 'iter($i, 0, 1 + acc())')), cond[0], {}) is not None
            elif n is not None:
                b = not cond and n is canon(strip(L.idx)) and L.step == 1 and strip(L.lo) is I(0) and any(unify(pat(w % (ids, keep)), canonc(L.hi), {}) is not None for w in ('|%s| - %s', 'max(0, |%s| - %s)'))
        ctx.ob(R, '%s (%s:%d)' % (s.fn['sqn'], e.file, e.line), bool(b), 'not exactly the oldest submaps beyond those to keep are trimmed: ' + brief(e)[:300])
    ctx.spec_on(R, s, [E('write', 'this.num_submaps_to_keep_', '0', guard=fin, tag='keep'), E('call', 'pose_graph', name='TrimSubmap', each=[None], tag='trim'),
                       E('call', 'pose_graph', name='SetTrajectoryState', guard=end, tag='state')],
                rel=any_of(on_fields('num_submaps_to_keep_'), calls('TrimSubmap', 'SetTrajectoryState')), order=['trim<state'])
    s = ctx.summarise(p, p.fn(C + '::IsFinished'))
    ctx.match(R, s, of_kind('return'), [E('return', val='this.finished_', guard='true')])


SD = 'pose_graph.GetOptimizedSubmapData()'
CO = 'pose_graph.GetConstraints()'
TN = 'pose_graph.GetTrajectoryNodes()'


def overlapping(ctx):
    R = 'overlap-decides'
    p = ctx.program('mapping/internal/2d/overlapping_submaps_trimmer_2d.cc')
    C = 'mapping::OverlappingSubmapsTrimmer2D'
    s = ctx.summarise(p, p.fn(C + '::Trim'), opaque=[r'::Grid2D::(ComputeCroppedLimits|IsKnown)', 'Rigid[23]::', 'transform::', 'common::RoundTo', 'common::Pow2'])
    fn = s.fn['sqn']
    eff = s.effects

    def need(x, msg):
        ctx.ob(R, fn, bool(x), msg)
        return x
    on = lambda o: [e for e in eff if e.kind in ('append', 'write', 'mutate') and root(e.obj) is o]
    t = [e for e in eff if e.kind == 'call' and e.name.endswith('TrimSubmap')]
    if not need(len(t) == 1 and strip(t[0].args[0]).op == 'at' and root(t[0].args[0]).op == 'obj', 'the submaps to trim are not trimmed at one place'):
        return
    trim = root(t[0].args[0])
    a = on(trim)
    if not need(len(a) == 1 and a[0].kind == 'append' and root(a[0].val).op == 'obj' and strip(a[0].val).op == 'at', 'the submaps to trim are not a selection of the candidates'):
        return
    all_ = root(a[0].val)
    hs = {root(x.a[0]) for f in a[0].guard for x in subterms(strip(f)) if x.op == 'has' and root(x.a[0]).op == 'obj'}
    if not need(len(hs) == 1, 'the submaps to trim are not those that are not kept'):
        return
    kept = next(iter(hs))
    k = on(kept)
    if not need(len(k) == 1 and k[0].kind == 'append' and root(k[0].val).op == 'obj', 'the submaps to keep are not a selection of the counted ones'):
        return
    counts = root(k[0].val)
    fr = {root(x.a[0]) for e in on(all_) for f in e.guard for x in subterms(strip(f)) if x.op == 'has'}
    if not need(len(fr) == 1 and next(iter(fr)).op == 'obj', 'the candidates are not chosen by their freshness'):
        return
    fresh = next(iter(fr))
    lt_ = {root(x) for e in on(fresh) for l in e.loops for x in [l.C] if x is not None}
    if not need(len(lt_) == 1 and next(iter(lt_)).op == 'obj', 'freshness is not that of the latest node'):
        return
    latest = next(iter(lt_))
    pts = [e for e in eff if e.kind == 'append' and show(strip(e.obj)).find('.cells_[') >= 0]
    if not need(len(pts) == 1, 'cells are not recorded at one place'):
        return
    grid = root(pts[0].obj)
    crop = [e for e in eff if e.kind == 'call' and e.name.endswith('Grid2D::ComputeCroppedLimits')]
    if not need(len(crop) == 1, 'the cells of a submap are not taken from its grid'):
        return
    off, lim = strip(crop[0].args[0]), strip(crop[0].args[1])
    ix = [l for l in pts[0].loops if l.C is not None and strip(l.C).op == 'obj']
    if not need(len(ix) == 1, 'not every cell of the submap is looked at'):
        return
    xy = strip(ix[0].C)
    r = renamed(s, {'trim': trim, 'all': all_, 'kept': kept, 'counts': counts, 'fresh': fresh, 'latest': latest, 'grid': grid, 'offset': off, 'limits': lim, 'xy': xy})
    had = 'min(this.current_submap_count_, |%s|)' % SD
    G = '%s + this.min_added_submaps_count_ < |%s|' % (had, SD)
    c = CO + '[$i]'
    sm = SD + '[$i]'
    cand = '%s.id in fresh && %s.data.submap.insertion_finished_ && %s' % (sm, sm, G)
    gr = sm + '.data.submap.grid_'
    some = 'limits.num_x_cells != 0 && limits.num_y_cells != 0'
    first = SD + '[0].data.submap.grid_.limits_'
    lm = gr + '.limits_'
    centre = 'Matrix(%s.max_[0] - %s.resolution_ * (offset[1] + xy[$j][1] + 0.5), %s.max_[1] - %s.resolution_ * (offset[0] + xy[$j][0] + 0.5), 0)' % (lm, lm, lm, lm)
    pos = 'Project2D(%s.data.pose @ %s.data.submap.local_pose_.inverse() @ Rigid3::Translation(%s)).translation()' % (sm, sm, centre)
    cell = '{first=RoundToInt64((grid.offset_[0] - %s[0]) / %s.resolution_), second=RoundToInt64((grid.offset_[1] - %s[1]) / %s.resolution_)}' % (pos, first, pos, first)
    l1 = E('append', 'latest', c + '.node_id', guard='%s.tag == INTRA_SUBMAP && !(%s.submap_id in latest) && %s' % (c, c, G), each=[CO], tag='l1')
    l2 = E('write', 'latest[%s.submap_id]' % c, 'max(%s.node_id, latest[%s.submap_id])' % (c, c), guard='%s.tag == INTRA_SUBMAP && %s.submap_id in latest && %s' % (c, c, G), each=[CO], tag='l2')
    # the same in other words: the entry made only if there is none, the later node kept by comparing the two
    l0 = E('append', 'latest', c + '.node_id', guard='%s.tag == INTRA_SUBMAP && %s' % (c, G), each=[CO], tag='l1')
    have = 'latest[%s.submap_id]' % c
    l3 = E('write', have, c + '.node_id', guard='{c}.tag == INTRA_SUBMAP && {c}.submap_id in latest && {g} && ({k}.trajectory_id < {c}.node_id.trajectory_id || {k}.trajectory_id == {c}.node_id.trajectory_id && {k}.node_index < {c}.node_id.node_index)'.format(c=c, g=G, k=have), each=[CO], tag='l2')
    ctx.trial(lambda alt: ctx.spec_on(R, r, [
        alt((l1, l2))[0], alt((l1, l2))[1],
        E('write', 'fresh[latest[$i].first]', TN + '[latest[$i].second].constant_data.time', guard='latest[$i].first in %s && latest[$i].second in %s && %s' % (SD, TN, G), each=['latest'], tag='f'),
        E('append', 'all', sm + '.id', guard=cand, each=[SD], tag='all'),
        E('append', 'kept', 'counts[$i].first', guard='$min <= counts[$i].second && ' + G, each=['counts'], tag='kept'),
        E('append', 'trim', 'all[$i]', guard='!(all[$i] in kept) && ' + G, each=['all'], tag='trim'),
        E('write', 'counts[$x.first]', '1 + counts[$x.first]', guard=G, each=['grid.cells_', None], tag='count'),
        E('write', 'this.current_submap_count_', had, guard='true', optional=True),
        E('write', 'this.current_submap_count_', '|%s| - |trim|' % SD, guard=G, stale_ok=True, tag='n'),
        E('call', 'pose_graph', name='TrimSubmap', args=['trim[$i]'], guard=G, each=['trim'], tag='do'),
        E('write', 'grid.offset_', SD + '[0].data.submap.grid_.limits_.max_', guard=G, tag='o'),
        E('write', 'grid.resolution_', SD + '[0].data.submap.grid_.limits_.resolution_', guard=G, tag='r'),
        E('write', 'grid.cells_', '_', guard=G, optional=True),
        E('append', 'grid.cells_[%s]' % cell, '{first=%s.id, second=fresh[%s.id]}' % (sm, sm), each=[SD, 'xy'], guard='%s && %s && %s.IsKnown(offset + xy[$j])' % (cand, some, gr), tag='p'),
        E('write', 'xy.min_xy_index_', '_', guard='%s && %s' % (cand, some), each=[SD]), E('write', 'xy.xy_index_', '_', guard='%s && %s' % (cand, some), each=[SD]),
        E('write', 'xy.max_xy_index_', 'Array(limits.num_x_cells - 1, limits.num_y_cells - 1)', guard='%s && %s' % (cand, some), each=[SD])],
        rel=lambda e: named('trim', 'all', 'kept', 'counts', 'fresh', 'latest', 'grid', 'xy')(e) and not copied(e) or e.kind == 'write' and on_fields('current_submap_count_')(e) or
        e.kind == 'call' and e.name.endswith('TrimSubmap'), order=['l1<f', 'l2<f', 'f<all', 'f<p', 'all<trim', 'p<count', 'count<kept', 'kept<trim', 'trim<do']) or True, lambda x: (x[0], l3), lambda x: (l0, x[1]), lambda x: (l0, l3))


    # the kept ones: covered area at least the minimum, counted without wrapping around
    wide = ('int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'double', 'float')
    mins = [x.a[0] if x.op == 'le' else x.a[1] for f in k[0].guard for x in subterms(canon(strip(f))) if x.op in ('le', 'lt') and any(y is counts for y in subterms(x))]
    want = pat('this.min_covered_area_ / Pow2(%s.resolution_)' % first)
    for m in mins:
        c = m
        while c.op == 'cast' or c.op == 'call' and c.a[0].split('::')[-1] in ('ceil',):
            need(c.op != 'cast' or c.a[0] in wide, 'the minimum number of covered cells is cut to ' + str(c.a[0]))
            c = c.a[1] if c.op == 'cast' else c.a[2]
        need(unify(want, canon(strip(c)), {}) is not None, 'the minimum number of covered cells is not the configured area: ' + pshow(c)[:200])
    need(mins, 'the covered cells are not compared with the minimum')
    T = counts.a[0]
    need(any(', %s, ' % w in T or ', %s>' % w in T for w in wide), 'covered cells are counted in a type that wraps around: ' + T[:120])
    # of each cell only the freshest submaps count
    cnt = [e for e in on(counts) if e.kind == 'write']
    src = strip_v(cnt[0].loops[-1].C) if cnt and cnt[0].loops and cnt[0].loops[-1].C is not None else None
    ms = [e for e in eff if e.kind in ('mutate', 'write', 'append') and copied(e)]
    so = [e for e in eff if e.kind == 'call' and e.name in ('std::sort', 'std::stable_sort', 'std::partial_sort', 'std::nth_element')]
    if not need(len(ms) == 1 and len(so) == 1 and src is not None and src.op == 'copy', 'a cell does not keep the freshest submaps only'):
        return
    m, o = ms[0], so[0]
    ok = m.name == 'erase' and len(m.args) == 2 and strip(m.args[1]).op == 'end' and unify(pat('this.fresh_submaps_count_ + begin($c)'), canon(strip(m.args[0])), {}) is not None or \
        m.name == 'resize' and show(strip(m.args[0])) == 'this.fresh_submaps_count_'
    need(ok, 'a cell does not keep the configured number of submaps: ' + brief(m)[:200])
    over = [f for f in m.guard if unify(pat('this.fresh_submaps_count_ < |$c|'), canon(strip(f)), {}) is not None]
    need(len(over) == 1 and len(m.guard) == len(cnt[0].guard) + 1, 'cells with more submaps than the configured number are not reduced: ' + brief(m)[:200])
    need(eff.index(o) < eff.index(m) < eff.index(cnt[0]) and set(o.guard) <= set(m.guard) and strip(o.obj) is strip(m.obj) is strip(src), 'the submaps of a cell are not ordered before the rest is dropped')
    lam = [a for a in o.args if a.op == 'lam']
    if need(len(lam) == 1, 'the submaps of a cell are not ordered by freshness'):
        c = relative(s, ctx.closure(s, lam[0]), o)
        q = [x.a[0] for x in c.params if x.op == 'param'][-2:]
        ctx.match(R, c, of_kind('return'), [E('return', val='%s.second > %s.second' % (q[0], q[1]), guard='true')], where=fn + ' (order)')
    for f in (p.fn(C + '::' + short(C).split('::')[-1]),):
        cs = ctx.summarise(p, f)
        ctx.match(R, cs, of_kind('write'), [E('write', 'this.%s_' % n, n, guard='true') for n in ('fresh_submaps_count', 'min_covered_area', 'min_added_submaps_count')] + [
            E('write', 'this.current_submap_count_', '0', guard='true'), E('write', 'this.finished_', 'false', guard='true')])


def strip_v(t):
    while t.op == 'v':
        t = t.a[0]
    return t


def copied(e):
    t = e.obj
    while isinstance(t, Term) and t.op in ('f', 'at', 'v'):
        t = t.a[0]
    return isinstance(t, Term) and t.op == 'copy'


if __name__ == '__main__':
    main('P27', check, 'effect and selection summaries of trimming and of both trimmers',
         'what a trimmed submap takes along and which submaps the trimmers choose, for every graph', tus=TUS + ['mapping/pose_graph_trimmer.cc', 'mapping/internal/2d/overlapping_submaps_trimmer_2d.cc'])
