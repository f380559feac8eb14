#!/usr/bin/env python3
"""Range data insertion: which cells a scan updates, with what, and that every update is finished."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

TUS = ['mapping/2d/probability_grid_range_data_inserter_2d.cc', 'mapping/internal/2d/tsdf_range_data_inserter_2d.cc', 'mapping/3d/range_data_inserter_3d.cc', 'sensor/point_cloud.cc']
OP = ['GetCellIndex', 'GetCellCenter', 'RayToPixelMask', 'ApplyLookupTable', 'FinishUpdate', 'GrowLimits', 'ComputeLookupTable', 'CellIsUpdated', 'SetCell', 'GetTSD', 'InsertHit', 'UpdateCell',
      'GaussianKernel', 'RangeWeight', 'EstimateNormals', 'NormalizeAngle', 'Clamp', 'AddIntensity', 'MapLimits::MapLimits', 'mapping::Odds', 'SuperscaleRay', 'common::atan2']


def xy(p):
    return 'Matrix(%s[0], %s[1])' % (p, p)


def sup(g):
    return 'MapLimits({0}.limits_.resolution_ / 1000, {0}.limits_.max_, {{num_x_cells=1000 * {0}.limits_.cell_limits_.num_x_cells, num_y_cells=1000 * {0}.limits_.cell_limits_.num_y_cells}})'.format(g)


def finished(ctx, s, grid):
    """FinishUpdate on every path that returns, once, after the last update."""
    fin = [e for e in s.effects if e.kind == 'call' and e.name.endswith('FinishUpdate')]
    upd = [e for e in s.effects if e.kind == 'call' and e.name.split('::')[-1] in ('ApplyLookupTable', 'InsertHit', 'SetCell')]
    ctx.ob('update-finished', s.fn['sqn'], len(fin) == 1 and not fin[0].guard and not fin[0].loops and show(strip(fin[0].obj)) == grid and all(s.effects.index(u) < s.effects.index(fin[0]) for u in upd),
           'an update of the grid is not finished exactly once at the end')


def check(ctx):
    p = ctx.program(*TUS)
    # probability grids
    K = 'mapping::ProbabilityGridRangeDataInserter2D::'
    odds = lambda o, h: 'ComputeLookupTableToApply%s(Odds(options%s.%s_probability))' % (o, '', h)
    s = ctx.summarise(p, [f for f in p.overloads(K + 'ProbabilityGridRangeDataInserter2D') if not f.get('implicit')][0], opaque=OP)
    ctx.spec_on('tables-from-the-options', s, [
        E('write', 'this.options_', 'options', guard='true'), E('write', 'this.hit_table_', odds('CorrespondenceCostOdds', 'hit'), guard='true', casts=True),
        E('write', 'this.miss_table_', odds('CorrespondenceCostOdds', 'miss'), guard='true', casts=True)], rel=of_kind('write'))
    s = ctx.summarise(p, p.fn(K + 'Insert'), opaque=OP)
    R, M = 'range_data.returns.points_', 'range_data.misses.points_'
    S = sup('grid')
    begin = '%s.GetCellIndex(%s)' % (S, xy('range_data.origin'))
    end = lambda c: '%s.GetCellIndex(%s)' % (S, xy('%s[$i].position' % c))
    free = 'this.options_.insert_free_space'
    ends = [e.obj for e in s.effects if e.kind == 'append']
    ctx.spec_on('hits-and-free-space', s, [
        E('append', '$e', end(R), guard='true', each=[R], tag='end', optional=True),
        E('call', 'grid', name='ApplyLookupTable', args=['last($e) // 1000', 'this.hit_table_'], guard='true', each=[R], tag='hit', stale_ok=True) if any(
            e.kind == 'call' and e.name.endswith('ApplyLookupTable') and 'last(' in show(e.args[0]) for e in s.effects) else
        E('call', 'grid', name='ApplyLookupTable', args=['%s // 1000' % end(R), 'this.hit_table_'], guard='true', each=[R], tag='hit'),
        E('call', 'grid', name='ApplyLookupTable', args=['RayToPixelMask(%s, $e[$i], 1000)[_]' % begin if ends else 'RayToPixelMask(%s, %s, 1000)[_]' % (begin, end(R)), 'this.miss_table_'], guard=free,
          each=['$e' if ends else R, None], tag='miss'),
        E('call', 'grid', name='ApplyLookupTable', args=['RayToPixelMask(%s, %s, 1000)[_]' % (begin, end(M)), 'this.miss_table_'], guard=free, each=[M, None], tag='empty')],
        order=['end<hit', 'hit<miss', 'hit<empty'], rel=lambda e: e.kind == 'append' or e.kind == 'call' and e.name.endswith('ApplyLookupTable'))
    ctx.ob('hits-and-free-space', s.fn['sqn'], all(l.full() for e in s.effects if e.kind == 'call' and e.name.endswith('ApplyLookupTable') for l in e.loops), 'a ray is not followed to its end')
    finished(ctx, s, 'grid')
    grown(ctx, s, ['Matrix({0}[$i].position[0], {0}[$i].position[1])'.format(c) for c in (R, M)], [R, M])
    # TSDF
    K = 'mapping::TSDFRangeDataInserter2D::'
    s = ctx.summarise(p, p.fn(K + 'Insert'), opaque=OP)
    finished(ctx, s, 'grid')
    T = 'this.options_.truncation_distance'
    grown(ctx, s, [xy('({1} * (-range_data.origin + {0}[$i].position).normalized() + {0}[$i].position)'.format(R, T))], [R])
    hits = [e for e in s.effects if e.kind == 'call' and e.name.endswith('InsertHit')]
    need = '(this.options_.project_sdf_distance_to_scan_normal || this.options_.update_weight_angle_scan_normal_to_ray_kernel_bandwidth != 0)'
    ctx.match('normals-when-needed', s, lambda e: e.kind == 'call' and e.name.endswith('EstimateNormals'), [E('call', args=[None, 'this.options_.normal_estimation_options'], guard=need, tag='n')])
    ctx.ob('every-hit-inserted', s.fn['sqn'], len(hits) == 1 and all(len(e.loops) == 1 and e.loops[0].full() and strip(e.loops[0].lo) is I(0) for e in hits) and not [g for e in hits for g in e.guard],
           'not every return is inserted: ' + '; '.join(map(brief, hits)))
    for e in hits:
        a = [E('call').st(x) for x in e.args]
        ctx.ob('every-hit-inserted', s.fn['sqn'], show(a[0]) == 'this.options_' and show(a[4]) == 'grid' and unify(pat(xy('range_data.origin')), a[2], {}) is not None, 'a ray does not start at the origin: ' + brief(e))
        ctx.ob('every-hit-inserted', s.fn['sqn'], any(unify(pat(xy('$p.position')), x, {}) is not None for x in [a[1]] + list(kids(a[1]))), 'the end of the ray is not the return: ' + brief(e))
    s = ctx.summarise(p, p.fn(K + 'InsertHit'), opaque=OP)
    Tf = T
    r = '(hit - origin).norm()'
    far = '%s <= %s' % (Tf, r)
    ray = 'RayToPixelMask(SuperscaleRay({b}, {e}, tsdf).first, SuperscaleRay({b}, {e}, tsdf).second, 1000)'
    e_ = 'origin + (1 + {t} / {r}) * (hit - origin)'.format(t=Tf, r=r)
    fs, pj, an, rg, ds = 'this.options_.update_free_space', 'this.options_.project_sdf_distance_to_scan_normal', 'this.options_.update_weight_angle_scan_normal_to_ray_kernel_bandwidth', \
        'this.options_.update_weight_range_exponent', 'this.options_.update_weight_distance_cell_to_hit_kernel_bandwidth'
    upd = [e for e in s.effects if e.kind == 'call' and e.name.endswith('UpdateCell')]
    for f, j, a, g, d in itertools.product((1, 0), repeat=5):
        cell = ray.format(b='origin' if f else 'origin + (1 - {t} / {r}) * (hit - origin)'.format(t=Tf, r=r), e=e_) + '[$i]'
        ctr = 'tsdf.limits_.GetCellCenter(%s)' % cell
        tsd = 'Clamp(%s, -%s, %s)' % ('(%s - hit).dot(Matrix(cos(normal), sin(normal)))' % ctr if j else '%s - (%s - origin).norm()' % (r, ctr), Tf, Tf)
        w = ' * '.join(['1'] + (['GaussianKernel(NormalizeAngleDifference(normal - atan2(origin - hit)), %s)' % an] if a else []) + (['ComputeRangeWeightFactor(%s, %s)' % (r, rg)] if g else []) +
                       (['GaussianKernel(%s, %s)' % (tsd, ds)] if d else []))
        case = [fs if f else '!' + fs, pj if j else '!' + pj, an + (' != 0' if a else ' == 0'), rg + (' != 0' if g else ' == 0'), ds + (' != 0' if d else ' == 0'), far]
        ctx.match('cells-of-a-ray', specialise(s, case), lambda e: e.kind == 'call' and e.name.endswith('UpdateCell'), [
            E('call', 'this', name='UpdateCell', args=[cell, tsd, w, 'tsdf'], guard='!tsdf.CellIsUpdated(%s)' % cell, casts=True)])
    ctx.match('short-rays-dropped', specialise(s, ['%s < %s' % (r, Tf)]), lambda e: e.kind == 'call' and e.name.endswith('UpdateCell'), [])
    ctx.ob('cells-of-a-ray', s.fn['sqn'], upd and all(len(e.loops) == 1 and e.loops[0].full() for e in upd), 'a ray is not followed to its end')
    f = p.fn('mapping::SuperscaleRay')
    ctx.result('cells-of-a-ray', p, f, {'first': sup('tsdf') + '.GetCellIndex(begin)', 'second': sup('tsdf') + '.GetCellIndex(end)'}, opaque=[o for o in OP if o != 'SuperscaleRay'])
    W = 'tsdf.GetTSDAndWeight(cell)'
    ctx.spec('weighted-mean', p, K + 'UpdateCell', [E('call', 'tsdf', name='SetCell', args=[
        'cell', '({0}.first * {0}.second + update_sdf * update_weight) / ({0}.second + update_weight)'.format(W), 'min({0}.second + update_weight, this.options_.maximum_weight)'.format(W)],
        guard='update_weight != 0', casts=True)], rel=lambda e: e.kind in ('call', 'write') and not e.name.endswith('GetTSDAndWeight'), opaque=[o for o in OP if o != 'UpdateCell'])
    ctx.value('weight-kernels', p, 'mapping::GaussianKernel', '1 / (kSqrtTwoPi * sigma) * exp(-0.5 * x * x / (sigma * sigma))', casts=True)
    f = p.fn('mapping::ComputeRangeWeightFactor')
    rs = [E('return', casts=True).st(e.val) for e in result_effects(ctx.summarise(p, f)) if strip(e.obj) is RESULT]
    cond = [x for r in rs for x in subterms(r)] + [E('return', casts=True).st(g) for e in result_effects(ctx.summarise(p, f)) for g in e.guard]
    k = [m['k'] for m in (unify(pat('$k < abs(range)'), x, {}) for x in cond) if m]
    small = k and all((const(x) or (0, None))[1] is not None or x.op == 'g' and p.global_value(x.a[0]) is not None for x in k) and all(
        0 < (p.global_value(x.a[0]) if x.op == 'g' else const(x)[1]) <= 1e-3 for x in k)
    ctx.ob('weight-kernels', f['sqn'], small, 'the smallest weighted range is not a small constant')
    for x in k[:1]:
        c = 'g("%s")' % x.a[0] if x.op == 'g' else repr(x.a[0])
        ctx.value('weight-kernels', p, f, {'%s < abs(range)' % c: '1 / pow(range, exponent)', '!(%s < abs(range))' % c: '0'}, casts=True)
    # 3D
    K = 'mapping::RangeDataInserter3D::'
    s = ctx.summarise(p, [f for f in p.overloads(K + 'RangeDataInserter3D') if not f.get('implicit')][0], opaque=OP)
    tb = lambda h: 'ComputeLookupTableToApplyOdds(Odds($o.%s_probability))' % h
    ctx.spec_on('tables-from-the-options', s, [E('write', 'this.options_', 'options', guard='true'), E('write', 'this.hit_table_', tb('hit'), guard='true', casts=True),
                                              E('write', 'this.miss_table_', tb('miss'), guard='true', casts=True)], rel=of_kind('write'))
    s = ctx.summarise(p, p.fn(K + 'Insert'), opaque=OP)
    H = 'hybrid_grid.GetCellIndex(%s)'
    o, h = H % 'range_data.origin', H % ('%s[$i].position' % R)
    n = '(%s - %s).cwiseAbs().maxCoeff()' % (h, o)
    miss = [e for e in s.effects if e.kind == 'call' and e.name.endswith('ApplyLookupTable') and len(e.loops) == 2]
    ctx.spec_on('hits-and-free-space', s, [
        E('call', 'hybrid_grid', name='ApplyLookupTable', args=[h, 'this.hit_table_'], guard='true', each=[R], tag='hit'),
        E('call', 'hybrid_grid', name='ApplyLookupTable', args=['%s + ((%s - %s) * $j) // %s' % (o, h, o, n), 'this.miss_table_'], guard='true', each=[R, 'max(0, %s - this.options_.num_free_space_voxels)..%s' % (n, n)], tag='miss')],
        order=['hit<miss'], rel=lambda e: e.kind == 'call' and e.name.endswith('ApplyLookupTable'))
    I_ = 'range_data.returns.intensities_'
    ctx.match('intensities', s, lambda e: e.kind == 'call' and e.name.endswith('AddIntensity'), [
        E('call', 'intensity_hybrid_grid', args=['intensity_hybrid_grid.GetCellIndex(%s[$i].position)' % R, I_ + '[$i]'],
          guard='intensity_hybrid_grid != null && |%s| != 0 && %s[$i] <= this.options_.intensity_threshold' % (I_, I_), each=['..|%s|' % R])])
    finished(ctx, s, 'hybrid_grid')


def grown(ctx, s, exts, ranges):
    """The grid is grown to both corners of the box around the origin and all the given points, before any update."""
    g = [e for e in s.effects if e.kind == 'call' and e.name.endswith('GrowLimits')]
    first = min([i for i, e in enumerate(s.effects) if e.kind == 'call' and e.name.split('::')[-1] in ('ApplyLookupTable', 'InsertHit')] or [10**9])
    ctx.ob('grown-first', s.fn['sqn'], len(g) == 2 and not any(e.guard or e.loops for e in g) and all(s.effects.index(e) < first for e in g), 'the grid is not grown before it is updated')
    ok = set()
    for e in g:
        a = E('call', casts=True).st(e.args[0])
        for c in ('min', 'max'):
            ms = list(a.a[0]) if a.op == 'poly' else [(1, (a,))]
            corner = [k for k, x in ms if len(x) == 1 and x[0].op == 'call' and str(x[0].a[0]).split('::')[-1] == c]
            pad = [k for k, x in ms if len(x) == 1 and 'Ones' in show(x[0])]
            if corner == [1] and len(pad) == len(ms) - 1 and all(k < 0 if c == 'min' else k > 0 for k in pad):
                ok.add(c)
    ctx.ob('grown-first', s.fn['sqn'], {'min', 'max'} <= ok, 'the grid is not grown to both corners of the bounding box')
    box = [e for e in s.effects if e.kind == 'mutate' and e.name == 'extend']
    ctx.match('grown-first', s, lambda e: e in box, [E('mutate', None, name='extend', args=[x], guard='true', each=[r], casts=True) for x, r in zip(exts, ranges)])
    ctx.ob('grown-first', s.fn['sqn'], all(s.effects.index(b) < min(s.effects.index(x) for x in g) for b in box) and 'AlignedBox(' in pshow(E('call').st(g[0].args[0])) and 'range_data.origin' in pshow(E('call').st(g[0].args[0])), 'the bounding box misses a point')


if __name__ == '__main__':
    main('P16', check, 'value-flow summaries of the insertion code compared with the insertion rules',
         'every return and miss of every scan updates the cells the rules name, hits first, in a grown grid, and the update is finished on all paths', tus=TUS)
