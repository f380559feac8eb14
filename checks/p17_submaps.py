#!/usr/bin/env python3
"""Submaps: how many scans enter one, when it is finished and retired, what never changes afterwards, and how it is stored and drawn."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

TUS = ['mapping/2d/submap_2d.cc', 'mapping/3d/submap_3d.cc']
FULL = '(|this.submaps_| == 0 || last(this.submaps_).num_range_data_ == this.options_.num_range_data)'
OP2 = ['ProbabilityGrid::', 'TSDF', 'RangeDataInserter2D', 'CreateGrid', 'transform::', 'DrawToSubmap', 'ComputeCropped', 'MapLimits::']
OP3 = ['HybridGrid::ToProto', 'HybridGridBase::', 'RangeDataInserter3D::', 'transform::Rigid3::cast', 'transform::To', 'GetYaw', 'AddToTexture', 'TransformRangeData', 'FilterRange', 'RotateHist']


def check(ctx):
    p = ctx.program(*TUS, 'sensor/point_cloud.cc')
    S, S2, S3, A2, A3 = ['mapping::%s::' % c for c in ('Submap', 'Submap2D', 'Submap3D', 'ActiveSubmaps2D', 'ActiveSubmaps3D')]
    # the common part: written by the constructor and the two setters only, setters called by the lifecycle only
    for m, v in (('local_pose', 'this.local_pose_'), ('num_range_data', 'this.num_range_data_'), ('insertion_finished', 'this.insertion_finished_')):
        ctx.value('accessors', p, S + m, v)
    ctx.final('accessors', p, S + 'set_num_range_data', {'this.num_range_data_': 'num_range_data'})
    ctx.final('accessors', p, S + 'set_insertion_finished', {'this.insertion_finished_': 'insertion_finished'})
    life = lambda *fs: where(lambda e: on_fields(*fs)(e))
    # 2D
    ctx.spec('insert-counts', p, S2 + 'InsertRangeData', [
        E('call', 'range_data_inserter', name='Insert', args=['range_data', 'this.grid_'], guard='true', facts=['!this.insertion_finished_', 'this.grid_ != null'], tag='ins'),
        E('write', 'this.num_range_data_', '1 + this.num_range_data_', guard='true', facts=['!this.insertion_finished_'], tag='n')], opaque=OP2, rel=any_of(of_kind('write'), calls('Insert')))
    ctx.spec('finished-once-and-cropped', p, S2 + 'Finish', [
        E('write', 'this.grid_', 'this.grid_.ComputeCroppedGrid()', guard='true', facts=['!this.insertion_finished_'], tag='crop'),
        E('write', 'this.insertion_finished_', 'true', guard='true', facts=['!this.insertion_finished_'], tag='fin')], opaque=OP2, rel=of_kind('write'))
    ctx.refuses('finished-once-and-cropped', ctx.summarise(p, p.fn(S2 + 'Finish'), opaque=OP2), 'this.grid_ != null && !this.insertion_finished_', 'finishing again or without a grid is accepted')
    active(ctx, p, A2 + 'InsertRangeData', OP2, [
        E('call', 'this.range_data_inserter_', name='Insert', args=['range_data', 'this.submaps_[$i].grid_'], guard='true', each=['this.submaps_'], tag='ins')],
        [E('write', '$n.local_pose_', 'Rigid3::Translation(Matrix(range_data.origin[0], range_data.origin[1], 0))', guard=FULL),
         E('write', '$n.grid_', 'this.CreateGrid(Matrix(range_data.origin[0], range_data.origin[1]))', guard=FULL),
         E('write', '$n.conversion_tables_', 'this.conversion_tables_', guard=FULL)],
        [E('write', 'this.submaps_[0].grid_', 'this.submaps_[0].grid_.ComputeCroppedGrid()', guard='this.submaps_[0].num_range_data_ == 2 * this.options_.num_range_data', tag='crop')])
    # 3D
    L = 'this.local_pose_'
    for pre, fn in (('this', S3 + 'InsertData'),):
        T = 'TransformRangeData(range_data_in_local, this.local_pose_.inverse().cast())'
        s = ctx.summarise(p, p.fn(fn), opaque=OP3 + ['Rigid3::inverse'])
        ctx.spec_on('insert-counts', s, [
            E('call', 'range_data_inserter', name='Insert', args=['FilterRangeDataByMaxRange(%s, high_resolution_max_range)' % T, 'this.high_resolution_hybrid_grid_', 'this.high_resolution_intensity_hybrid_grid_'],
              guard='true', facts=['!this.insertion_finished_']),
            E('call', 'range_data_inserter', name='Insert', args=[T, 'this.low_resolution_hybrid_grid_', 'null'], guard='true', facts=['!this.insertion_finished_']),
            E('write', 'this.num_range_data_', '1 + this.num_range_data_', guard='true', facts=['!this.insertion_finished_']),
            E('write', 'this.rotational_scan_matcher_histogram_', 'this.rotational_scan_matcher_histogram_ + RotateHistogram(scan_histogram_in_gravity, GetYaw(this.local_pose_.inverse().rotation() @ local_from_gravity_aligned))',
              guard='true', casts=True, facts=['!this.insertion_finished_'])], rel=any_of(of_kind('write'), calls('Insert')))
    ctx.spec('finished-once-and-cropped', p, S3 + 'Finish', [E('write', 'this.insertion_finished_', 'true', guard='true', facts=['!this.insertion_finished_'])], opaque=OP3, rel=of_kind('write'))
    ctx.refuses('finished-once-and-cropped', ctx.summarise(p, p.fn(S3 + 'Finish'), opaque=OP3), '!this.insertion_finished_', 'finishing again is accepted')
    i = 'this.submaps_[$i]'
    T = 'TransformRangeData(range_data, %s.local_pose_.inverse().cast())' % i
    active(ctx, p, A3 + 'InsertData', OP3 + ['Rigid3::inverse', 'Rigid3::Rigid3'], [
        E('call', 'this.range_data_inserter_', name='Insert', args=['FilterRangeDataByMaxRange(%s, this.options_.high_resolution_max_range)' % T, i + '.high_resolution_hybrid_grid_',
          i + '.high_resolution_intensity_hybrid_grid_'], guard='true', each=['this.submaps_'], casts=True),
        E('call', 'this.range_data_inserter_', name='Insert', args=[T, i + '.low_resolution_hybrid_grid_', 'null'], guard='true', each=['this.submaps_'])],
        [E('write', '$n.local_pose_', 'Rigid3(range_data.origin.cast(), local_from_gravity_aligned)', guard=FULL),
         E('write', '$n.high_resolution_hybrid_grid_', '$h', guard=FULL), E('write', '$n.low_resolution_hybrid_grid_', '$l', guard=FULL), E('write', '$n.high_resolution_intensity_hybrid_grid_', '$t', guard=FULL),
         E('write', '$n.rotational_scan_matcher_histogram_', 'Zero(rotational_scan_matcher_histogram_in_gravity.size())', guard=FULL, casts=True)], [])
    # construction, storage
    made = lambda f, op: constructed(ctx.summarise(p, f, opaque=op), 'HybridGrid', 'IntensityHybridGrid', 'ProbabilityGrid', 'TSDF2D')
    W = of_kind('write')
    kept = lambda e: e.kind == 'write' and strip(e.val).op != 'null'
    for f in p.overloads(S3 + 'Submap3D'):
        if f.get('implicit') or 'Submap3D' in p.ptypes(f)[0] and 'proto' not in p.ptypes(f)[0]:
            continue
        if len(f['params']) == 4:
            ctx.final('new-submap', p, None, {
                'this.local_pose_': 'local_submap_pose', 'this.num_range_data_': '0', 'this.insertion_finished_': 'false', 'this.rotational_scan_matcher_histogram_': 'rotational_scan_matcher_histogram'},
                s=made(f, OP3))
            ctx.match('new-submap', made(f, OP3), lambda e: kept(e) and 'hybrid_grid_' in show(e.obj), [
                E('write', 'this.high_resolution_hybrid_grid_', 'HybridGrid(high_resolution)', guard='true'), E('write', 'this.low_resolution_hybrid_grid_', 'HybridGrid(low_resolution)', guard='true'),
                E('write', 'this.high_resolution_intensity_hybrid_grid_', 'IntensityHybridGrid(high_resolution)', guard='true')])
        else:
            s = made(f, OP3)
            ctx.match('stored-submap', s, lambda e: kept(e) and 'local_pose_' in show(e.obj), [E('write', 'this.local_pose_', 'ToRigid3(proto.local_pose)', guard='true')])
            restored3(ctx, s, 'proto', 'this')
    for f in p.overloads(S3 + 'UpdateFromProto'):
        s = made(f, OP3)
        x = f['params'][0]['n']
        if 'Submap3D' in p.ptypes(f)[0]:
            restored3(ctx, s, x, 'this')
        else:
            ctx.refuses('stored-submap', s, 'has_(%s.submap_3d)' % x, 'a message without a 3D submap is accepted')
            restored3(ctx, s, x + '.submap_3d', 'this')
    for f in p.overloads(S2 + 'Submap2D'):
        if f.get('implicit') or 'Submap2D' in p.ptypes(f)[0] and 'proto' not in p.ptypes(f)[0]:
            continue
        if len(f['params']) == 3:
            ctx.final('new-submap', p, None, {'this.local_pose_': 'Rigid3::Translation(Matrix(origin[0], origin[1], 0))', 'this.num_range_data_': '0', 'this.insertion_finished_': 'false', 'this.grid_': 'grid',
                                              'this.conversion_tables_': 'conversion_tables'}, s=made(f, OP2))
        else:
            s = made(f, OP2)
            ctx.match('stored-submap', s, lambda e: kept(e) and any(x in show(e.obj) for x in ('local_pose_', 'tables')), [
                E('write', 'this.local_pose_', 'ToRigid3(proto.local_pose)', guard='true'), E('write', 'this.conversion_tables_', 'conversion_tables', guard='true')])
            restored2(ctx, s, 'proto', 'conversion_tables')
    s = made(p.fn(S2 + 'UpdateFromProto'), OP2)
    ctx.refuses('stored-submap', s, 'has_(proto.submap_2d)', 'a message without a 2D submap is accepted')
    restored2(ctx, s, 'proto.submap_2d', 'this.conversion_tables_')
    ctx.result('stored-submap', p, S2 + 'ToProto', {
        'submap_2d.local_pose': 'ToProto(this.local_pose_)', 'submap_2d.num_range_data': 'this.num_range_data_', 'submap_2d.finished': 'this.insertion_finished_',
        'submap_2d.grid': E('write', val='this.grid_.ToProto()', guard='include_grid_data')}, opaque=OP2)
    h = '_.rotational_scan_matcher_histogram_'
    ctx.result('stored-submap', p, S3 + 'ToProto', {
        'submap_3d.local_pose': 'ToProto(this.local_pose_)', 'submap_3d.num_range_data': 'this.num_range_data_', 'submap_3d.finished': 'this.insertion_finished_',
        'submap_3d.high_resolution_hybrid_grid': E('write', val='this.high_resolution_hybrid_grid_.ToProto()', guard='include_probability_grid_data'),
        'submap_3d.low_resolution_hybrid_grid': E('write', val='this.low_resolution_hybrid_grid_.ToProto()', guard='include_probability_grid_data'),
        'submap_3d.rotational_scan_matcher_histogram': E('append', val='this.rotational_scan_matcher_histogram_[$i]', guard='true', each=['..this.rotational_scan_matcher_histogram_.size()'], casts=True)}, opaque=OP3)
    # queries
    s = ctx.summarise(p, p.fn(S2 + 'ToResponseProto'), opaque=OP2)
    ctx.spec_on('textures', s, [E('write', 'response.submap_version', 'this.num_range_data_', guard='this.grid_ != null'), E('append', 'response.textures', '$t', guard='this.grid_ != null'),
                                E('call', 'this.grid_', name='DrawToSubmapTexture', args=['$t', 'this.local_pose_'], guard='this.grid_ != null')], rel=any_of(W, of_kind('append'), calls('DrawToSubmapTexture')))
    s = ctx.summarise(p, p.fn(S3 + 'ToResponseProto'), opaque=OP3)
    ctx.match('textures', s, W, [E('write', 'response.submap_version', 'this.num_range_data_', guard='true')])
    apps = [e for e in s.effects if e.kind == 'append' and show(strip(e.obj)) == 'response.textures' and not e.guard and not e.loops]
    ctx.ob('textures', s.fn['sqn'], len(apps) == 2 == len([e for e in s.effects if e.kind == 'append']), 'not one texture for each of the two grids')
    for e, g in zip(apps, ('high', 'low')):
        d = [c for c in s.effects if c.kind == 'call' and c.name.endswith('AddToTextureProto') and strip(c.args[2]) is strip(e.val)]
        ctx.match('textures', s, lambda c: c in d, [E('call', name='AddToTextureProto', args=['this.%s_resolution_hybrid_grid_' % g, 'global_submap_pose', None], guard='true')])
    # grids and inserters of active submaps
    O = 'this.options_.range_data_inserter_options'
    mk_ = lambda fn, *cl: constructed(ctx.summarise(p, p.fn(fn), opaque=OP2), *cl)
    ret = lambda e: e.kind == 'return'
    ty = O + '.range_data_inserter_type == %s'
    ctx.match('active-submaps-follow-the-options', mk_(A2 + 'CreateRangeDataInserter', 'ProbabilityGridRangeDataInserter2D', 'TSDFRangeDataInserter2D'), ret, [
        E('return', val='ProbabilityGridRangeDataInserter2D(%s.probability_grid_range_data_inserter_options_2d)' % O, guard=ty % '1'),
        E('return', val='TSDFRangeDataInserter2D(%s.tsdf_range_data_inserter_options_2d)' % O, guard=ty % '2')])
    r = 'this.options_.grid_options_2d.resolution'
    lim = 'MapLimits({r}, origin.cast() + 50 * {r} * Ones(), {{num_x_cells=100, num_y_cells=100}})'.format(r=r)
    gt = 'this.options_.grid_options_2d.grid_type == %s'
    s = constructed(ctx.summarise(p, p.fn(A2 + 'CreateGrid'), opaque=[o for o in OP2 if o != 'CreateGrid']), 'ProbabilityGrid', 'TSDF2D')
    o = O + '.tsdf_range_data_inserter_options_2d'
    ctx.match('active-submaps-follow-the-options', s, ret, [
        E('return', val='ProbabilityGrid(%s, this.conversion_tables_)' % lim, guard=gt % '1', casts=True),
        E('return', val='TSDF2D(%s, %s.truncation_distance, %s.maximum_weight, this.conversion_tables_)' % (lim, o, o), guard=gt % '2', casts=True)])
    ctx.value('active-submaps-returned', p, A2 + 'submaps', 'this.submaps_')
    ctx.value('active-submaps-returned', p, A3 + 'submaps', 'this.submaps_')
    draw3(ctx, p)


def restored3(ctx, s, x, t):
    kept = lambda e: e.kind == 'write' and strip(e.val).op != 'null' and 'local_pose_' not in show(e.obj)
    last = lambda e: kept(e) and not (strip(e.val).op == 'obj' or show(strip(e.val)) in ('0', 'False'))
    h = x + '.rotational_scan_matcher_histogram'
    ctx.match('stored-submap', s, last, [
        E('write', 'this.num_range_data_', x + '.num_range_data', guard='true'), E('write', 'this.insertion_finished_', x + '.finished', guard='true'),
        E('write', 'this.high_resolution_hybrid_grid_', 'HybridGrid(%s.high_resolution_hybrid_grid)' % x, guard='has_(%s.high_resolution_hybrid_grid)' % x),
        E('write', 'this.low_resolution_hybrid_grid_', 'HybridGrid(%s.low_resolution_hybrid_grid)' % x, guard='has_(%s.low_resolution_hybrid_grid)' % x),
        E('write', 'this.rotational_scan_matcher_histogram_', 'Zero(|%s|)' % h, guard='true', casts=True),
        E('write', 'this.rotational_scan_matcher_histogram_[$i]', h + '[$i]', guard='true', each=['..|%s|' % h], casts=True)])


def restored2(ctx, s, x, tables):
    g = x + '.grid'
    last = [e for e in s.effects if e.kind == 'write' and strip(e.val).op != 'null' and any(k in show(e.obj) for k in ('num_range', 'finished', 'grid_')) and show(strip(e.val)) not in ('0', 'False')]
    ctx.match('stored-submap', s, lambda e: e in last, [
        E('write', 'this.num_range_data_', x + '.num_range_data', guard='true'), E('write', 'this.insertion_finished_', x + '.finished', guard='true'),
        E('write', 'this.grid_', 'ProbabilityGrid(%s, %s)' % (g, tables), guard='has_({0}) && has_({0}.probability_grid_2d)'.format(g)),
        E('write', 'this.grid_', 'TSDF2D(%s, %s)' % (g, tables), guard='has_({0}) && has_({0}.tsdf_2d)'.format(g))])
    ctx.refuses('stored-submap', s, ('has_(proto.submap_2d) && ' if 'submap_2d' in x else '') + '(!has_({0}) || has_({0}.probability_grid_2d) || has_({0}.tsdf_2d))'.format(g), 'a grid of unknown type is accepted')


def draw3(ctx, p):
    """The x-ray texture: its box covers every occupied voxel, every voxel counts at its own pixel, the pose is that of the box."""
    OP = ['HybridGrid', 'DynamicGrid', 'Rigid3::', 'transform::', 'ToProbability', 'FastG', 'LogOdds', 'ClampProb', 'AccumulateP', 'ExtractVox', 'ComputePix', 'RoundToInt']
    op = lambda x: [o for o in OP if o not in x]
    v = 'voxel_indices_and_probabilities'
    i = 'width * (max_index[0] - {0}[$i][0]) + max_index[1] - {0}[$i][1]'.format(v)
    pr = 'ValueToProbability(%s[$i][3])' % v
    px = 'Matrix({0}[$i][0], {0}[$i][1])'.format(v)
    g = '!(%s < min_index).any() && !(max_index < %s).any()' % (px, px)
    s = ctx.summarise(p, p.fn('mapping::AccumulatePixelData'), opaque=op('AccumulateP'))
    w = lambda f, x: E('write', '_[%s].%s' % (i, f), x % ('_[%s].%s' % (i, f)), guard=g, each=[v], casts=True, stale_ok=True)
    ctx.match('voxels-drawn-at-their-pixel', s, lambda e: e.kind == 'write' and e.loops, [
        w('count', '1 + %s'), w('min_z', 'min(%s, ' + v + '[$i][2])'), w('max_z', 'max(%s, ' + v + '[$i][2])'), w('probability_sum', '%s + ' + pr), w('max_probability', 'max(%s, ' + pr + ')')])
    s = ctx.summarise(p, p.fn('mapping::ExtractVoxelData'), opaque=op('ExtractVox'))
    st = E('append', casts=True).st
    apps = [e for e in s.effects if e.kind == 'append']
    fn = s.fn['sqn']
    ctx.ob('box-covers-every-drawn-voxel', fn, len(apps) == 1 and len(apps[0].loops) == 1, 'not one voxel per occupied cell')
    if apps:
        it = '$it.GetCellIndex()'
        c = '(transform @ hybrid_grid.GetCenterOfCell(%s))' % it
        q = 'RoundToInt(%s[%d] / hybrid_grid.resolution())'
        b = unify(pat('Array(%s, %s, %s, $it.GetValue())' % tuple(q % (c, k) for k in range(3))), st(apps[0].val), {})
        ctx.ob('box-covers-every-drawn-voxel', fn, b is not None, 'a voxel is not that of the moved cell center: ' + pshow(st(apps[0].val))[:300])
        for m, cw in (('min_index', 'cwiseMin'), ('max_index', 'cwiseMax')):
            ws = [e for e in s.effects if e.kind == 'write' and show(strip(e.obj)) == m]
            ctx.ob('box-covers-every-drawn-voxel', fn, len(ws) == 1 and [st(x) for x in ws[0].guard] == [st(x) for x in apps[0].guard] and ws[0].loops == apps[0].loops and
                   b is not None and unify(pat('%s.%s(Matrix(%s, %s))' % (m, cw, q % (c, 0), q % (c, 1))), st(ws[0].val), b) is not None, '%s does not cover every voxel: %s' % (m, '; '.join(map(brief, ws))[:300]))
        nx = [e for e in s.effects if e.kind == 'call' and e.name.endswith('::Next')]
        ctx.ob('box-covers-every-drawn-voxel', fn, nx and all(e.loops == apps[0].loops for e in nx), 'the cells are not all visited')
    s = ctx.summarise(p, p.fn('mapping::AddToTextureProto'), opaque=op('AddTo'))
    ex = [e for e in s.effects if e.kind == 'call' and e.name.endswith('ExtractVoxelData')]
    ctx.ob('box-covers-every-drawn-voxel', s.fn['sqn'], len(ex) == 1 and len(ex[0].args) == 4, 'the voxels are not extracted once')
    for e in ex[:1]:
        lo, hi = strip(e.args[2]), strip(e.args[3])
        b = {'lo': E('call').st(lo), 'hi': E('call').st(hi)}
        wd, hg, r = '1 + $hi[1] - $lo[1]', '1 + $hi[0] - $lo[0]', 'hybrid_grid.resolution()'
        val = lambda t: strip(stripcast(E('write', casts=True).st(t)))
        for f, x in (('width', wd), ('height', hg), ('resolution', r), ('slice_pose',
                     'ToProto(global_submap_pose.inverse() @ Rigid3::Translation(Matrix(%s * $hi[0], %s * $hi[1], global_submap_pose.translation()[2])))' % (r, r))):
            ws = [e for e in s.effects if e.kind == 'write' and show(strip(e.obj)) == 'texture.' + f]
            ctx.ob('texture-describes-its-pixels', s.fn['sqn'], len(ws) == 1 and not ws[0].guard and unify(pat(x), val(ws[0].val), b) is not None, 'texture.%s is not %s: %s' % (f, x, '; '.join(map(brief, ws))[:300]))
        gz = [e for e in s.effects if e.kind == 'call' and e.name.endswith('FastGzipString')]
        ctx.ob('texture-describes-its-pixels', s.fn['sqn'], len(gz) == 1 and not gz[0].guard and show(strip(gz[0].args[1])) == 'texture.cells' and
               unify(pat('ComputePixelValues(AccumulatePixelData(%s, %s, $lo, $hi, ExtractVoxelData(hybrid_grid, global_submap_pose.cast(), $lo, $hi)))' % (wd, hg)), val(gz[0].args[0]), b) is not None,
               'the cells are not the accumulated pixels: ' + '; '.join(map(brief, gz))[:300])
    f = p.fn('mapping::FilterRangeDataByMaxRange')
    near = '(range_data.returns.points_[$i].position - range_data.origin).norm() <= max_range'
    s = ctx.summarise(p, f)
    apps = [e for e in s.effects if e.kind == 'append']
    ctx.match('near-returns-only', s, lambda e: e in apps and 'intensities_' not in show(e.val), [
        E('append', '$a', 'range_data.returns.points_[$i]', guard=near, each=['..|range_data.returns.points_|'])])
    ctx.match('near-returns-only', s, lambda e: e in apps and 'intensities_' in show(e.val), [
        E('append', '$c', 'range_data.returns.intensities_[$i]', guard='|range_data.returns.intensities_| != 0 && ' + near, each=['..|range_data.returns.points_|'])])
    rs = {pshow(e.obj): e for e in result_effects(s)}
    ctx.ob('near-returns-only', f['sqn'], 'result.origin' in rs and pshow(E('write').st(rs['result.origin'].val)) == 'range_data.origin', 'the origin is lost')


def active(ctx, p, fn, op, inserts, new, finish):
    s = ctx.summarise(p, p.fn(fn), opaque=op)
    obj = [e for e in s.effects if e.kind == 'append' and show(strip(e.obj)) == 'this.submaps_']
    ctx.ob('submap-added-when-full', fn, len(obj) == 1, 'not exactly one place adds a submap')
    if not obj:
        return
    n = strip(obj[0].val)
    rel = lambda e: e.kind in ('append', 'mutate') or e.kind == 'write' and strip(e.obj).op == 'f' and 'grid' not in show(strip(e.obj))[-30:] and 'pose' not in show(e.obj) and 'tables' not in show(e.obj) and 'histogram' not in show(e.obj)
    end = 'this.submaps_[0].num_range_data_ == 2 * this.options_.num_range_data'
    ctx.spec_on('submap-lifecycle', s, [
        E('mutate', 'this.submaps_', name='erase', args=['begin(this.submaps_)'], guard=FULL + ' && 1 < |this.submaps_|', facts=['this.submaps_[0].insertion_finished_'], tag='old'),
        E('append', 'this.submaps_', '$n', guard=FULL, tag='new'),
        E('write', '$n.num_range_data_', '0', guard=FULL, tag='zero'), E('write', '$n.insertion_finished_', 'false', guard=FULL, tag='open'),
        E('write', 'this.submaps_[$i].num_range_data_', '1 + this.submaps_[$i].num_range_data_', guard='true', each=['this.submaps_'], tag='count'),
        E('write', 'this.submaps_[0].insertion_finished_', 'true', guard=end, tag='fin')], order=['old<new', 'new<count', 'count<fin'], rel=rel)
    ctx.match('every-active-submap-gets-the-scan', s, calls('Insert'), inserts)
    ctx.match('new-submap', s, lambda e: e.kind == 'write' and strip(e.obj).op == 'f' and strip(strip(e.obj).a[0]) is n and strip(e.obj).a[1] not in ('num_range_data_', 'insertion_finished_') and strip(e.val).op != 'null', new)
    ctx.match('finish-crops', s, lambda e: e.kind == 'write' and 'submaps_[0].grid_' in show(e.obj), finish)
    ctx.match('active-submaps-returned', s, of_kind('return'), [E('return', val='this.submaps_', guard='true', tag='r')])


if __name__ == '__main__':
    main('P17', check, 'value-flow and event-order summaries of the submap lifecycle', 'each scan is counted and inserted once into every active submap; finished submaps never change', tus=TUS)
