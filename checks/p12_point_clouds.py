#!/usr/bin/env python3
"""Operations on point clouds keep points, times and intensities together; filters keep exactly what they promise."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *


def check(ctx):
    p = ctx.program('sensor/point_cloud.cc', 'sensor/range_data.cc', 'sensor/internal/voxel_filter.cc')
    R = ctx.result
    P = 'sensor::PointCloud::'
    each = lambda c, **kw: E('append', None, kw.get('val'), guard=kw.get('guard', 'true'), each=[c])
    # the container
    for m, v in (('size', '|this.points_|'), ('empty', '|this.points_| == 0'), ('points', 'this.points_'), ('intensities', 'this.intensities_'),
                 ('operator[]', 'this.points_[index]'), ('begin', 'begin(this.points_)'), ('end', 'end(this.points_)')):
        ctx.value('accessors', p, P + m, v)
    ctx.spec('appended-at-the-end', p, P + 'push_back', [E('append', 'this.points_', 'value', guard='true', each=[])])
    two = [f for f in p.overloads(P + 'PointCloud') if len(f['params']) == 2]
    ctx.need(two, 'constructor with intensities')
    s = ctx.summarise(p, two[0])
    ctx.final('points-and-intensities-stored', p, None, {'this.points_': 'points', 'this.intensities_': 'intensities'}, s=s)
    ctx.refuses('one-intensity-per-point', s, '|intensities| == 0 || |intensities| == |points|',
                'a cloud with a number of intensities different from the number of points is accepted')
    one = [f for f in p.overloads(P + 'PointCloud') if len(f['params']) == 1 and 'vector' in p.ptypes(f)[0]]
    ctx.need(one, 'constructor without intensities')
    ctx.final('points-and-intensities-stored', p, one[0], {'this.points_': 'points'})
    # filters of whole clouds
    def cropped(path, c, cond):
        i = c + '.intensities_'
        return {path + '.points_': E('append', None, c + '.points_[$i]', guard=cond, each=['..|%s.points_|' % c]),
                path + '.intensities_': [E('append', None, i + '[$i]', guard='|%s| != 0 && %s' % (i, cond), each=[x]) for x in ('..|%s.points_|' % c,)]}

    def strip_(d):
        return {k.lstrip('.'): v for k, v in d.items()}
    z = lambda c: 'min_z <= {0}.points_[$i].position[2] && {0}.points_[$i].position[2] <= max_z'.format(c)
    R('crop-keeps-exactly-the-slab-with-intensities', p, 'sensor::CropPointCloud', strip_(cropped('', 'point_cloud', z('point_cloud'))))
    R('crop-keeps-exactly-the-slab-with-intensities', p, 'sensor::CropRangeData', {
        'origin': 'range_data.origin', **cropped('returns', 'range_data.returns', z('range_data.returns')),
        **cropped('misses', 'range_data.misses', z('range_data.misses'))})
    # transforms
    def moved(path, c, ix, extra=()):
        pre = path + '.' if path else ''
        return {pre + 'points_': each(c + '.points_'), pre + 'points_[_].position': E('write', None, 'transform @ %s.points_[$i].position' % c, guard='true', each=[c + '.points_']),
                pre + 'intensities_': c + '.intensities_'}
    R('transform-moves-every-point', p, 'sensor::TransformPointCloud', moved('', 'point_cloud', 0))
    R('transform-moves-every-point', p, 'sensor::TransformTimedPointCloud', {
        '': each('point_cloud'), '[_].position': E('write', None, 'transform @ point_cloud[$i].position', guard='true', each=['point_cloud']),
        '[_].time': E('write', None, 'point_cloud[$i].time', guard='true', each=['point_cloud'])})
    R('transform-moves-every-point', p, 'sensor::TransformRangeData', {
        'origin': 'transform @ range_data.origin', **moved('returns', 'range_data.returns', 0), **moved('misses', 'range_data.misses', 0)})
    # voxel filters
    for f in p.overloads('sensor::VoxelFilter'):
        t = p.ptypes(f)[0]
        c = ctx.summarise(p, f).params[0].a[0]
        pc = c + '.points_' if 'PointCloud &' in t and 'vector' not in t else c
        pos = pc + ('[$i].point_time.position' if 'RangeMeasurement' in t else '[$i].position')
        s = ctx.summarise(p, f)
        rd = 'RoundToInt(%s[%%d] / resolution)' % pos
        V = '$m[4398046511104 * %s + 2097152 * %s + %s]' % (rd % 0, rd % 1, rd % 2)
        n = ['..|%s|' % pc]
        isv = lambda e: e.kind in ('write', 'append', 'mutate') and isinstance(e.obj, Term)
        mapw = lambda e: isv(e) and e.kind == 'write' and strip(e.obj).op == 'f' and strip(e.obj).a[1] in ('first', 'second')
        w = s.fn['sqn']
        ctx.match('one-representative-per-voxel', s, mapw, [
            E('write', V + '.first', '1 + %s.first' % V, guard='true', each=n),
            E('write', V + '.second', 'cast(int, $i)', needs='%s.first == 0' % V, each=n)])
        ctx.match('one-representative-per-voxel', s, lambda e: isv(e) and e.kind == 'write' and strip(e.obj).op == 'at' and not mapw(e), [
            E('write', '$u[$m[$i].second.second]', 'true', guard='true', each=['$m'])])
        used = 'vector(|%s|, false)[$i]' % pc
        if pc == c:
            exp = {'': E('append', None, c + '[$i]', guard=used, each=n)}
        else:
            exp = {'points_': E('append', None, pc + '[$i]', guard=used, each=n),
                   'intensities_': E('append', None, c + '.intensities_[$i]', guard=used, each=['..|%s.intensities_|' % c])}
            ctx.ob('one-intensity-per-point', w, enforced(s, '|%s.intensities_| <= |%s|' % (c, pc)), 'more intensities than points accepted')
        R('exactly-the-representatives-kept', p, f, exp)
    o = ['sensor::VoxelFilter']
    near = lambda c: 'point_cloud.points_[$i].position.norm() <= max_range'
    R('far-points-dropped', p, 'sensor::FilterByMaxRange', strip_(cropped('', 'point_cloud', near('point_cloud'))))
    s = ctx.summarise(p, p.fn('sensor::AdaptivelyVoxelFiltered'), opaque=o)
    few = '|point_cloud.points_| <= options.min_num_points'
    L = 'VoxelFilter(point_cloud, options.max_length)'
    t = copy.copy(s)
    t.effects = result_effects(s)
    H = 'iter($i, options.max_length, 0.5 * acc())'
    dense = 'options.min_num_points <= |VoxelFilter(point_cloud, 0.5 * %s).points_|' % H
    ctx.match('sparse-clouds-kept-dense-ones-thinned', t, lambda e: not e.loops and brief(e).find(' phi') < 0 and strip(e.val).op != 'post', [
        E('write', None, 'point_cloud', guard=few), E('write', None, L, guard='!(%s) && options.min_num_points <= |%s.points_|' % (few, L))])
    fs = [e for e in s.effects if e.kind == 'call' and e.name.endswith('sensor::VoxelFilter')]
    ctx.ob('filters-the-given-cloud', s.fn['sqn'], fs and all(strip(e.args[0]).op == 'param' for e in fs), 'something else than the given cloud is filtered')
    # what is returned from within the search is dense enough; the interval is halved towards the coarsest dense length
    names = {x.a[0]: x for x in s.params}
    for e in s.effects:
        if e.kind != 'return':
            continue
        for conds, v in sources(s, e.val):
            b = unify(pat('VoxelFilter(point_cloud, $l)', ), E('return').st(v), {})
            ctx.ob('result-is-the-cloud-thinned', s.fn['sqn'], v.op == 'param' or b is not None, 'returns %s' % show(v)[:100])
            if e.loops:
                ok = E('return').has_fact(Facts(list(conds) + list(e.facts)), 'options.min_num_points <= |$v.points_|', {'v': E('return').st(v)}, names)
                ctx.ob('result-dense-enough', s.fn['sqn'], ok, 'line %s: a thinning that left fewer points than required can be returned: %s' % (e.line, show(v)[:90]))
    s = ctx.summarise(p, p.fn('sensor::AdaptiveVoxelFilter'), opaque=['AdaptivelyVoxelFiltered', 'FilterByMaxRange'])
    ctx.spec_on('far-points-dropped', s, [E('return', val='AdaptivelyVoxelFiltered(options, FilterByMaxRange(point_cloud, options.max_range))', guard='true')],
                rel=lambda e: e.kind == 'return')
    R('options', p, 'sensor::CreateAdaptiveVoxelFilterOptions', {
        'max_length': E('write', None, 'parameter_dictionary.GetDouble("max_length")', guard='true', casts=True),
        'min_num_points': E('write', None, 'parameter_dictionary.GetNonNegativeInt("min_num_points")', guard='true', casts=True),
        'max_range': E('write', None, 'parameter_dictionary.GetDouble("max_range")', guard='true', casts=True)})
    # compression
    p = ctx.program('sensor/compressed_point_cloud.cc', 'sensor/point_cloud.cc')
    K = 'sensor::CompressedPointCloud::'
    o = ['DynamicGrid::', 'GetCellIndex', 'Iterator::Done', 'Iterator::Next', 'Iterator::GetValue', 'NestedGrid', 'FlatGrid', 'mapping::.*Iterator::Iterator']
    f = [f for f in p.overloads(K + 'CompressedPointCloud') if f['params'] and 'sensor::PointCloud ' in p.ptypes(f)[0]]
    ctx.need(f, 'compressing constructor')
    s = ctx.summarise(p, f[0], opaque=o)
    pos, n = 'point_cloud.points_[$i].position', ['..|point_cloud.points_|']
    rd = 'RoundToInt(%s[%%d] / kPrecision)' % pos
    ctx.ob('points-out-of-range-refused', s.fn['sqn'], [e for e in s.effects if e.kind == 'assert' and unify(
        pat('%s.cwiseAbs().maxCoeff() / kPrecision < 8388608' % pos), E('assert').st(e.val), {}) is not None],
           'a point beyond the encodable range is not refused')
    ctx.match('raster-split-into-block-and-offset', s, lambda e: e.kind == 'write' and isinstance(e.obj, Term) and strip(e.obj).op == 'at', [
        x for k in range(3) for x in (
            E('write', '$r[%d]' % k, '1023 & ' + rd % k, guard='true', each=n), E('write', '$b[%d]' % k, '%s >> 10' % (rd % k), guard='true', each=n),
            E('write', '$r[%d]' % k, rd % k, guard='true', each=n, optional=True))])
    G, C = '$it.GetValue()', '$it.GetCellIndex()'
    more = dict(guard='!$it.Done()')
    ctx.spec_on('blocks-encoded', s, [
        E('append', '$b', '{point=$r}', guard='true', each=n),
        E('append', 'this.point_data_', '|%s|' % G, tag='n', **more),
        E('append', 'this.point_data_', C + '[0]', tag='x', **more), E('append', 'this.point_data_', C + '[1]', tag='y', **more),
        E('append', 'this.point_data_', C + '[2]', tag='z', **more),
        E('append', 'this.point_data_', '1048576 * {0}[$j].point[2] + 1024 * {0}[$j].point[1] + {0}[$j].point[0]'.format(G), each=[None, '$g'], tag='points', **more),
        E('call', '$it', name='Iterator::Next', args=[], tag='next', **more)], order=['n<x<y<z<points<next'],
        rel=lambda e: e.kind == 'append' or e.kind == 'call' and e.name.endswith('Iterator::Next'))
    ctx.final('number-of-points', p, None, {'this.num_points_': '|point_cloud.points_|'}, s=s)
    B, N, X = 'this.remaining_points_in_current_block_', 'this.input_', 'this.current_block_coordinates_'
    new, old = B + ' == 0', B + ' != 0'

    def coord(i, part):
        return {new: 'kPrecision * (1024 * %s[%d] + %s)' % (N, i + 1, part % (N + '[4]')), old: 'kPrecision * (%s[%d] + %s)' % (X, i, part % (N + '[0]'))}
    ctx.final('points-decoded', p, K + 'ConstIterator::ReadNextPoint', {
        N: {new: '5 + ' + N, old: '1 + ' + N}, B: {new: '-1 + %s[0]' % N, old: '-1 + ' + B},
        **{'%s[%d]' % (X, i): {new: '1024 * %s[%d]' % (N, i + 1), old: '%s[%d]' % (X, i)} for i in range(3)},
        **{'this.current_point_[%d]' % i: coord(i, q) for i, q in enumerate(('(%s & 1023)', '((%s >> 10) & 1023)', '(%s >> 20)'))}})
    I_, rn = K + 'ConstIterator::', ['ReadNextPoint']
    f = [f for f in p.overloads(I_ + 'ConstIterator') if not f.get('implicit') and f['params'] and '*' in p.ptypes(f)[0]]
    ctx.need(f, 'iterator constructor')
    s = ctx.summarise(p, f[0], opaque=rn)
    c = 'compressed_point_cloud'
    ctx.spec_on('every-point-read-once', s, [
        E('write', 'this.compressed_point_cloud_', c, guard='true'), E('write', 'this.remaining_points_', c + '.num_points_', guard='true', tag='n'),
        E('write', B, '0', guard='true', tag='n'), E('write', N, 'begin(%s.point_data_)' % c, guard='true', tag='n'),
        E('write', 'this.current_point_', None, optional=True), E('write', X, None, optional=True),
        E('call', 'this', name='ReadNextPoint', args=[], guard='0 < %s.num_points_' % c, tag='read')], order=['n<read'])
    ctx.spec('every-point-read-once', p, I_ + 'operator++', [
        E('write', 'this.remaining_points_', '-1 + this.remaining_points_', guard='true', each=[], tag='n'),
        E('call', 'this', name='ReadNextPoint', args=[], guard='1 < this.remaining_points_', tag='read')], opaque=rn, order=['n<read'],
        rel=lambda e: e.kind == 'call' or e.kind == 'write')
    ctx.result('every-point-read-once', p, I_ + 'operator*', {'position': 'this.current_point_'})
    ctx.value('every-point-read-once', p, I_ + 'operator!=', 'this.remaining_points_ != it.remaining_points_')
    s = ctx.summarise(p, p.fn(I_ + 'EndIterator'), opaque=rn + ['ConstIterator::ConstIterator'])
    ctx.ob('every-point-read-once', s.fn['sqn'], [e for e in s.effects if e.kind == 'write' and strip(e.obj).op == 'f' and
                                                  strip(e.obj).a[1] == 'remaining_points_' and strip(e.val) is I(0) and not e.guard],
           'the end iterator is not the one without remaining points')
    ctx.value('every-point-read-once', p, K + 'size', 'this.num_points_')
    ctx.value('every-point-read-once', p, K + 'empty', 'this.num_points_ == 0')
    s = ctx.summarise(p, p.fn(K + 'Decompress'), opaque=['ConstIterator'])
    t = copy.copy(s)
    t.effects = result_effects(s)
    ctx.match('every-point-read-once', t, lambda e: e.kind in ('append', 'write', 'mutate'), [
        E('append', None, '$x[$i]', guard='true', each=[None])])
    ctx.value('equal-exactly-if-same-data', p, K + 'operator==',
              'this.point_data_ == right_hand_container.point_data_ && this.num_points_ == right_hand_container.num_points_')


main('P12', check, 'symbolic evaluation of the point cloud operations: appended elements, their conditions and ranges',
     'every operation appends exactly the promised elements, points and intensities under the same condition and index',
     tus=['sensor/point_cloud.cc', 'sensor/range_data.cc', 'sensor/internal/voxel_filter.cc', 'sensor/compressed_point_cloud.cc'])
