#!/usr/bin/env python3
"""2D grids: where a point's cell is, what a cell holds, how grids grow, are cropped, drawn and stored."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

L = 'this.limits_'


def inside(x, lim=L):
    return '(Array(0, 0) <= {0}).all() && ({0} < Array({1}.cell_limits_.num_x_cells, {1}.cell_limits_.num_y_cells)).all()'.format(x, lim)


def flat(x, lim=L):
    return '({1}.cell_limits_.num_x_cells * {0}[1] + {0}[0])'.format(x, lim)


def whole(s, loops, cl):
    """One loop over all the cells of the limits 'cl'."""
    if len(loops) != 1 or loops[0].C is None or loops[0].exits:
        return False
    c = strip(loops[0].C)
    st = E('write').st
    w = {strip(e.obj).a[1]: st(e.val) for e in s.effects if e.kind == 'write' and strip(e.obj).op == 'f' and strip(strip(e.obj).a[0]) is c}
    mx = unify(pat('Array($c.num_x_cells - 1, $c.num_y_cells - 1)'), w['max_xy_index_'], {}) if 'max_xy_index_' in w else None
    return mx is not None and 'CellLimits' in show(strip(mx['c'])) and (cl is None or strip(mx['c']) is cl) and unify(pat('Zero()'), w.get('min_xy_index_', VOID), {}) is not None


def check(ctx):
    p = ctx.program('mapping/2d/grid_2d.cc', 'mapping/2d/probability_grid.cc', 'mapping/internal/2d/tsdf_2d.cc', 'mapping/internal/2d/tsd_value_converter.cc')
    G, B, T = 'mapping::Grid2D::', 'mapping::ProbabilityGrid::', 'mapping::TSDF2D::'
    val, R = ctx.value, ctx.result
    # cells and points
    M = 'mapping::MapLimits::'
    val('cell-of-a-point', p, M + 'GetCellIndex', 'Array(RoundToInt((this.max_[1] - point[1]) / this.resolution_ - 0.5), RoundToInt((this.max_[0] - point[0]) / this.resolution_ - 0.5))')
    val('center-of-a-cell', p, M + 'GetCellCenter', 'Matrix(this.max_[0] - this.resolution_ * (cell_index[1] + 0.5), this.max_[1] - this.resolution_ * (cell_index[0] + 0.5))')
    ctx.truth('contains', p, M + 'Contains', inside('cell_index', 'this'))
    for m, v in (('resolution', 'this.resolution_'), ('max', 'this.max_'), ('cell_limits', 'this.cell_limits_')):
        val('accessors', p, M + m, v)
    for f in p.overloads(M + 'MapLimits'):
        if f.get('implicit') or len(f['params']) not in (1, 3) or 'MapLimits &' in p.ptypes(f)[0] and 'proto' not in p.ptypes(f)[0]:
            continue
        if len(f['params']) == 3:
            s = ctx.summarise(p, f)
            ctx.final('limits-stored', p, None, {'this.resolution_': 'resolution', 'this.max_': 'max', 'this.cell_limits_': 'cell_limits'}, s=s)
            ctx.refuses('empty-limits-refused', s, '0 < resolution && 0 < cell_limits.num_x_cells && 0 < cell_limits.num_y_cells', 'limits without any cell are accepted')
        else:
            ctx.final('limits-stored', p, f, {'this.resolution_': 'map_limits.resolution', 'this.max_': 'ToEigen(map_limits.max)',
                                              'this.cell_limits_': '{num_x_cells=map_limits.cell_limits.num_x_cells, num_y_cells=map_limits.cell_limits.num_y_cells}'})
    for f in p.overloads('mapping::ToProto'):
        t = p.ptypes(f)[0]
        if 'MapLimits' in t:
            R('limits-stored', p, f, {'resolution': 'map_limits.resolution_', 'max': 'ToProto(map_limits.max_)', 'cell_limits.num_x_cells': 'map_limits.cell_limits_.num_x_cells',
                                      'cell_limits.num_y_cells': 'map_limits.cell_limits_.num_y_cells'}, opaque=['transform::ToProto'])
        elif 'CellLimits' in t:
            R('limits-stored', p, f, {'num_x_cells': 'cell_limits.num_x_cells', 'num_y_cells': 'cell_limits.num_y_cells'})
    # iteration over index ranges
    X = 'mapping::XYIndexRangeIterator::'
    for f in p.overloads(X + 'XYIndexRangeIterator'):
        if f.get('implicit'):
            continue
        if len(f['params']) == 2:
            ctx.final('row-major-iteration', p, f, {'this.min_xy_index_': 'min_xy_index', 'this.max_xy_index_': 'max_xy_index', 'this.xy_index_': 'min_xy_index'})
        elif len(f['params']) == 1 and 'CellLimits' in p.ptypes(f)[0]:
            ctx.final('row-major-iteration', p, f, {'this.max_xy_index_': 'Array(cell_limits.num_x_cells - 1, cell_limits.num_y_cells - 1)',
                                                    'this.min_xy_index_': 'Zero()', 'this.xy_index_': 'Zero()'})
    more = 'this.xy_index_[0] < this.max_xy_index_[0]'
    ctx.final('row-major-iteration', p, X + 'operator++', {
        'this.xy_index_[0]': {more: '1 + this.xy_index_[0]', '!(%s)' % more: 'this.min_xy_index_[0]'},
        'this.xy_index_[1]': {more: 'this.xy_index_[1]', '!(%s)' % more: '1 + this.xy_index_[1]'}})
    val('row-major-iteration', p, X + 'operator*', 'this.xy_index_')
    ctx.truth('row-major-iteration', p, X + 'operator==', '(this.xy_index_ == other.xy_index_).all()')
    ctx.truth('row-major-iteration', p, X + 'operator!=', '!(this.xy_index_ == other.xy_index_).all()')
    R('row-major-iteration', p, X + 'begin', {'min_xy_index_': 'this.min_xy_index_', 'max_xy_index_': 'this.max_xy_index_', 'xy_index_': 'this.min_xy_index_'})
    R('row-major-iteration', p, X + 'end', {'min_xy_index_': E('write', None, None, optional=True), 'max_xy_index_': E('write', None, None, optional=True), 'xy_index_': 'Array(this.min_xy_index_[0], 1 + this.max_xy_index_[1])'})
    # reading
    C = 'this.correspondence_cost_cells_'
    IN, FL = inside('cell_index'), flat('cell_index')
    val('row-major-cells', p, G + 'ToFlatIndex', FL)
    s = ctx.summarise(p, p.fn(G + 'ToFlatIndex'))
    ctx.ob('cells-outside-refused', s.fn['sqn'], enforced(s, IN), 'the flat index of a cell outside the grid is computed')
    val('cost-of-a-cell', p, G + 'GetCorrespondenceCost', {'!(%s)' % IN: 'this.max_correspondence_cost_', IN: 'this.value_to_correspondence_cost_table_[%s[%s]]' % (C, FL)})
    ctx.truth('known-cells', p, G + 'IsKnown', '%s && %s[%s] != 0' % (IN, C, FL))
    for m, v in (('limits', L), ('GetMinCorrespondenceCost', 'this.min_correspondence_cost_'), ('GetMaxCorrespondenceCost', 'this.max_correspondence_cost_'),
                 ('correspondence_cost_cells', C), ('update_indices', 'this.update_indices_'), ('known_cells_box', 'this.known_cells_box_'),
                 ('mutable_correspondence_cost_cells', C), ('mutable_update_indices', 'this.update_indices_'), ('mutable_known_cells_box', 'this.known_cells_box_')):
        val('accessors', p, G + m, v)
    val('cost-of-a-cell', p, B + 'GetProbability', {'!(%s)' % IN: 'kMinProbability', IN: '1 - kValueToCorrespondenceCost[%s[%s]]' % (C, FL)})
    # construction
    for f in p.overloads(G + 'Grid2D'):
        if f.get('implicit') or len(f['params']) not in (2, 4):
            continue
        if len(f['params']) == 4:
            s = ctx.summarise(p, f)
            n = lambda l: 'vector(%s.cell_limits_.num_x_cells * %s.cell_limits_.num_y_cells, 0)' % (l, l)
            ctx.spec_on('new-grids-unknown', s, [
                E('write', L, 'limits', guard='true'), E('write', C, n(L), guard='true', casts=True), E('write', 'this.min_correspondence_cost_', 'min_correspondence_cost', guard='true'),
                E('write', 'this.max_correspondence_cost_', 'max_correspondence_cost', guard='true'), E('write', 'this.update_indices_', None), E('write', 'this.known_cells_box_', None),
                E('write', 'this.value_to_correspondence_cost_table_', 'conversion_tables.GetConversionTable(max_correspondence_cost, min_correspondence_cost, max_correspondence_cost)', guard='true')],
                rel=lambda e: e.kind == 'write')
            ctx.refuses('cost-bounds', s, 'min_correspondence_cost < max_correspondence_cost')
        else:
            s = ctx.summarise(p, f)
            old = 'proto.min_correspondence_cost == 0 && proto.max_correspondence_cost == 0'
            mn, mx = 'this.min_correspondence_cost_', 'this.max_correspondence_cost_'
            box = 'AlignedBox(Matrix(proto.known_cells_box.min_x, proto.known_cells_box.min_y), Matrix(proto.known_cells_box.max_x, proto.known_cells_box.max_y))'
            tab = 'conversion_tables.GetConversionTable(%s, %s, %s)'
            mnp, mxp = 'proto.min_correspondence_cost', 'proto.max_correspondence_cost'
            ctx.spec_on('grid-from-message', s, [
                E('write', L, '{resolution_=proto.limits.resolution, max_=ToEigen(proto.limits.max), cell_limits_={num_x_cells=proto.limits.cell_limits.num_x_cells, num_y_cells=proto.limits.cell_limits.num_y_cells}}', guard='true'),
                E('write', C, None, guard='true'), E('append', C, 'proto.cells[$i]', guard='true', each=['proto.cells'], casts=True),
                E('write', mn, 'kMinCorrespondenceCost', guard=old), E('write', mn, mnp, guard='!(%s)' % old),
                E('write', mx, 'kMaxCorrespondenceCost', guard=old), E('write', mx, mxp, guard='!(%s)' % old),
                E('write', 'this.update_indices_', None), E('write', 'this.known_cells_box_', box, guard='has_(proto.known_cells_box)'), E('write', 'this.known_cells_box_', None, optional=True),
                E('write', 'this.value_to_correspondence_cost_table_', tab % ('kMaxCorrespondenceCost', 'kMinCorrespondenceCost', 'kMaxCorrespondenceCost'), guard=old),
                E('write', 'this.value_to_correspondence_cost_table_', tab % (mxp, mnp, mxp), guard='!(%s)' % old)], rel=lambda e: e.kind in ('write', 'append'))
    R('grid-to-message', p, G + 'ToProto', {
        'limits.resolution': L + '.resolution_', 'limits.max': 'ToProto(%s.max_)' % L, 'limits.cell_limits.num_x_cells': L + '.cell_limits_.num_x_cells',
        'limits.cell_limits.num_y_cells': L + '.cell_limits_.num_y_cells', 'cells': C,
        'min_correspondence_cost': 'this.min_correspondence_cost_', 'max_correspondence_cost': 'this.max_correspondence_cost_',
        **{'known_cells_box.%s_%s' % (m, a): E('write', None, 'this.known_cells_box_.%s()[%d]' % (m, i), guard='!this.known_cells_box_.isEmpty()') for m in ('min', 'max') for i, a in enumerate('xy')}},
      opaque=['transform::ToProto'])
    s = ctx.summarise(p, p.fn(G + 'ToProto'))
    ctx.ob('no-message-during-an-update', s.fn['sqn'], enforced(s, '|this.update_indices_| == 0'), 'a grid in the middle of an update is written')
    # updating
    U = 'this.update_indices_'
    s = ctx.summarise(p, p.fn(G + 'FinishUpdate'))
    one_by_one = [E('write', '%s[last(%s)]' % (C, U), '-32768 + %s[last(%s)]' % (C, U), guard='|%s| != 0' % U, tag='w', casts=True), E('mutate', U, name='pop_back', guard='|%s| != 0' % U, tag='p')]
    at_once = [E('write', '%s[%s[$i]]' % (C, U), '-32768 + %s[%s[$i]]' % (C, U), guard='true', each=[U], tag='w', casts=True), E('mutate', U, name='clear', guard='true', each=[], tag='p')]
    clear = any(e.kind == 'mutate' and e.name.endswith('clear') for e in s.effects)
    ctx.spec_on('markers-removed-at-the-end', s, at_once if clear else one_by_one, order=['w<p'], rel=lambda e: e.kind in ('write', 'mutate', 'append'))
    cell = '%s[%s]' % (C, FL)
    free = cell + ' <= 32767'
    ctx.spec('each-cell-updated-once', p, B + 'ApplyLookupTable', [
        E('append', U, FL, guard=free, each=[]), E('write', cell, 'table[%s]' % cell, guard=free, each=[], casts=True),
        E('mutate', 'this.known_cells_box_', name='extend', args=['cell_index.matrix()'], guard=free, each=[]),
        E('return', val='true', guard=free), E('return', val='false', guard='!(%s)' % free)], rel=lambda e: e.kind in ('append', 'write', 'mutate', 'return'))
    s = ctx.summarise(p, p.fn(B + 'ApplyLookupTable'))
    ctx.ob('cells-outside-refused', s.fn['sqn'], enforced(s, IN), 'a cell outside the grid is updated')
    V = '1 + RoundToInt(32766 * (Clamp(1 - probability, kMinCorrespondenceCost, kMaxCorrespondenceCost) - kMinCorrespondenceCost) / (kMaxCorrespondenceCost - kMinCorrespondenceCost))'
    s = ctx.spec('set-only-unknown-cells', p, B + 'SetProbability', [
        E('write', cell, V, guard='true', facts=[cell + ' == 0', IN], casts=True), E('mutate', 'this.known_cells_box_', name='extend', args=['cell_index.matrix()'], guard='true')],
        rel=lambda e: e.kind in ('append', 'write', 'mutate'), opaque=['common::Clamp', 'RoundToInt'])
    # growing
    NX, NY = L + '.cell_limits_.num_x_cells', L + '.cell_limits_.num_y_cells'
    idx = 'Array(RoundToInt(({0}.max_[1] - point[1]) / {0}.resolution_ - 0.5), RoundToInt(({0}.max_[0] - point[0]) / {0}.resolution_ - 0.5))'.format(L)
    out = '!(%s)' % inside(idx)
    f = [f for f in p.overloads(G + 'GrowLimits') if len(f['params']) == 3]
    ctx.need(f, 'GrowLimits of several grids')
    s = ctx.summarise(p, f[0])
    ctx.spec_on('growth-keeps-every-cell', s, [
        E('write', '$n[2 * {0} * ({1} // 2) + 2 * {0} * $i + {0} // 2 + $j]'.format(NX, NY), 'grids[$g][%s * $i + $j]' % NX, guard=out, each=[None, 'grids', '..' + NY, '..' + NX], stale_ok=True, tag='copy'),
        E('write', 'grids[$g]', None, guard=out, each=[None, 'grids'], tag='store'),
        E('write', L, '{resolution_=%s.resolution_, max_=%s.max_ + %s.resolution_ * Matrix(%s // 2, %s // 2), cell_limits_={num_x_cells=2 * %s, num_y_cells=2 * %s}}' % (L, L, L, NY, NX, NX, NY), guard=out, tag='limits'),
        E('mutate', 'this.known_cells_box_', name='translate', args=['Matrix(%s // 2, %s // 2)' % (NX, NY)], guard='!this.known_cells_box_.isEmpty() && ' + out, stale_ok=True)],
        order=['copy<store<limits'], rel=lambda e: e.kind in ('append', 'write', 'mutate') and not (e.kind == 'write' and strip(e.obj).op == 'f' and strip(strip(e.obj).a[0]).op == 'obj'))
    nw = [e for e in s.effects if e.kind == 'write' and strip(e.obj).op == 'at' and strip(strip(e.obj).a[0]).op == 'param']
    pt = pat('vector(4 * %s * %s, grids_unknown_cell_values[$g])' % (NX, NY))
    ctx.ob('growth-keeps-every-cell', s.fn['sqn'], nw and any(unify(pt, E('write', casts=True).st(x), {}) is not None for e in nw for x in [e.val] + [y for y in subterms(strip(e.val))]),
           'the grown grid does not start out unknown or has the wrong size')
    ctx.ob('no-growth-during-an-update', s.fn['sqn'], enforced(s, '|%s| == 0' % U), 'a grid grows in the middle of an update')
    # cropping
    E_ = 'this.known_cells_box_.isEmpty()'
    kb = 'this.known_cells_box_'
    ctx.final('cropped-limits-cover-the-known-cells', p, G + 'ComputeCroppedLimits', {
        'offset': {E_: 'Zero()', '!' + E_: kb + '.min().array()'},
        'limits': {E_: '{num_x_cells=1, num_y_cells=1}', '!' + E_: '{num_x_cells=1 + %s.sizes()[0], num_y_cells=1 + %s.sizes()[1]}' % (kb, kb)}})

    # TSDF
    O2 = ['common::Clamp', 'RoundToInt', 'ValueConverter::', 'Grid2D::(ToProto|FinishUpdate|GrowLimits)', 'Grid2D::Grid2D', 'TSDF2D::(GetTSD|GetWeight|SetCell)$', 'IsKnown', 'ComputeCroppedLimits',
          'ProbabilityGrid::(GetProbability|SetProbability|ProbabilityGrid)', 'FastGzip', 'LogOddsInteger', 'ToFlatIndex', 'Contains']
    VC = 'this.value_converter_'
    W = 'this.weight_cells_'
    fl = 'this.ToFlatIndex(cell_index)'
    ctx.truth('each-cell-updated-once', p, T + 'CellIsUpdated', '32767 < %s[%s]' % (C, fl), opaque=['ToFlatIndex'])
    fr = '%s[%s] <= 32767' % (C, fl)
    ctx.spec('each-cell-updated-once', p, T + 'SetCell', [
        E('append', U, fl, guard=fr, each=[]), E('mutate', 'this.known_cells_box_', name='extend', args=['cell_index.matrix()'], guard=fr, each=[]),
        E('write', '%s[%s]' % (C, fl), '32768 + %s.TSDToValue(tsd)' % VC, guard=fr, each=[], casts=True),
        E('write', '%s[%s]' % (W, fl), '%s.WeightToValue(weight)' % VC, guard=fr, each=[], casts=True)], rel=lambda e: e.kind in ('append', 'write', 'mutate'),
        opaque=['ToFlatIndex', 'TSDToValue', 'WeightToValue'])
    LC = 'this.limits_.Contains(cell_index)'
    tsd, wgt = '%s.ValueToTSD(%s[%s])' % (VC, C, fl), '%s.ValueToWeight(%s[%s])' % (VC, W, fl)
    mt, mw = VC + '.min_tsd_', 'g("min_weight_")'
    oq = ['ToFlatIndex', 'ValueTo', 'Contains']
    val('cost-of-a-cell', p, T + 'GetTSD', {LC: tsd, '!' + LC: mt}, opaque=oq)
    val('cost-of-a-cell', p, T + 'GetWeight', {LC: wgt, '!' + LC: mw}, opaque=oq)
    R('cost-of-a-cell', p, T + 'GetTSDAndWeight', {'first': [E('write', None, tsd, guard=LC), E('write', None, mt, guard='!' + LC)],
                                                   'second': [E('write', None, wgt, guard=LC), E('write', None, mw, guard='!' + LC)]}, opaque=oq)
    ctx.spec('growth-keeps-every-cell', p, T + 'GrowLimits', [
        E('call', 'this', name='GrowLimits', args=['point', 'list(%s, %s)' % (C, W), 'list(0, 0)'], guard='true')], opaque=['Grid2D::GrowLimits'], rel=lambda e: e.kind != 'return')
    one = [f for f in p.overloads(G + 'GrowLimits') if len(f['params']) == 1]
    s = ctx.summarise(p, one[0], opaque=['Grid2D::GrowLimits'])
    ctx.spec_on('growth-keeps-every-cell', s, [E('call', 'this', name='GrowLimits', args=['point', 'list(%s)' % C, 'list(0)'], guard='true')], rel=lambda e: e.kind != 'return')
    R('grid-to-message', p, T + 'ToProto', {'': 'this.ToProto()', 'tsdf_2d.weight_cells': W, 'tsdf_2d.truncation_distance': VC + '.max_tsd_', 'tsdf_2d.max_weight': VC + '.max_weight_'}, opaque=['Grid2D::ToProto'])
    R('grid-to-message', p, B + 'ToProto', {'': 'this.ToProto()', 'probability_grid_2d': E('touch', guard='true')}, opaque=['Grid2D::ToProto'])
    for f in p.overloads(T + 'TSDF2D'):
        if f.get('implicit') or len(f['params']) not in (2, 4):
            continue
        s = ctx.summarise(p, f)
        if len(f['params']) == 4:
            ctx.spec_on('new-grids-unknown', s, [E('write', W, 'vector(limits.cell_limits_.num_x_cells * limits.cell_limits_.num_y_cells, 0)', guard='true', casts=True)], rel=on_fields('weight_cells_'))
            d, w = 'truncation_distance', 'max_weight'
            lo, hi = 'this.min_correspondence_cost_', 'this.max_correspondence_cost_'
            ctx.match('tsdf-built-on-its-own-bounds', s, on_fields('min_correspondence_cost_', 'max_correspondence_cost_', 'limits_'), [
                E('write', lo, '-' + d, guard='true'), E('write', hi, d, guard='true'), E('write', L, 'limits', guard='true')])
        else:
            ctx.spec_on('grid-from-message', s, [E('write', W, None, optional=True), E('append', W, 'proto.tsdf_2d.weight_cells[$i]', each=['proto.tsdf_2d.weight_cells'], guard='true', casts=True)],
                        rel=on_fields('weight_cells_'))
            d, w = 'proto.tsdf_2d.truncation_distance', 'proto.tsdf_2d.max_weight'
            ctx.match('grid-from-message', s, on_fields('limits_'), [E('write', L, '{resolution_=proto.limits.resolution}', guard='true')])
        ctx.match('tsdf-built-on-its-own-bounds', s, on_fields('max_tsd_', 'max_weight_'), [E('write', '$v.max_tsd_', d, guard='true'), E('write', '$v.max_weight_', w, guard='true')])
        ctx.match('tsdf-built-on-its-own-bounds', s, on_fields('conversion_tables_'), [E('write', 'this.conversion_tables_', 'conversion_tables', guard='true')])
    for f in p.overloads(B + 'ProbabilityGrid'):
        if f.get('implicit') or len(f['params']) != 2:
            continue
        s = ctx.summarise(p, f)
        if 'MapLimits' in p.ptypes(f)[0]:
            ctx.match('probability-grid-bounds', s, on_fields('min_correspondence_cost_', 'max_correspondence_cost_', 'limits_'), [
                E('write', 'this.min_correspondence_cost_', 'kMinCorrespondenceCost', guard='true'), E('write', 'this.max_correspondence_cost_', 'kMaxCorrespondenceCost', guard='true'), E('write', L, 'limits', guard='true')])
        else:
            ctx.match('grid-from-message', s, on_fields('limits_'), [E('write', L, '{resolution_=proto.limits.resolution}', guard='true')])
        ctx.match('probability-grid-bounds', s, on_fields('conversion_tables_'), [E('write', 'this.conversion_tables_', 'conversion_tables', guard='true')])
    # cropping and drawing
    for cls in (B, T):
        s = ctx.summarise(p, p.fn(cls + 'ComputeCroppedGrid'), opaque=O2)
        where_ = s.fn['sqn']
        crop = [e for e in s.effects if e.kind == 'call' and e.name.endswith('ComputeCroppedLimits')]
        ctx.ob('crop-keeps-every-known-cell', where_, len(crop) == 1 and not crop[0].guard, 'the cropped limits are not computed')
        if len(crop) != 1:
            continue
        off, cl = strip(crop[0].args[0]), None
        setter = [e for e in s.effects if e.kind == 'call' and e.name.split('::')[-1] in ('SetProbability', 'SetCell')]
        ctx.ob('crop-keeps-every-known-cell', where_, len(setter) == 1, 'cells are not copied exactly once')
        for e in setter:
            b = None
            for q in (['$xy', 'this.GetProbability($xy + $off)'], ['$xy', 'this.GetTSD($xy + $off)', 'this.GetWeight($xy + $off)']):
                if len(q) == len(e.args):
                    b = {'off': off}
                    for x, y in zip(q, e.args):
                        b = unify(pat(x), E('call').st(y), b) if b is not None else None
            ctx.ob('crop-keeps-every-known-cell', where_, b is not None, 'a cell is not copied from its place in the whole grid: ' + brief(e))
            ctx.ob('crop-keeps-every-known-cell', where_, b is not None and len(e.guard) == 1 and unify(pat('this.IsKnown($xy + $off)'), E('call').st(e.guard[0]), b) is not None, 'not exactly the known cells are copied')
            ctx.ob('crop-keeps-every-known-cell', where_, whole(s, e.loops, cl), 'the loop does not visit every cell of the cropped grid')
            fin = [x for x in s.effects if x.kind == 'call' and x.name.endswith('FinishUpdate')]
            ctx.ob('crop-finishes-the-update', where_, cls == B and not fin or len(fin) == 1 and not fin[0].guard and not fin[0].loops and s.effects.index(fin[0]) > s.effects.index(e)
                   and strip(fin[0].obj) is strip(e.obj), 'the update of the cropped grid is not finished')
        ml = {}
        for e in s.effects:
            if e.kind == 'write' and strip(e.obj).op == 'f' and strip(e.obj).a[1] in ('resolution_', 'max_'):
                ml.setdefault(strip(e.obj).a[1], []).append(e)
        ctx.ob('crop-keeps-the-place', where_, len(ml.get('max_', [])) == 1 and any(
            unify(pat(x), E('write').st(ml['max_'][0].val), {'off': off}) is not None for x in (
                '-this.limits_.resolution_ * Matrix($off[1], $off[0]) + this.limits_.max_',
                'Matrix(this.limits_.max_[0] - this.limits_.resolution_ * $off[1], this.limits_.max_[1] - this.limits_.resolution_ * $off[0])'))
               and len(ml.get('resolution_', [])) == 1 and unify(pat('this.limits_.resolution_'), E('write').st(ml['resolution_'][0].val), {}) is not None, 'the cropped grid does not lie where its cells were')
        # texture
        s = ctx.summarise(p, p.fn(cls + 'DrawToSubmapTexture'), opaque=O2)
        where_ = s.fn['sqn']
        crop = [e for e in s.effects if e.kind == 'call' and e.name.endswith('ComputeCroppedLimits')]
        ctx.ob('texture-covers-the-known-cells', where_, len(crop) == 1 and not crop[0].guard, 'the cropped limits are not computed')
        if len(crop) != 1:
            continue
        off, cl = strip(crop[0].args[0]), None
        apps = [e for e in s.effects if e.kind == 'append' and e.loops]
        unknown = [e for e in apps if len(e.guard) == 1 and unify(pat('!this.IsKnown(_)'), E('append').st(e.guard[0]), {}) is not None]
        known = [e for e in apps if e not in unknown]
        ctx.ob('texture-covers-the-known-cells', where_, len(unknown) == 2 and all(strip(stripcast(e.val)) is I(0) for e in unknown), 'an unknown cell is not drawn as 0, 0')
        at_ = [x for e in apps for y in list(e.guard) + [e.val] for x in subterms(E('append').st(y)) if x.op == 'call' and x.a[0].split('::')[-1] in ('IsKnown', 'GetProbability', 'GetTSD', 'GetWeight')]
        ctx.ob('texture-covers-the-known-cells', where_, at_ and all(unify(pat('$xy + $off'), x.a[-1], {'off': off}) is not None for x in at_), 'a pixel is not drawn from its cell')
        ctx.ob('texture-covers-the-known-cells', where_, all(whole(s, e.loops, cl) for e in apps), 'the loop does not visit every cell')
        # the drawn pair for a cell brighter than, darker than and exactly neutral
        base = pat('ProbabilityToLogOddsInteger(this.GetProbability(_ + $off))') if cls == B else \
            pat('round(this.GetWeight(_ + $off) / {0}.getMaxWeight() * (255 * pow(abs(this.GetTSD(_ + $off)) / {0}.getMaxTSD(), 0.5) - 128))'.format(VC))
        got = {}
        for n in (127, 7, 1, 0, -1, -5, -127):
            st = E('append', casts=True).st
            k = I(128 - n) if cls == B else I(n)
            sub = lambda y: st(canon(rewrite(st(y), lambda x: k if x.op == 'call' and unify(base, x, {'off': off}) is not None else None)))
            for e in known:
                gs = [sub(g) for g in e.guard if 'IsKnown' not in show(g)]
                if not any(g is FALSE for g in gs):
                    got.setdefault(n, []).append(pshow(sub(e.val)))
        ctx.ob('texture-values', where_, got == {n: [str(max(n, 0)), str(max(-n, 0) if n else 1)] for n in (127, 7, 1, 0, -1, -5, -127)},
               'value and alpha of cells off the neutral gray: %s' % got)
        ctx.match('texture-describes-its-pixels', s, on_fields('width', 'height', 'resolution', 'slice_pose'), [
            E('write', 'texture.width', '$cl.num_x_cells', guard='true'), E('write', 'texture.height', '$cl.num_y_cells', guard='true'), E('write', 'texture.resolution', 'this.limits_.resolution_', guard='true'),
            E('write', 'texture.slice_pose', 'ToProto(local_pose.inverse() @ Rigid3::Translation(Matrix(this.limits_.max_[0] - this.limits_.resolution_ * $off[1], this.limits_.max_[1] - this.limits_.resolution_ * $off[0], 0)))', guard='true')])
        gz = [e for e in s.effects if e.kind == 'call' and e.name.endswith('FastGzipString')]
        ctx.ob('texture-covers-the-known-cells', where_, len(gz) == 1 and not gz[0].guard and show(strip(gz[0].args[1])) == 'texture.cells', 'the cells are not stored')
        ctx.ob('texture-covers-the-known-cells', where_, all(strip(e.val) is TRUE for e in s.effects if e.kind == 'return'), 'drawing does not report success')


if __name__ == '__main__':
    main('P14', check, 'value-flow summaries of the grid code compared with the grid equations',
         'cell indices, flat indices, growth offsets, marker arithmetic and stored fields are those of the grid definition, on every path',
         tus=['mapping/2d/grid_2d.cc', 'mapping/2d/probability_grid.cc', 'mapping/internal/2d/tsdf_2d.cc', 'mapping/internal/2d/tsd_value_converter.cc'])
