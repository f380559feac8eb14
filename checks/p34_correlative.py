#!/usr/bin/env python3
"""Correlative scan matching in 2D: the whole window is searched, bounds bound, matches are above the minimum score."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

M = 'mapping/internal/2d/scan_matching/'
N = 'mapping::scan_matching::'
F = N + 'FastCorrelativeScanMatcher2D::'
R = N + 'RealTimeCorrelativeScanMatcher2D::'
G = N + 'PrecomputationGrid2D::'
SP = 'search_parameters'
EFF = of_kind('write', 'append', 'mutate')


def pose(scan, x, y):
    """The candidate at these offsets (in cells): grid x runs along -y, grid y along -x."""
    return ('{{scan_index={s}, x_index_offset={x}, y_index_offset={y}, x=-{y} * {p}.resolution, y=-{x} * {p}.resolution, '
            'orientation=({s} - {p}.num_angular_perturbations) * {p}.angular_perturbation_step_size, score=0}}').format(s=scan, x=x, y=y, p=SP)


def window(ctx):
    p = ctx.program(M + 'correlative_scan_matcher_2d.cc')
    for f in p.overloads(N + 'Candidate2D::Candidate2D'):
        if len(f['params']) != 4:
            continue
        ctx.final('candidate-pose-from-its-offsets', p, None, {
            'this.scan_index': 'init_scan_index', 'this.x_index_offset': 'init_x_index_offset', 'this.y_index_offset': 'init_y_index_offset',
            'this.x': '-init_y_index_offset * search_parameters.resolution', 'this.y': '-init_x_index_offset * search_parameters.resolution',
            'this.orientation': '(init_scan_index - search_parameters.num_angular_perturbations) * search_parameters.angular_perturbation_step_size'}, s=ctx.summarise(p, f))
    ctx.match('better-means-higher-score', ctx.summarise(p, p.fn(N + 'Candidate2D::operator<')), of_kind('return'), [E('return', val='this.score < other.score', guard='true')])
    ctx.match('better-means-higher-score', ctx.summarise(p, p.fn(N + 'Candidate2D::operator>')), of_kind('return'), [E('return', val='other.score < this.score', guard='true')])
    for f in p.overloads(N + 'SearchParameters::SearchParameters'):
        if f.get('implicit') or 'linear_search_window' not in [x['n'] if isinstance(x, dict) else x for x in f['params']]:
            continue
        s = ctx.summarise(p, f)
        far = 'fold(point_cloud, $i0, 3 * resolution, max(acc(), Matrix(point_cloud[$i0].position[0], point_cloud[$i0].position[1]).norm()))'
        step = '0.999 * acos(1 - 0.5 * Pow2(resolution) / Pow2(%s))' % far
        n = 'ceil(angular_search_window / (%s))' % step
        lin = 'ceil(linear_search_window / resolution)'
        box = '{min_x=-%s, max_x=%s, min_y=-%s, max_y=%s}' % (lin, lin, lin, lin)
        once = any(e.kind == 'mutate' and e.name.endswith('assign') for e in s.effects)
        ctx.spec_on('window-covers-the-configured-one', s, [
            E('write', 'this.resolution', 'resolution', guard='true', each=[]),
            E('write', 'this.angular_perturbation_step_size', step, guard='true', each=[], casts=True),
            E('write', 'this.num_angular_perturbations', n, guard='true', each=[], casts=True),
            E('write', 'this.num_scans', '1 + 2 * ' + n, guard='true', each=[], casts=True),
            E('mutate', 'this.linear_bounds', name='assign', args=['1 + 2 * ' + n, box], guard='true', each=[], casts=True) if once else E('append', 'this.linear_bounds', box, guard='true', each=['..1 + 2 * ' + n], casts=True)],
            rel=lambda e: e.kind in ('append', 'mutate') or e.kind == 'write' and not e.val.op == 'obj')


def shrinking(ctx):
    p = ctx.program(M + 'correlative_scan_matcher_2d.cc')
    s = ctx.summarise(p, p.fn(N + 'SearchParameters::ShrinkToFit'))
    lo = 'fold(scans[$i], $j, DenseBase::Zero(), acc().min(-scans[$i][$j]))'
    hi = 'fold(scans[$i], $j, DenseBase::Zero(), acc().max(Array(cell_limits.num_x_cells - 1, cell_limits.num_y_cells - 1) - scans[$i][$j]))'
    b = 'this.linear_bounds[$i].%s_%s'
    ctx.spec_on('window-shrunk-only-where-no-point-hits-the-grid', s, [
        E('write', b % (m, c), '%s(%s, %s[%d])' % (g, b % (m, c), v, k), guard='true', each=['..this.num_scans'])
        for m, g, v in (('min', 'max', lo), ('max', 'min', hi)) for k, c in enumerate('xy')], rel=EFF)
    s = ctx.summarise(p, p.fn(N + 'DiscretizeScans'), opaque=['GetCellIndex'])
    ctx.match('scans-discretised-point-by-point', s, lambda e: e.kind == 'call' and e.name.endswith('GetCellIndex'), [
        E('call', 'map_limits', name='GetCellIndex', args=[None], guard='true', each=['scans', 'scans[$i]'])])


def real_time(ctx):
    p = ctx.program(M + 'real_time_correlative_scan_matcher_2d.cc')
    s = ctx.summarise(p, p.fn(R + 'GenerateExhaustiveSearchCandidates'))
    b = SP + '.linear_bounds[$s].%s_%s'
    ctx.spec_on('every-candidate-of-the-window', s, [
        E('append', '$r', pose('$s', '$x', '$y'), guard='true', each=['..%s.num_scans' % SP, '%s..1 + %s' % (b % ('min', 'x'), b % ('max', 'x')), '%s..1 + %s' % (b % ('min', 'y'), b % ('max', 'y'))]),
        E('return', val='$r', guard='true', each=[])], rel=of_kind('write', 'append', 'mutate', 'return'))
    q = 'candidates[$i]'
    score = 'ComputeCandidateScore(grid, discrete_scans[{q}.scan_index], {q}.x_index_offset, {q}.y_index_offset)'.format(q=q)
    cost = 'exp(-Pow2(hypot({q}.x, {q}.y) * this.options_.translation_delta_cost_weight + abs({q}.orientation) * this.options_.rotation_delta_cost_weight))'.format(q=q)
    s = ctx.summarise(p, p.fn(R + 'ScoreCandidates'), opaque=['ComputeCandidateScore', 'GetGridType'])
    got = [e for e in s.effects if e.kind == 'write']
    last = [e for e in got if not any(o is not e and o.obj is e.obj and s.effects.index(o) > s.effects.index(e) for o in got)]
    for e in last:
        ctx.ob('score-weighed-by-distance', s.fn['sqn'], len(e.loops) == 1 and e.loops[0].full(), 'not every candidate is scored')
    ctx.match('score-weighed-by-distance', s, lambda e: e in last, [E('write', q + '.score', '%s * %s' % (score, cost), guard='grid.GetGridType() == PROBABILITY_GRID || grid.GetGridType() == TSDF', each=['candidates'], casts=True)])
    for f in p.overloads(N + 'ComputeCandidateScore'):
        s = ctx.summarise(p, f, opaque=['GetTSDAndWeight', 'GetProbability'])
        at_ = 'Array(x_index_offset + discrete_scan[$i][0], y_index_offset + discrete_scan[$i][1])'
        if 'TSDF' in p.ptypes(f)[0]:
            tw = 'tsdf.GetTSDAndWeight(%s)' % at_
            w = 'fold(discrete_scan, $i, 0, acc() + %s.second)' % tw
            v = 'fold(discrete_scan, $i, 0, acc() + (tsdf.max_correspondence_cost_ - abs({t}.first)) / tsdf.max_correspondence_cost_ * {t}.second)'.format(t=tw)
            ctx.match('score-is-the-mean', s, of_kind('return'), [E('return', val='0', guard='%s == 0' % w), E('return', val='%s / %s' % (v, w), guard='%s != 0' % w)])
        else:
            ctx.match('score-is-the-mean', s, of_kind('return'), [E('return', val='fold(discrete_scan, $i, 0, acc() + probability_grid.GetProbability(%s)) / |discrete_scan|' % at_, guard='true', casts=True)])
    s = ctx.summarise(p, p.fn(R + 'Match'), opaque=['TransformPointCloud', 'GenerateRot', 'Discretize', 'RealTimeCorrelativeScanMatcher2D::', 'SearchParameters::', 'Rigid2::', 'Rigid3::'])
    I_ = 'initial_pose_estimate'
    cloud = 'TransformPointCloud(point_cloud, Rigid3::Rotation(AngleAxis(%s.rotation().cast().angle(), MatrixBase::UnitZ())))' % I_
    w = 'SearchParameters(this.options_.linear_search_window, this.options_.angular_search_window, %s, grid.limits_.resolution_)' % cloud
    c = 'this.GenerateExhaustiveSearchCandidates(%s)' % w
    best = 'max_element(begin(%s), end(%s))' % (c, c)
    ctx.spec_on('best-candidate-reported', s, [
        E('call', 'this', name='ScoreCandidates', args=['grid', None, None, c], guard='true', each=[], tag='score'),
        E('call', name='max_element', args=['begin(%s)' % c, 'end(%s)' % c], guard='true', each=[], tag='best'),
        E('write', 'pose_estimate', 'Rigid2(Matrix({i}.translation()[0] + {b}.x, {i}.translation()[1] + {b}.y), {i}.rotation() @ {b}.orientation)'.format(i=I_, b=best), guard='true', each=[]),
        E('return', val=best + '.score', guard='true', each=[])], order=['score<best'],
        rel=lambda e: e.kind in ('write', 'return') or e.kind == 'call' and e.name.split('::')[-1] in ('ScoreCandidates', 'max_element'))


def grids(ctx):
    p = ctx.program(M + 'fast_correlative_scan_matcher_2d.cc')
    s = ctx.summarise(p, p.fn(N + 'SlidingWindowMaximum::AddValue'))
    D = 'this.non_ascending_maxima_'
    ctx.spec_on('maximum-of-the-window', s, [E('mutate', D, name='pop_back', guard='|%s| != 0 && last(%s) < value' % (D, D), each=[None], tag='pop'), E('append', D, 'value', guard='true', each=[], tag='add')], rel=EFF, order=['pop<add'])
    ctx.spec_on('maximum-of-the-window', ctx.summarise(p, p.fn(N + 'SlidingWindowMaximum::RemoveValue')), [E('mutate', D, name='pop_front', guard='value == %s[0]' % D, each=[])], rel=EFF)
    ctx.match('maximum-of-the-window', ctx.summarise(p, p.fn(N + 'SlidingWindowMaximum::GetMaximum')), of_kind('return'), [E('return', val=D + '[0]', guard='true')])
    s = ctx.summarise(p, p.fn(G + 'PrecomputationGrid2D'), opaque=['ComputeCellValue', 'SlidingWindowMaximum::', 'GetCorrespondenceCost'])
    X, Y, I_ = 'limits.num_x_cells', 'limits.num_y_cells', 'reusable_intermediate_grid'
    stride = '(%s + width - 1)' % X
    ctx.final('bound-covers-the-cells', p, None, {'this.offset_': 'Array(1 - width, 1 - width)', 'this.wide_limits_': '{num_x_cells=%s + width - 1, num_y_cells=%s + width - 1}' % (X, Y),
                                                  'this.min_score_': '1 - grid.max_correspondence_cost_', 'this.max_score_': '1 - grid.min_correspondence_cost_'}, s=s)
    for c in ('0 < width', '0 < ' + X, '0 < ' + Y):
        ctx.refuses('bound-covers-the-cells', s, c, 'an empty grid or window is not refused')
    cost = lambda x: '1 - abs(grid.GetCorrespondenceCost(Array(%s, $y)))' % x
    mid = lambda y: '%s[$u + %s * %s]' % (I_, y, stride)
    rows, cols = '..' + Y, '..' + stride
    es = []
    for outer, L, w, out, val, src in ((rows, X, '$w', I_ + '[{} + width - 1 + $y * %s]' % stride, '$w.GetMaximum()', cost), (cols, Y, '$v', 'this.cells_[$u + ({} + width - 1) * %s]' % stride, 'this.ComputeCellValue($v.GetMaximum())', mid)):
        o = '1' if outer == rows else '2'
        a, b, c = '$a' + o, '$b' + o, '$c' + o
        call = lambda n, x, g, lp, t: E('call', w, name=n, args=[x], guard=g, each=[outer] + lp, tag=t + o)
        la, lb, lc = '1 - width..0', '..%s - width' % L, 'max(0, %s - width)..%s' % (L, L)
        es += [call('AddValue', src('0'), 'true', [], 'first'),
               E('write', out.format(a), val, guard='true', each=[outer, la], tag='wa' + o), call('AddValue', src('(%s + width)' % a), '%s + width < %s' % (a, L), [la], 'aa'),
               E('write', out.format(b), val, guard='true', each=[outer, lb], tag='wb' + o), call('RemoveValue', src(b), 'true', [lb], 'rb'), call('AddValue', src('(%s + width)' % b), 'true', [lb], 'ab'),
               E('write', out.format(c), val, guard='true', each=[outer, lc], tag='wc' + o), call('RemoveValue', src(c), 'true', [lc], 'rc')]
    ctx.spec_on('bound-covers-the-cells', s, es, order=[x.replace('#', o) for o in '12' for x in ('first#<wa#', 'wa#<aa#', 'aa#<wb#', 'wb#<rb#', 'wb#<ab#', 'ab#<wc#', 'rb#<wc#', 'wc#<rc#')],
                rel=lambda e: e.kind == 'write' and e.obj.op == 'at' or e.kind == 'call' and e.name.split('::')[-1] in ('AddValue', 'RemoveValue'))
    v = '255 * (probability - this.min_score_) / (this.max_score_ - this.min_score_)'
    ctx.match('bound-covers-the-cells', ctx.summarise(p, p.fn(G + 'ComputeCellValue')), of_kind('return'), [E('return', val='RoundToInt(%s)' % v, guard='true', casts=True)])
    ctx.match('bound-covers-the-cells', ctx.summarise(p, p.fn(G + 'ToScore')), of_kind('return'), [E('return', val='this.min_score_ + value * (this.max_score_ - this.min_score_) / 255', guard='true')])
    x, y, nx, ny = 'xy_index[0] - this.offset_[0]', 'xy_index[1] - this.offset_[1]', 'this.wide_limits_.num_x_cells', 'this.wide_limits_.num_y_cells'
    s = ctx.summarise(p, p.fn(G + 'GetValue'))
    ctx.match('bound-covers-the-cells', s, lambda e: e.kind == 'return' and e.val is not I(0), [E('return', val='this.cells_[{} + ({}) * {}]'.format(x, y, nx), guard='{} < {} && {} < {}'.format(x, nx, y, ny), casts=True)])
    ctx.match('one-grid-per-depth', ctx.summarise(p, p.fn(N + 'PrecomputationGridStack2D::Get')), of_kind('return'), [E('return', val='this.precomputation_grids_[index]', guard='true')])
    ctx.match('one-grid-per-depth', ctx.summarise(p, p.fn(N + 'PrecomputationGridStack2D::max_depth')), of_kind('return'), [E('return', val='|this.precomputation_grids_| - 1', guard='true', casts=True)])
    for f in p.overloads(N + 'PrecomputationGridStack2D::PrecomputationGridStack2D'):
        if len(f['params']) != 2:
            continue
        s = ctx.summarise(p, f, opaque=['PrecomputationGrid2D::', 'MapLimits::'])
        ctx.match('one-grid-per-depth', s, of_kind('append', 'mutate'), [E('append', 'this.precomputation_grids_', 'PrecomputationGrid2D(grid, grid.limits_.cell_limits(), 1 << $i, $r)', guard='true', each=['..options.branch_and_bound_depth'])])
        ctx.refuses('one-grid-per-depth', s, '0 < options.branch_and_bound_depth', 'an empty stack of grids is not refused')


def search(ctx):
    p = ctx.program(M + 'fast_correlative_scan_matcher_2d.cc')
    op = ['TransformPointCloud', 'GenerateRot', 'Discretize', 'ShrinkToFit', 'FastCorrelativeScanMatcher2D::', 'PrecomputationGrid2D::', 'PrecomputationGridStack2D::', 'SearchParameters::', 'Rigid2::', 'Rigid3::']
    S = lambda n: ctx.summarise(p, p.fn(F + n), opaque=op)
    W = 'SearchParameters(%s, %s, point_cloud, this.limits_.resolution_)'
    ctx.match('configured-window', S('Match'), of_kind('return'), [E('return', val='this.MatchWithSearchParameters(%s, initial_pose_estimate, point_cloud, min_score, score, pose_estimate)' % (W % ('this.options_.linear_search_window', 'this.options_.angular_search_window')), guard='true')])
    mid = 'Rigid2::Translation(this.limits_.max_ - 0.5 * this.limits_.resolution_ * Matrix(this.limits_.cell_limits_.num_y_cells, this.limits_.cell_limits_.num_x_cells))'
    ctx.match('whole-submap', S('MatchFullSubmap'), of_kind('return'), [E('return', val='this.MatchWithSearchParameters(%s, %s, point_cloud, min_score, score, pose_estimate)' % (W % ('1000000 * this.limits_.resolution_', '3.141592653589793'), mid), guard='true')])
    I_ = 'initial_pose_estimate'
    cloud = 'TransformPointCloud(point_cloud, Rigid3::Rotation(AngleAxis(%s.rotation().cast().angle(), MatrixBase::UnitZ())))' % I_
    scans = 'DiscretizeScans(this.limits_, GenerateRotatedScans(%s, search_parameters), Translation(%s.translation()[0], %s.translation()[1]))' % (cloud, I_, I_)
    best = 'this.BranchAndBound({s}, search_parameters, this.ComputeLowestResolutionCandidates({s}, search_parameters), this.precomputation_grid_stack_.max_depth(), min_score)'.format(s=scans)
    s = S('MatchWithSearchParameters')
    above = 'min_score < %s.score' % best
    ctx.spec_on('match-only-above-the-minimum-score', s, [
        E('write', 'score', best + '.score', guard=above, each=[], casts=True),
        E('write', 'pose_estimate', 'Rigid2(Matrix({i}.translation()[0] + {b}.x, {i}.translation()[1] + {b}.y), {i}.rotation() @ {b}.orientation)'.format(i=I_, b=best), guard=above, each=[], casts=True),
        E('return', val='true', guard=above, each=[], casts=True), E('return', val='false', guard='!(%s)' % above, each=[], casts=True)], rel=of_kind('write', 'append', 'mutate', 'return'))
    depth = 'this.precomputation_grid_stack_.max_depth()'
    s = S('ComputeLowestResolutionCandidates')
    c = 'this.GenerateLowestResolutionCandidates(search_parameters)'
    ctx.spec_on('coarsest-candidates-cover-the-window', s, [
        E('call', 'this', name='ScoreCandidates', args=['this.precomputation_grid_stack_.Get(%s)' % depth, 'discrete_scans', SP, c], guard='true', each=[], tag='s'), E('return', val=c, guard='true', each=[], tag='r')],
        rel=lambda e: e.kind == 'return' or e.kind == 'call' and e.name.endswith('ScoreCandidates'), order=['s<r'])
    s = ctx.summarise(p, p.fn(F + 'ScoreCandidates'), opaque=['GetValue', 'ToScore'])
    q = 'candidates[$i]'
    scan = 'discrete_scans[%s.scan_index]' % q
    both = 'Array(%s[$j][0] + %s.x_index_offset, %s[$j][1] + %s.y_index_offset)' % (scan, q, scan, q)
    mean = 'fold(%s, $j, 0, acc() + precomputation_grid.GetValue(%%s)) / |%s|' % (scan, scan)
    ctx.trial(lambda alt: ctx.spec_on('candidates-scored-and-sorted', s, [
        E('write', q + '.score', 'precomputation_grid.ToScore(%s)' % (mean % alt(both)), guard='true', each=['candidates'], casts=True, tag='w'),
        E('call', 'candidates', name='sort', args=['begin(candidates)', 'end(candidates)', None], guard='true', each=[], tag='s')],
        rel=lambda e: e.kind in ('write', 'append', 'mutate') or e.kind == 'call' and e.name.endswith('sort'), order=['w<s']) or True,
        lambda _: '%s[$j] + Array(%s.x_index_offset, %s.y_index_offset)' % (scan, q, q))
    for e in s.effects:
        if e.kind == 'call' and e.name.endswith('sort'):
            by = e.args[-1]
            if by.op == 'obj':
                ctx.ob('candidates-scored-and-sorted', s.fn['sqn'], 'std::greater<' in str(by.a[0]), 'candidates are not sorted from the best on')
    s = S('BranchAndBound')
    half = '(1 << (candidate_depth - 1))'
    k = 'candidates[$i]'
    bounds = SP + '.linear_bounds[%s.scan_index]' % k
    deeper = 'candidate_depth != 0 && min_score < %s.score' % k
    calls_ = [e for e in s.effects if e.kind == 'call' and e.name.endswith(('ScoreCandidates', 'BranchAndBound'))]
    ctx.ob('branches-on-every-promising-candidate', s.fn['sqn'], [e.name.split('::')[-1] for e in calls_] == ['ScoreCandidates', 'BranchAndBound'], 'branches are not scored and searched')
    ctx.spec_on('branches-on-every-promising-candidate', s, [
        E('call', 'this', name='ScoreCandidates', args=['this.precomputation_grid_stack_.Get(candidate_depth - 1)', 'discrete_scans', SP, '$h'], guard=deeper, each=[None], tag='s'),
        E('call', 'this', name='BranchAndBound', args=['discrete_scans', SP, '$h', 'candidate_depth - 1', '$b.score'], guard=deeper, each=[None], tag='b'),
        E('return', val='candidates[0]', guard='candidate_depth == 0', each=[]), E('return', val='$r', guard='candidate_depth != 0', each=[])],
        rel=lambda e: e.kind == 'return' or e in calls_, order=['s<b'])
    half = 'list(0, %s)' % half
    x, y = '%s.x_index_offset + %s[$dx]' % (k, half), '%s.y_index_offset + %s[$dy]' % (k, half)
    ctx.match('branches-cover-their-candidate', s, of_kind('append'), [E('append', '$h', pose(k + '.scan_index', '(%s)' % x, '(%s)' % y), guard='%s && %s <= %s.max_x && %s <= %s.max_y' % (deeper, x, bounds, y, bounds), each=[None, None, None])])
    loops = {l for e in calls_ for l in e.loops}
    for l in loops:
        ctx.ob('branches-on-every-promising-candidate', s.fn['sqn'], l.C is not None and show(l.C) == 'candidates', 'branches over %s' % (show(l.C) if l.C is not None else '?'))
        for x in l.exits or []:
            # candidates come best first: stopping at one that is not promising leaves out none that is
            ctx.ob('branches-on-every-promising-candidate', s.fn['sqn'], [show(canon(g)) for g, _ in x[1]] == ['(candidates[%s].score <= min_score)' % show(l.idx)], 'stops when %s' % [show(g)[:200] for g, _ in x[1]])
        kept = [(show(phi), re.sub(r"'\d+", '', show(v))) for phi, (init, vs) in l.carried.items() for v in vs if v is not phi]
        for b_, v in kept:
            c = (re.findall(r'this\.[\w:]*BranchAndBound\(.*?%s\.score\)' % re.escape(b_), v) or [''])[0]
            forms = ['(%s max %s)', '(%s max %s)', '((%s.score < %s.score) ? {1} : {0})', '((%s.score <= %s.score) ? {1} : {0})']
            ctx.ob('best-so-far-is-kept', s.fn['sqn'], bool(c) and v in [(x % (p_, q_)).replace('{0}', p_).replace('{1}', q_) for x in forms for p_, q_ in ((b_, c), (c, b_))], 'the best candidate becomes %s' % v[:300])
        ctx.ob('best-so-far-is-kept', s.fn['sqn'], len(kept) == 1, 'the best candidate is not kept')
    ends = [e.val for e in s.effects if e.kind == 'return' and e.val.op == 'post']
    ctx.ob('best-so-far-is-kept', s.fn['sqn'], len(ends) == 1, 'the best candidate is not returned')
    ctx.match('best-so-far-is-kept', s, lambda e: e.kind == 'write' and show(e.val) == 'min_score', [E('write', '$b.score', 'min_score', guard='candidate_depth != 0', each=[])])
    s = S('GenerateLowestResolutionCandidates')
    step = '(1 << %s)' % depth
    walk = lambda i, c: 'iter(%s, %s.linear_bounds[$s].min_%s, acc() + %s)' % (i, SP, c, step)
    ctx.spec_on('coarsest-candidates-cover-the-window', s, [
        E('append', '$r', pose('$s', walk('$x', 'x'), walk('$y', 'y')), guard='{} <= {p}.linear_bounds[$s].max_x && {} <= {p}.linear_bounds[$s].max_y'.format(walk('$x', 'x'), walk('$y', 'y'), p=SP), each=['..%s.num_scans' % SP, None, None]), E('return', val='$r', guard='true', each=[])], rel=of_kind('write', 'append', 'mutate', 'return'))
    for e in s.effects:
        if e.kind != 'append' or len(e.loops) != 3:
            continue
        for l in e.loops[1:]:
            ctx.ob('coarsest-candidates-cover-the-window', s.fn['sqn'], not l.exits, 'the walk over the window is left early')


def check(ctx):
    window(ctx)
    shrinking(ctx)
    real_time(ctx)
    grids(ctx)
    search(ctx)


main('P34', check, 'guarded effect summaries', 'Interprocedural symbolic summaries of the search window, precomputed bounds, candidate generation, scoring, branching and reporting of both 2D correlative scan matchers, compared with the specified effects, guards, loops and their order.', tus=[M + 'correlative_scan_matcher_2d.cc', M + 'fast_correlative_scan_matcher_2d.cc', M + 'real_time_correlative_scan_matcher_2d.cc'])
