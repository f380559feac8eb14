#!/usr/bin/env python3
"""Configuration: every option of the Lua configuration arrives in its own field, and unusable settings are refused."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *
import frontend

M, S = 'mapping::', 'mapping::scan_matching::'
D = 'parameter_dictionary'
# Options functions of other translation units: each is checked in its own table entry.
SUB = {}


def opt(double='', boolean='', integer='', count='', sub=(), refuse=(), extra=None):
    """FIELD of the options is what the dictionary holds under FIELD, read as a double, boolean, integer or non-negative integer; sub: {field: (options function, key of the sub-dictionary)}."""
    r = {}
    for kind, names in (('GetDouble', double), ('GetBool', boolean), ('GetInt', integer), ('GetNonNegativeInt', count)):
        for n in names.split():
            r[n] = '%s.%s("%s")' % (D, kind, n)
    for n, (fn, key) in dict(sub).items():
        r[n] = '%s(%s.GetDictionary("%s"))' % (fn, D, key)
    return r, list(refuse), dict(extra or {})


def part(key, double='', integer=''):
    """An optional section: its fields are set exactly if the configuration has the section."""
    r = {}
    for kind, names in (('GetDouble', double), ('GetInt', integer)):
        for n in names.split():
            r['%s.%s' % (key, n)] = E('write', None, '%s.GetDictionary("%s").%s("%s")' % (D, key, kind, n), guard='%s.HasKey("%s")' % (D, key), each=[])
    return r


def get(kind, key):
    return '%s.Get%s("%s")' % (D, kind, key)


AVF = 'CreateAdaptiveVoxelFilterOptions'
CERES = 'CreateCeresSolverOptionsProto'
WEIGHTS = 'pose_translation_weight pose_rotation_weight imu_acceleration_weight imu_rotation_weight odometry_rotation_weight odometry_translation_weight'
HIT = ['0.5 < ' + get('Double', 'hit_probability'), get('Double', 'miss_probability') + ' < 0.5']
TABLE = {
    'sensor/internal/voxel_filter.cc': {
        'sensor::CreateAdaptiveVoxelFilterOptions': opt('max_length max_range', count='min_num_points')},
    'common/internal/ceres_solver_options.cc': {
        'common::CreateCeresSolverOptionsProto': opt(boolean='use_nonmonotonic_steps', count='max_num_iterations num_threads',
            refuse=['0 < ' + get('NonNegativeInt', 'max_num_iterations'), '0 < ' + get('NonNegativeInt', 'num_threads')])},
    'mapping/pose_extrapolator_interface.cc': {
        M + 'CreatePoseExtrapolatorOptions': opt(boolean='use_imu_based', extra=dict(
            [('constant_velocity.' + n, '%s.GetDictionary("constant_velocity").GetDouble("%s")' % (D, n)) for n in 'pose_queue_duration imu_gravity_time_constant'.split()] +
            [('imu_based.' + n, '%s.GetDictionary("imu_based").GetDouble("%s")' % (D, n)) for n in ('pose_queue_duration gravity_constant ' + WEIGHTS).split()] +
            [('imu_based.solver_options', '%s(%s.GetDictionary("imu_based").GetDictionary("solver_options"))' % (CERES, D))]))},
    'mapping/map_builder_interface.cc': {
        M + 'CreateMapBuilderOptions': opt(boolean='use_trajectory_builder_2d use_trajectory_builder_3d collate_by_trajectory', count='num_background_threads',
            sub={'pose_graph_options': ('CreatePoseGraphOptions', 'pose_graph')},
            refuse=['%s != %s' % (get('Bool', 'use_trajectory_builder_2d'), get('Bool', 'use_trajectory_builder_3d'))])},
    'mapping/pose_graph.cc': {
        M + 'CreatePoseGraphOptions': opt('matcher_translation_weight matcher_rotation_weight global_sampling_ratio global_constraint_search_after_n_seconds',
            'log_residual_histograms', 'optimize_every_n_nodes', 'max_num_final_iterations',
            {'constraint_builder_options': ('CreateConstraintBuilderOptions', 'constraint_builder'), 'optimization_problem_options': ('CreateOptimizationProblemOptions', 'optimization_problem')},
            ['0 < ' + get('NonNegativeInt', 'max_num_final_iterations')],
            part('overlapping_submaps_trimmer_2d', 'min_covered_area', 'fresh_submaps_count min_added_submaps_count'))},
    'mapping/3d/submap_3d.cc': {
        M + 'CreateSubmapsOptions3D': opt('high_resolution high_resolution_max_range low_resolution', count='num_range_data',
            sub={'range_data_inserter_options': ('CreateRangeDataInserterOptions3D', 'range_data_inserter')}, refuse=['0 < ' + get('NonNegativeInt', 'num_range_data')])},
    'mapping/3d/range_data_inserter_3d.cc': {
        M + 'CreateRangeDataInserterOptions3D': opt('hit_probability miss_probability intensity_threshold', integer='num_free_space_voxels', refuse=HIT)},
    'mapping/2d/submap_2d.cc': {
        M + 'CreateSubmapsOptions2D': opt(count='num_range_data', sub={'grid_options_2d': ('CreateGridOptions2D', 'grid_options_2d'), 'range_data_inserter_options': ('CreateRangeDataInserterOptions', 'range_data_inserter')},
            refuse=['0 < ' + get('NonNegativeInt', 'num_range_data')])},
    'mapping/2d/probability_grid_range_data_inserter_2d.cc': {
        M + 'CreateProbabilityGridRangeDataInserterOptions2D': opt('hit_probability miss_probability', refuse=HIT, extra={
            'insert_free_space': '%s.HasKey("insert_free_space") ? %s : true' % (D, get('Bool', 'insert_free_space'))})},
    'mapping/2d/grid_2d.cc': {
        M + 'CreateGridOptions2D': opt('resolution', extra={'grid_type': None})},
    'mapping/range_data_inserter_interface.cc': {
        M + 'CreateRangeDataInserterOptions': opt(sub={
            'probability_grid_range_data_inserter_options_2d': ('CreateProbabilityGridRangeDataInserterOptions2D', 'probability_grid_range_data_inserter'),
            'tsdf_range_data_inserter_options_2d': ('CreateTSDFRangeDataInserterOptions2D', 'tsdf_range_data_inserter')}, extra={'range_data_inserter_type': None})},
    'mapping/trajectory_builder_interface.cc': {
        M + 'CreateTrajectoryBuilderOptions': opt(boolean='collate_fixed_frame collate_landmarks', sub={
            'trajectory_builder_2d_options': ('CreateLocalTrajectoryBuilderOptions2D', 'trajectory_builder_2d'),
            'trajectory_builder_3d_options': ('CreateLocalTrajectoryBuilderOptions3D', 'trajectory_builder_3d')},
            extra=dict(part('pure_localization_trimmer', integer='max_submaps_to_keep'), **part('pose_graph_odometry_motion_filter', 'max_time_seconds max_distance_meters max_angle_radians')))},
    'mapping/internal/optimization/optimization_problem_options.cc': {
        'mapping::optimization::CreateOptimizationProblemOptions': opt(
            'huber_scale acceleration_weight rotation_weight odometry_translation_weight odometry_rotation_weight local_slam_pose_translation_weight local_slam_pose_rotation_weight '
            'fixed_frame_pose_translation_weight fixed_frame_pose_rotation_weight fixed_frame_pose_tolerant_loss_param_a fixed_frame_pose_tolerant_loss_param_b',
            'fixed_frame_pose_use_tolerant_loss log_solver_summary use_online_imu_extrinsics_in_3d fix_z_in_3d', sub={'ceres_solver_options': (CERES, 'ceres_solver_options')})},
    'mapping/internal/motion_filter.cc': {
        M + 'CreateMotionFilterOptions': opt('max_time_seconds max_distance_meters max_angle_radians')},
    'mapping/internal/scan_matching/real_time_correlative_scan_matcher.cc': {
        S + 'CreateRealTimeCorrelativeScanMatcherOptions': opt('linear_search_window angular_search_window translation_delta_cost_weight rotation_delta_cost_weight',
            refuse=['0 <= ' + get('Double', 'translation_delta_cost_weight'), '0 <= ' + get('Double', 'rotation_delta_cost_weight')])},
    'mapping/internal/constraints/constraint_builder.cc': {
        'mapping::constraints::CreateConstraintBuilderOptions': opt('sampling_ratio max_constraint_distance min_score global_localization_min_score loop_closure_translation_weight loop_closure_rotation_weight', 'log_matches', sub={
            'fast_correlative_scan_matcher_options': ('CreateFastCorrelativeScanMatcherOptions2D', 'fast_correlative_scan_matcher'), 'ceres_scan_matcher_options': ('CreateCeresScanMatcherOptions2D', 'ceres_scan_matcher'),
            'fast_correlative_scan_matcher_options_3d': ('CreateFastCorrelativeScanMatcherOptions3D', 'fast_correlative_scan_matcher_3d'), 'ceres_scan_matcher_options_3d': ('CreateCeresScanMatcherOptions3D', 'ceres_scan_matcher_3d')})},
    'mapping/internal/3d/scan_matching/fast_correlative_scan_matcher_3d.cc': {
        S + 'CreateFastCorrelativeScanMatcherOptions3D': opt('min_rotational_score min_low_resolution_score linear_xy_search_window linear_z_search_window angular_search_window', integer='branch_and_bound_depth full_resolution_depth')},
    'mapping/internal/3d/local_trajectory_builder_options_3d.cc': {
        M + 'CreateLocalTrajectoryBuilderOptions3D': opt('min_range max_range voxel_filter_size imu_gravity_time_constant', 'use_online_correlative_scan_matching use_intensities', 'num_accumulated_range_data rotational_histogram_size', sub={
            'high_resolution_adaptive_voxel_filter_options': (AVF, 'high_resolution_adaptive_voxel_filter'), 'low_resolution_adaptive_voxel_filter_options': (AVF, 'low_resolution_adaptive_voxel_filter'),
            'real_time_correlative_scan_matcher_options': ('CreateRealTimeCorrelativeScanMatcherOptions', 'real_time_correlative_scan_matcher'), 'ceres_scan_matcher_options': ('CreateCeresScanMatcherOptions3D', 'ceres_scan_matcher'),
            'motion_filter_options': ('CreateMotionFilterOptions', 'motion_filter'), 'pose_extrapolator_options': ('CreatePoseExtrapolatorOptions', 'pose_extrapolator'), 'submaps_options': ('CreateSubmapsOptions3D', 'submaps')})},
    'mapping/internal/2d/local_trajectory_builder_options_2d.cc': {
        M + 'CreateLocalTrajectoryBuilderOptions2D': opt('min_range max_range min_z max_z missing_data_ray_length voxel_filter_size imu_gravity_time_constant', 'use_online_correlative_scan_matching use_imu_data', 'num_accumulated_range_data', sub={
            'adaptive_voxel_filter_options': (AVF, 'adaptive_voxel_filter'), 'loop_closure_adaptive_voxel_filter_options': (AVF, 'loop_closure_adaptive_voxel_filter'),
            'real_time_correlative_scan_matcher_options': ('CreateRealTimeCorrelativeScanMatcherOptions', 'real_time_correlative_scan_matcher'), 'ceres_scan_matcher_options': ('CreateCeresScanMatcherOptions2D', 'ceres_scan_matcher'),
            'motion_filter_options': ('CreateMotionFilterOptions', 'motion_filter'), 'pose_extrapolator_options': ('CreatePoseExtrapolatorOptions', 'pose_extrapolator'), 'submaps_options': ('CreateSubmapsOptions2D', 'submaps')})},
    'mapping/internal/2d/scan_matching/ceres_scan_matcher_2d.cc': {
        S + 'CreateCeresScanMatcherOptions2D': opt('occupied_space_weight translation_weight rotation_weight', sub={'ceres_solver_options': (CERES, 'ceres_solver_options')})},
    'mapping/internal/2d/scan_matching/fast_correlative_scan_matcher_2d.cc': {
        S + 'CreateFastCorrelativeScanMatcherOptions2D': opt('linear_search_window angular_search_window', integer='branch_and_bound_depth')},
    'mapping/internal/2d/tsdf_range_data_inserter_2d.cc': {
        M + 'CreateTSDFRangeDataInserterOptions2D': opt('truncation_distance maximum_weight update_weight_angle_scan_normal_to_ray_kernel_bandwidth update_weight_distance_cell_to_hit_kernel_bandwidth',
            'update_free_space project_sdf_distance_to_scan_normal', 'update_weight_range_exponent', sub={'normal_estimation_options': ('CreateNormalEstimationOptions2D', 'normal_estimation_options')})},
    'mapping/internal/2d/normal_estimation_2d.cc': {
        M + 'CreateNormalEstimationOptions2D': opt('sample_radius', integer='num_normal_samples', refuse=['0 < ' + get('Int', 'num_normal_samples'), '0 < ' + get('Double', 'sample_radius')])},
}
NAMES = [n for fns in TABLE.values() for n in fns] + [S + 'CreateCeresScanMatcherOptions3D']
OPAQUE = ['LuaParameterDictionary::', '_Parse$'] + ['(^|::)%s$' % n.split('::')[-1] for n in NAMES]


def single(s):
    """Option fields may be single precision: rounding a double to it is not a change of the setting."""
    q = lambda t: rewrite(t, lambda x: x.a[1] if x.op == 'cast' and str(x.a[0]) in ('float', 'double') else None) if isinstance(t, Term) else t
    r = copy.copy(s)
    r.effects = []
    for e in s.effects:
        e = copy.copy(e)
        e.val = q(e.val)
        e.pc = type(e.pc)((q(f), b) for f, b in e.pc)
        r.effects.append(e)
    return r


def merged(effects):
    """Two writes of one field under a condition and its opposite read as one write of the choice."""
    out = []
    for e in effects:
        for d in out:
            if e.kind == d.kind == 'write' and strip(e.obj) is strip(d.obj) and len(e.guard) == len(d.guard) == 1 and not e.loops and not d.loops and canon(not_(strip(e.guard[0]))) is canon(strip(d.guard[0])):
                c = copy.copy(d)
                c.val, c.pc = canon(ite(strip(d.guard[0]), d.val, e.val)), type(d.pc)([x for x in d.pc if x[0] not in d.guard])
                out[out.index(d)] = c
                break
        else:
            out.append(e)
    return out


def options(ctx):
    for u, fns in TABLE.items():
        p = ctx.program(u)
        for n, (fields, refuse, extra) in fns.items():
            fs = p.overloads(n)
            ctx.need(fs, n)
            op = [o for o in OPAQUE if '::)' + n.split('::')[-1] + '$' not in o]
            f = dict(fields)
            f.update({k: v for k, v in extra.items() if v is not None})
            for fn in fs:
                s = ctx.summarise(p, fn, opaque=op)
                s = single(renamed(s, {D: s.params[0]}) if s.params else s)
                chosen = [k for k, v in extra.items() if v is None]
                for k in chosen:
                    by_name(ctx, s, k)
                t = copy.copy(s)
                t.effects = [e for e in result_effects(s) if not any(show(target(e.obj)).endswith('.' + k) for k in chosen)]
                t.effects = merged(t.effects)
                t.params = list(s.params) + [RESULT]
                exp = []
                for k, v in f.items():
                    if isinstance(v, E):
                        v = copy.copy(v)
                        v.obj = 'result.' + k
                    else:
                        v = E('write', 'result.' + k, v, guard='true', each=[])
                    exp.append(v)
                ctx.match('option-lands-in-its-field', t, lambda e: True, exp, where=n)
                for c in refuse:
                    ctx.refuses('unusable-option-refused', s, c, 'accepted although not (%s)' % c)
                # A key must only be asked for if it is required or known to be there: reading a missing key ends the program.
                for e in s.effects:
                    if e.kind == 'call' and 'LuaParameterDictionary::Get' in str(e.name) and e.args and isinstance(e.args[0], Term) and '"insert_free_space"' in show(e.args[0]):
                        ctx.ob('optional-key-may-be-missing', '%s:%s' % (n, e.line), any('HasKey' in show(g) for g in e.guard), 'the optional key is read although it may be missing')


def by_name(ctx, s, k):
    """The enum-valued option is the value its name stands for; an unknown name is refused."""
    parse = [e for e in s.effects if e.kind == 'call' and str(e.name).endswith('_Parse')]
    ok = [e for e in parse if show(strip(e.args[0])).split('Dictionary::')[-1].startswith('GetString("%s"' % k) and not e.guard]
    if not ctx.ob('named-option-parsed', '%s.%s' % (s.fn['sqn'], k), len(ok) == 1, 'the value of "%s" is not looked up by the configured name' % k):
        return
    tgt = ok[0].args[1]
    tgt = tgt.a[0] if tgt.op == 'addr' else tgt
    known = lambda t: t.op in ('call', 'callx') and str(t.a[0]).endswith('_Parse')
    checked = all(any(known(strip(f)) for f, _ in e.pc) for e in s.effects if e.kind == 'return')
    ctx.ob('named-option-parsed', '%s.%s' % (s.fn['sqn'], k), checked, 'an unknown name of "%s" is not refused' % k)
    out = [target(e.val) for e in s.effects if e.kind == 'return' and isinstance(e.val, Term)]
    w = [e for e in s.effects if e.kind == 'write' and isinstance(e.obj, Term) and root_path(target(e.obj))[0] in out and show(target(e.obj)).endswith('.' + k)]
    ctx.ob('named-option-parsed', '%s.%s' % (s.fn['sqn'], k), len(w) == 1 and not w[0].guard and not w[0].loops and target(stripcast(w[0].val)) is target(stripcast(tgt)), 'the looked-up value does not become "%s": %s' % (k, [show(e.val) for e in w]))


def combination(ctx):
    """2D submaps: only the inserter that fits the configured grid is accepted."""
    p = ctx.program('mapping/2d/submap_2d.cc')
    for fn in p.overloads(M + 'CreateSubmapsOptions2D'):
        s = ctx.summarise(p, fn, opaque=[o for o in OPAQUE if 'CreateSubmapsOptions2D' not in o])
        out = [target(e.val) for e in s.effects if e.kind == 'return' and isinstance(e.val, Term)]
        if not ctx.ob('inserter-fits-grid', s.fn['sqn'], len(set(out)) == 1, 'the returned options cannot be told'):
            continue
        # The parts of the options by the name of the field they are stored in.
        parts = {k: mk('param', k) for k in ('grid_options_2d', 'range_data_inserter_options')}
        m = {}
        for e in s.effects:
            if e.kind == 'write' and isinstance(e.obj, Term):
                for k in parts:
                    if show(target(e.obj)).endswith('.' + k) and root_path(target(e.obj))[0] is out[0]:
                        m[strip(e.obj)] = m[strip(e.val)] = m[target(e.val)] = parts[k]
        t = copy.copy(s)
        t.effects = []
        for e in s.effects:
            if e.kind in ('assert', 'return', 'fatal'):
                e = copy.copy(e)
                e.pc = type(e.pc)((subst(strip(f), m), b) for f, b in e.pc)
                if isinstance(e.val, Term) and e.kind == 'assert':
                    e.val = subst(strip(e.val), m)
            t.effects.append(e)
        t.params = list(s.params) + list(parts.values())
        g, i = 'grid_options_2d.grid_type', 'range_data_inserter_options.range_data_inserter_type'
        G, I = 'GridOptions2D_GridType_', 'RangeDataInserterOptions_RangeDataInserterType_'
        ctx.refuses('inserter-fits-grid', t, '({g} == 1 && {i} == 1) || ({g} == 2 && {i} == 2)'.format(g=g, i=i), 'an inserter is accepted that does not fit the grid')


def solver(ctx):
    p = ctx.program('common/internal/ceres_solver_options.cc')
    ctx.result('solver-configured', p, 'common::CreateCeresSolverOptions', {n: 'proto.' + n for n in ('use_nonmonotonic_steps', 'max_num_iterations', 'num_threads')})


TOKEN = re.compile(r'\s+|--\[\[.*?\]\]|--[^\n]*|("(?:[^"\\]|\\.)*")|([A-Za-z_][A-Za-z0-9_.]*)|([0-9][0-9.]*(?:[eE][+-]?[0-9]+)?|\.[0-9]+)|(.)', re.S)


def lua_tables(files):
    """{NAME: table} of the configuration files: nested tables, names of other tables, literals; other expressions are numbers."""
    env = {}
    for text in files:
        toks = [m.group(1) or m.group(2) or m.group(3) or m.group(4) for m in TOKEN.finditer(text) if m.group(1) or m.group(2) or m.group(3) or m.group(4)]
        i = 0

        def value(i):
            if toks[i] == '{':
                t, i = {}, i + 1
                while toks[i] != '}':
                    k = toks[i]
                    if toks[i + 1] != '=':
                        raise SystemExit('configuration: unreadable table near %r' % toks[i:i + 3])
                    t[k], i = value(i + 2)
                    if toks[i] in ',;':
                        i += 1
                return t, i + 1
            ex, depth = [], 0
            while i < len(toks) and not (depth == 0 and toks[i] in ',;}') and not (depth == 0 and ex and i + 1 < len(toks) and toks[i + 1] == '=' and toks[i].isidentifier()):
                if depth == 0 and ex and toks[i] in ('return', 'include'):
                    break
                depth += (toks[i] == '(') - (toks[i] == ')')
                ex.append(toks[i])
                i += 1
            return ' '.join(ex), i
        while i < len(toks):
            if i + 1 < len(toks) and toks[i + 1] == '=':
                n = toks[i]
                v, i = value(i + 2)
                cur, path = env, n.split('.')
                for q in path[:-1]:
                    cur = cur.setdefault(q, {})
                cur[path[-1]] = env[v] if isinstance(v, str) and v in env else v
            else:
                i += 1
    res = lambda t: {k: res(v) for k, v in t.items()} if isinstance(t, dict) else res(env[t]) if t in env else t
    return {k: res(v) for k, v in env.items()}


def asked(s):
    """[(path of keys, kind, has to be there, options function)]: what the function asks of its dictionary."""
    out = []

    def path(t):
        t = strip(t)
        if t.op in ('call', 'callx') and str(t.a[0]).endswith('::GetDictionary'):
            xs = [x for x in t.a[1:] if isinstance(x, Term)]
            o = path(xs[0])
            k = [x for x in xs if show(x).startswith('"')]
            return None if o is None or not k else o + (show(k[0]).strip('"'),)
        return () if t.op == 'param' else None
    for e in s.effects:
        if e.kind != 'call':
            continue
        n = str(e.name).split('::')[-1]
        if 'LuaParameterDictionary::Get' in str(e.name) and isinstance(e.obj, Term) and e.args:
            o = path(e.obj)
            if o is not None and show(strip(e.args[0])).startswith('"'):
                out.append((o + (show(strip(e.args[0])).strip('"'),), n, not any('HasKey' in show(g) for g in e.guard), None))
        elif any(n == x.split('::')[-1] for x in NAMES) and e.args:
            o = path(strip(e.args[-1]))
            if o is not None:
                out.append((o, 'GetDictionary', True, n))
    return out


def shipped(ctx):
    """The configuration files that come with the library have every key the options functions ask for, of that kind, and no other."""
    d = os.path.join(frontend.REPO, 'configuration_files')
    names = sorted((f for f in os.listdir(d) if f.endswith('.lua')), key=lambda f: (f.startswith('map_builder') + 2 * (f == 'trajectory_builder.lua'), f))
    env = lua_tables([open(os.path.join(d, f)).read() for f in names])
    ask = {}
    for u, fns in TABLE.items():
        p = ctx.program(u)
        for n in fns:
            for f in p.overloads(n):
                ask[n.split('::')[-1]] = asked(ctx.summarise(p, f, opaque=[o for o in OPAQUE if '::)' + n.split('::')[-1] + '$' not in o]))

    def visit(fn, table, at):
        if fn not in ask:
            return       # built outside this configuration (CreateCeresScanMatcherOptions3D)
        known = {}
        for path, kind, must, sub in ask[fn]:
            t, ok = table, True
            for k in path[:-1]:
                t = t.get(k) if isinstance(t, dict) else None
                ok = ok and isinstance(t, dict)
            v = t.get(path[-1]) if ok and path else table if ok else None
            w = at + ''.join('.' + k for k in path)
            if v is None:
                if must and sub is None:
                    ctx.ob('shipped-configuration-complete', w, False, 'asked for by %s but not in the shipped configuration' % fn)
                if not must:
                    known.setdefault(path[:-1], set()).add(path[-1])
                continue
            good = {'GetDictionary': isinstance(v, dict), 'GetBool': v in ('true', 'false'), 'GetString': isinstance(v, str) and v.startswith('"')}.get(kind, isinstance(v, str) and v not in ('true', 'false') and not v.startswith('"'))
            if kind in ('GetInt', 'GetNonNegativeInt') and isinstance(v, str):
                good = good and (not re.fullmatch(r'[0-9.eE+-]+', v) or float(v) == int(float(v)))
            if path:
                known.setdefault(path[:-1], set()).add(path[-1])
            if sub is None:
                ctx.ob('shipped-configuration-complete', w, good, '%s asks for it with %s but it is %r' % (fn, kind, v))
            else:
                visit(sub, v, w)
        for path, ks in known.items():
            t = table
            for k in path:
                t = t.get(k) if isinstance(t, dict) else None
            for k in t if isinstance(t, dict) else ():
                ctx.ob('shipped-configuration-complete', at + ''.join('.' + q for q in path + (k,)), k in ks, 'no options function asks for this key of the shipped configuration')
    for n, fn in (('MAP_BUILDER', 'CreateMapBuilderOptions'), ('TRAJECTORY_BUILDER', 'CreateTrajectoryBuilderOptions')):
        if ctx.ob('shipped-configuration-complete', n, isinstance(env.get(n), dict), 'not defined by the shipped configuration'):
            visit(fn, env[n], n)


def check(ctx):
    options(ctx)
    combination(ctx)
    solver(ctx)
    shipped(ctx)


main('P31', check, 'options-dataflow', 'every options function: each field of the returned options is unconditionally the dictionary value of its own key and kind, nested options come from their own sub-dictionary, optional sections are set exactly if present, unusable values are refused on every path', tus=sorted(TABLE))
