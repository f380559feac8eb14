#!/usr/bin/env python3
"""Map builder: trajectories are set up as configured; every sensor datum reaches collation, local SLAM and the pose graph."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

G = 'mapping::GlobalTrajectoryBuilder::'
C = 'mapping::CollatedTrajectoryBuilder::'
B = 'mapping::MapBuilder::'
L, PG, ID = 'this.local_trajectory_builder_', 'this.pose_graph_', 'this.trajectory_id_'
BUILDER = ('LocalTrajectoryBuilder2D', 'LocalTrajectoryBuilder3D')


def written(e):
    return e.kind != 'pass' and isinstance(e.obj, Term) and root_path(target(e.obj))[0] is RESULT


def kind(f):
    return f['T'][f['params'][-1]['t']]


def of_type(p, name, t):
    return [f for f in p.fns(name) if t in kind(f)]


def to_graph(ctx):
    p = ctx.program('mapping/internal/global_trajectory_builder.cc')
    op = ['AddRangeData', 'AddImuData', 'AddOdometryData', 'AddNode', 'AddLandmarkData', 'AddFixedFramePoseData', 'IsSimilar', 'IsValid', 'AddToPoseGraph']
    fs = of_type(p, G + 'AddSensorData', 'TimedPointCloudData')
    ctx.ob('scan-result-becomes-a-node', G + 'AddSensorData', len(fs) == 2, 'expected a scan handler for 2D and 3D, found %d' % len(fs))
    for f in fs:
        s = ctx.summarise(p, f, opaque=op)
        m = L + '.AddRangeData(sensor_id, timed_point_cloud_data)'
        i = m + '.insertion_result'
        node = '{g}.AddNode({i}.constant_data, {d}, {i}.insertion_submaps)'.format(g=PG, i=i, d=ID)
        done = '%s != null' % m
        ins = '%s && %s != null' % (done, i)
        r = copy.copy(s)
        r.effects = [e for e in s.effects if not (e.kind == 'assert' and any(x.op in ('call', 'callx') and str(x.a[0]).endswith('AddNode') for x in subterms(e.val)))]
        ctx.refuses('scan-needs-local-slam', r, '%s != null' % L, 'scans are accepted without local SLAM')
        ctx.spec_on('scan-result-becomes-a-node', s, [
            E('call', L, name='AddRangeData', args=['sensor_id', 'timed_point_cloud_data'], guard='true', each=[], tag='scan'),
            E('call', PG, name='AddNode', args=[i + '.constant_data', ID, i + '.insertion_submaps'], guard=ins, each=[], tag='node'),
            ], rel=calls('AddRangeData', 'AddNode'), order=['scan<node'])
        cb = 'this.local_slam_result_callback_'
        made = [x for e in s.effects if e.kind == 'invoke' and len(e.args) == 5 for x in subterms(e.args[4]) if x.op == 'obj']
        t = renamed(s, {'inserted': made[0]}) if made else s
        args = [ID, m + '.time', m + '.local_pose', m + '.range_data_in_local']
        ctx.match('result-reported', t, of_kind('invoke'), [
            E('invoke', cb, args=args + ['inserted'], guard='%s && %s != null' % (ins, cb)),
            E('invoke', cb, args=args + ['null'], guard='%s && %s == null && %s != null' % (done, i, cb))])
        ctx.match('result-reported', t, lambda e: e.kind in ('write', 'append', 'mutate') and show(strip(e.obj)).startswith('inserted'), [
            E('write', 'inserted.node_id', node, guard=ins), E('write', 'inserted.constant_data', i + '.constant_data', guard=ins), E('write', 'inserted.insertion_submaps', i + '.insertion_submaps', guard=ins)])
    H = lambda t: [(f, ctx.summarise(p, f, opaque=op)) for f in of_type(p, G + 'AddSensorData', t)]
    n = 0
    for f, s in H('ImuData'):
        n += 1
        ctx.match('imu-data-used', s, of_kind('call', 'write', 'append', 'mutate'), [E('call', L, name='AddImuData', args=['imu_data'], guard=L + ' != null'), E('call', PG, name='AddImuData', args=[ID, 'imu_data'], guard='true')])
    for f, s in H('OdometryData'):
        n += 1
        fl = 'this.pose_graph_odometry_motion_filter_'
        ctx.refuses('invalid-poses-refused', s, 'odometry_data.pose.IsValid()', 'invalid odometry is accepted')
        sim = '%s.IsSimilar(odometry_data.time, odometry_data.pose)' % fl
        ctx.match('odometry-used', s, calls('AddOdometryData', 'IsSimilar'), [
            E('call', L, name='AddOdometryData', args=['odometry_data'], guard=L + ' != null'),
            E('call', fl, name='IsSimilar', args=['odometry_data.time', 'odometry_data.pose'], guard='%s != null' % fl),
            E('call', PG, name='AddOdometryData', args=[ID, 'odometry_data'], guard='!({f} != null && {s})'.format(f=fl, s=sim))])
    for f, s in H('FixedFramePoseData'):
        n += 1
        ctx.refuses('invalid-poses-refused', s, '!(fixed_frame_pose.pose != null) || fixed_frame_pose.pose.IsValid()', 'an invalid fixed frame pose is accepted')
        ctx.match('fixed-frame-poses-used', s, calls('AddFixedFramePoseData'), [E('call', PG, name='AddFixedFramePoseData', args=[ID, 'fixed_frame_pose'], guard='true')])
    for f, s in H('LandmarkData'):
        n += 1
        ctx.match('landmarks-used', s, calls('AddLandmarkData'), [E('call', PG, name='AddLandmarkData', args=[ID, 'landmark_data'], guard='true')])
    ctx.ob('every-sensor-handled', G + 'AddSensorData', n == 8, 'expected handlers of 4 more sensors for 2D and 3D, found %d' % n)
    for f in p.fns(G + 'AddLocalSlamResultData'):
        s = ctx.summarise(p, f, opaque=op)
        ctx.refuses('results-from-elsewhere', s, '%s == null' % L, 'results from elsewhere are mixed with local SLAM')
        ctx.match('results-from-elsewhere', s, calls('AddToPoseGraph'), [E('call', 'local_slam_result_data', name='AddToPoseGraph', args=[ID, PG], guard='true')])
    for f in p.fns(G + 'GlobalTrajectoryBuilder'):
        ctx.final('set-up-as-given', p, None, {ID: 'trajectory_id', PG: 'pose_graph', L: 'local_trajectory_builder', 'this.local_slam_result_callback_': 'local_slam_result_callback',
                                               'this.pose_graph_odometry_motion_filter_': 'pose_graph_odometry_motion_filter'}, s=ctx.summarise(p, f))
    for d in '23':
        s = constructed(ctx.summarise(p, p.fn('mapping::CreateGlobalTrajectoryBuilder%sD' % d), opaque=['GlobalTrajectoryBuilder::GlobalTrajectoryBuilder']))
        ctx.match('set-up-as-given', s, of_kind('return'), [E('return', val='GlobalTrajectoryBuilder(local_trajectory_builder, trajectory_id, pose_graph, local_slam_result_callback, pose_graph_odometry_motion_filter)', guard='true')])


def collation(ctx):
    p = ctx.program('mapping/internal/collated_trajectory_builder.cc')
    op = ['AddTrajectory$', 'CollatorInterface::AddSensorData', 'MakeDispatchable', 'Pulse', 'HandleCollatedSensorData', 'FromSeconds', 'AddToTrajectoryBuilder']
    W, SC = 'this.wrapped_trajectory_builder_', 'this.sensor_collator_'
    n = 0
    for f in p.fns(C + 'AddSensorData'):
        T = kind(f)
        d = f['params'][-1]['n']
        c = 'this.collate_fixed_frame_' if 'FixedFrame' in T else 'this.collate_landmarks_' if 'Landmark' in T else 'true'
        n += 1
        es = [E('call', SC, name='AddSensorData', args=[ID, 'MakeDispatchable(sensor_id, %s)' % d], guard=c)]
        if c != 'true':
            es.append(E('call', W, name='AddSensorData', args=['sensor_id', d], guard='!' + c))
        ctx.match('data-collated-or-passed-on', ctx.summarise(p, f, opaque=op), calls('AddSensorData'), es)
    ctx.ob('data-collated-or-passed-on', C + 'AddSensorData', n == 5, 'expected handlers of 5 sensors, found %d' % n)
    ctx.match('data-collated-or-passed-on', ctx.summarise(p, p.fn(C + 'AddLocalSlamResultData'), opaque=op), calls('AddSensorData'), [E('call', SC, name='AddSensorData', args=[ID, 'local_slam_result_data'], guard='true')])
    s = ctx.summarise(p, p.fn(C + 'HandleCollatedSensorData'), opaque=op)
    ctx.match('collated-data-delivered', s, calls('AddToTrajectoryBuilder'), [E('call', 'data', name='AddToTrajectoryBuilder', args=[W], guard='true', each=[])])
    s = ctx.summarise(p, p.fn(C + 'CollatedTrajectoryBuilder'), opaque=op)
    ctx.match('set-up-as-given', s, lambda e: e.kind == 'write' and show(strip(e.obj)) in (SC, ID, W, 'this.collate_landmarks_', 'this.collate_fixed_frame_'), [
        E('write', x, y, guard='true') for x, y in ((SC, 'sensor_collator'), ('this.collate_landmarks_', 'trajectory_options.collate_landmarks'), ('this.collate_fixed_frame_', 'trajectory_options.collate_fixed_frame'), (ID, 'trajectory_id'), (W, 'wrapped_trajectory_builder'))])
    ctx.match('collator-waits-for-collated-sensors', s, calls('AddTrajectory'), [E('call', SC, name='AddTrajectory', args=['trajectory_id', '$ids', '_'], guard='true', each=[])])
    for e in s.effects:
        if calls('AddTrajectory')(e):
            t = passed(s, e, 1)
            ctx.match('collator-waits-for-collated-sensors', t, written, [
                E('append', 'result', '$i.id', each=['expected_sensor_ids'], guard='!($i.type == LANDMARK && !trajectory_options.collate_landmarks) && !($i.type == FIXED_FRAME_POSE && !trajectory_options.collate_fixed_frame)')])
            ctx.owns('collated-data-delivered', s, e.args[2])
            ctx.match('collated-data-delivered', ctx.closure(s, e.args[2]), of_kind('call', 'write', 'append', 'mutate'), [E('call', 'this', name='HandleCollatedSensorData', args=['sensor_id', 'data'], guard='true')])
    # wrapping data and unwrapping it again
    n = 0
    for f in p.fns('sensor::MakeDispatchable'):
        d = f['params'][1]['n']
        n += 1
        ctx.match('wrapped-data-arrives', constructed(ctx.summarise(p, f, opaque=['Dispatchable::Dispatchable'])), of_kind('return'), [E('return', val='Dispatchable(sensor_id, %s)' % d, guard='true')])
    ctx.ob('wrapped-data-arrives', 'sensor::MakeDispatchable', n == 5, 'expected 5 kinds of data, found %d' % n)
    for f in p.fns('sensor::Dispatchable::Dispatchable'):
        if len(f['params']) == 2:
            ctx.final('wrapped-data-arrives', p, None, {'this.sensor_id_': 'sensor_id', 'this.data_': 'data'}, s=ctx.summarise(p, f))
    for f in p.fns('sensor::Dispatchable::AddToTrajectoryBuilder'):
        ctx.match('wrapped-data-arrives', ctx.summarise(p, f, opaque=['AddSensorData']), of_kind('call', 'write', 'append', 'mutate'), [E('call', 'trajectory_builder', name='AddSensorData', args=['this.sensor_id_', 'this.data_'], guard='true')])
    for f in p.fns('sensor::Dispatchable::GetTime'):
        ctx.match('wrapped-data-arrives', ctx.summarise(p, f), of_kind('return'), [E('return', val='this.data_.time', guard='true')])


def results(ctx):
    for d in '23':
        p = ctx.program('mapping/internal/%sd/local_slam_result_%sd.cc' % (d, d))
        n = 'mapping::LocalSlamResult%sD::' % d
        s = constructed(ctx.summarise(p, p.fn(n + 'AddToTrajectoryBuilder'), opaque=['AddLocalSlamResultData', 'LocalSlamResult.D::LocalSlamResult']))
        ctx.match('results-from-elsewhere', s, calls('AddLocalSlamResultData'), [E('call', 'trajectory_builder', name='AddLocalSlamResultData', args=['LocalSlamResult%sD(this)' % d], guard='true')])
        s = ctx.summarise(p, p.fn(n + 'AddToPoseGraph'), opaque=['UpdateSubmap', 'AddNode', 'mapping::FromProto'])
        data = 'this.local_slam_result_data_'
        ctx.refuses('results-from-elsewhere', s, '1 <= |%s.submaps| && has_(%s.submaps[0].submap_%sd)' % (data, data, d), 'a result without submap is accepted')
        u = 'this.submap_controller_.UpdateSubmap($i)'
        for e in s.effects:
            if calls('AddNode')(e):
                t = constructed(renamed(s, {'chosen': target(e.args[2])}), 'Data')
                ctx.match('results-from-elsewhere', t, lambda x: x.kind in ('append', 'mutate', 'write') and show(strip(x.obj)) == 'chosen', [E('append', 'chosen', u, each=[data + '.submaps'], guard=u + ' != null' if d == '2' else 'true')])
                ctx.match('results-from-elsewhere', t, calls('AddNode'), [E('call', 'pose_graph', name='AddNode', args=['Data(FromProto(%s.node_data))' % data, 'trajectory_id', 'chosen'], guard='|chosen| != 0' if d == '2' else 'true', each=[])])
        ctx.ob('results-from-elsewhere', n + 'AddToPoseGraph', any(calls('AddNode')(e) for e in s.effects), 'no node is added')


def builder(ctx):
    p = ctx.program('mapping/map_builder.cc')
    op = ['SelectRangeSensorIds', 'MaybeAddPure', 'CreateGlobal', 'SetInitialTrajectoryPose', 'ToProto$', 'FromUniversal', 'MotionFilter::MotionFilter', 'CollatedTrajectoryBuilder::Coll', 'LocalTrajectoryBuilder.D::Local', 'PoseGraph.D::PoseGraph',
          'OptimizationProblem.D::Opt', 'Collator::', 'ThreadPool::ThreadPool', 'PureLocalizationTrimmer::Pure', 'AddTrimmer', 'GetSubmapData', 'ToResponseProto', 'FinishTrajectory$', 'MapBuilder::MapBuilder$']
    s = constructed(ctx.summarise(p, p.fn(B + 'MapBuilder'), opaque=op[:-1]), nested=True)
    o = 'options.use_trajectory_builder_%sd'
    ctx.trial(lambda alt: ctx.refuses('set-up-as-configured', s, alt('%s != %s' % (o % 2, o % 3)), 'neither or both of 2D and 3D are accepted') or True,
              lambda x: '({a} && !{b}) || (!{a} && {b})'.format(a=o % 2, b=o % 3))
    g = 'options.pose_graph_options'
    ctx.match('set-up-as-configured', s, lambda e: e.kind == 'write' and show(strip(e.obj)) == 'this.options_', [E('write', 'this.options_', 'options', guard='true')])
    s = renamed(s, {'options': F(mk('this'), 'options_')})
    ctx.match('set-up-as-configured', s, lambda e: e.kind == 'write' and show(strip(e.obj)) in ('this.pose_graph_', 'this.sensor_collator_', 'this.thread_pool_') and strip(e.val).op != 'null', [
        E('write', 'this.thread_pool_', 'ThreadPool(options.num_background_threads)', guard='true'),
        E('write', PG, 'PoseGraph2D({g}, OptimizationProblem2D({g}.optimization_problem_options), _)'.format(g=g), guard=o % 2),
        E('write', PG, 'PoseGraph3D({g}, OptimizationProblem3D({g}.optimization_problem_options), _)'.format(g=g), guard=o % 3),
        E('write', 'this.sensor_collator_', 'TrajectoryCollator()', guard='options.collate_by_trajectory'),
        E('write', 'this.sensor_collator_', 'Collator()', guard='!options.collate_by_trajectory')])
    # a new trajectory
    f = p.fn(B + 'AddTrajectoryBuilder')
    raw = ctx.summarise(p, f, opaque=op)
    s = constructed(raw, nested=True)
    T, O, new = 'trajectory_options', 'this.options_.use_trajectory_builder_3d', '|this.trajectory_builders_|'
    es = []
    for d in '23':
        on = O if d == '3' else '!' + O
        for l in (1, 0):
            for m in (1, 0):
                lb = 'LocalTrajectoryBuilder%sD(%s.trajectory_builder_%sd_options, SelectRangeSensorIds(expected_sensor_ids))' % (d, T, d) if l else 'null'
                mf = 'MotionFilter(%s.pose_graph_odometry_motion_filter)' % T if m else 'null'
                gd = '%s && %shas_(%s.trajectory_builder_%sd_options) && %shas_(%s.pose_graph_odometry_motion_filter)' % (on, '' if l else '!', T, d, '' if m else '!', T)
                gb = 'CreateGlobalTrajectoryBuilder%sD(%s, %s, %s, local_slam_result_callback, %s)' % (d, lb, new, PG, mf)
                es.append(E('append', 'this.trajectory_builders_', 'CollatedTrajectoryBuilder(%s, this.sensor_collator_, %s, expected_sensor_ids, %s)' % (T, new, gb), guard=gd, each=[]))
    ctx.match('trajectory-set-up-as-configured', s, lambda e: e.kind in ('append', 'write', 'mutate') and show(strip(e.obj)) == 'this.trajectory_builders_', es)
    ip = T + '.initial_trajectory_pose'
    ctx.match('trajectory-set-up-as-configured', s, calls('MaybeAddPureLocalizationTrimmer', 'SetInitialTrajectoryPose'), [
        E('call', name='MaybeAddPureLocalizationTrimmer', args=[new, T, PG], guard='true'),
        E('call', PG, name='SetInitialTrajectoryPose', args=[new, ip + '.to_trajectory_id', 'ToRigid3(%s.relative_pose)' % ip, 'FromUniversal(%s.timestamp)' % ip], guard='has_(%s)' % ip)])
    a = [e for e in raw.effects if e.kind == 'append' and show(strip(e.obj)) == 'this.all_trajectory_builder_options_']
    ctx.match('trajectory-options-kept', raw, lambda e: e in a, [E('append', 'this.all_trajectory_builder_options_', '_', guard='true', each=[])])
    for e in a:
        c = copy.copy(e)
        c.args = [e.val]
        ad = mk('last', target(e.obj))
        after = renamed(raw, {'kept': ad})
        if any(x.kind in ('write', 'append') and x.seq > e.seq and root_path(target(x.obj))[0] is not root_path(target(e.obj))[0] and show(strip(x.obj)).startswith('kept') for x in after.effects):
            # filled after it was added
            made = {strip(x.val) for x in after.effects if x.kind == 'append' and show(strip(x.obj)) == 'kept.sensor_id'}
            after = renamed(after, {'entry': next(iter(made))}) if len(made) == 1 else after
            ctx.match('trajectory-options-kept', after, lambda x: x.kind in ('write', 'append', 'mutate') and show(strip(x.obj)).split('.')[0] in ('kept', 'entry'), [
                E('write', 'kept.trajectory_builder_options', T, guard='true', each=[]), E('append', 'kept.sensor_id', 'entry', guard='true', each=['expected_sensor_ids']),
                E('write', 'entry', 'ToProto($i)', guard='true', each=['expected_sensor_ids'])])
            continue
        o = E('write', 'result.trajectory_builder_options', T, guard='true')
        x = dict(each=['expected_sensor_ids'], guard='true')
        ctx.trial(lambda alt: ctx.match('trajectory-options-kept', passed(raw, c, 0), written, alt([E('append', 'result.sensor_id', '_', **x), E('write', 'result.sensor_id[_]', 'ToProto($i)', **x), o])) or True,
                  lambda _: [E('append', 'result.sensor_id', 'ToProto($i)', **x), o])
    ctx.match('trajectory-id-is-new', s, of_kind('return'), [E('return', val=new, guard='true')])
    f = p.fn('mapping::SelectRangeSensorIds')
    ctx.result('trajectory-set-up-as-configured', p, f['sqn'], {'': E('append', val='$i.id', guard='$i.type == RANGE', each=['expected_sensor_ids'])})
    s = constructed(ctx.summarise(p, p.fn('mapping::MaybeAddPureLocalizationTrimmer'), opaque=op))
    ctx.match('trajectory-set-up-as-configured', s, calls('AddTrimmer'), [
        E('call', 'pose_graph', name='AddTrimmer', args=['PureLocalizationTrimmer(trajectory_id, 3)'], guard=T + '.pure_localization'),
        E('call', 'pose_graph', name='AddTrimmer', args=['PureLocalizationTrimmer(trajectory_id, %s.pure_localization_trimmer.max_submaps_to_keep)' % T], guard='!{t}.pure_localization && has_({t}.pure_localization_trimmer)'.format(t=T))])
    s = ctx.summarise(p, p.fn(B + 'FinishTrajectory'), opaque=['FinishTrajectory$'])
    ctx.spec_on('finishing-flushes-then-finishes', s, [E('call', 'this.sensor_collator_', name='FinishTrajectory', args=['trajectory_id'], guard='true', tag='flush'),
                                                       E('call', PG, name='FinishTrajectory', args=['trajectory_id'], guard='true', tag='finish')], rel=calls('FinishTrajectory'), order=['flush<finish'])
    s = ctx.summarise(p, p.fn(B + 'SubmapToProto'), opaque=op)
    sd = PG + '.GetSubmapData(submap_id)'
    known = '0 <= submap_id.trajectory_id && submap_id.trajectory_id < ' + new
    ctx.match('submap-query-answered-or-refused', s, calls('ToResponseProto'), [E('call', sd + '.submap', name='ToResponseProto', args=[sd + '.pose', 'response'], guard='%s && %s.submap != null' % (known, sd))])
    r = [e for e in s.effects if e.kind == 'return']
    for e in r:
        empty = strip(e.val)
        ok = [x for x in s.effects if calls('ToResponseProto')(x)]
        if show(empty) == '""' or show(empty).endswith("basic_string()"):
            ctx.ob('submap-query-answered-or-refused', e.where(), any(entails(list(e.facts), f) for x in ok for f in [and_(*x.guard)]) if ok else False, 'a query that was not answered returns no error')
        else:
            ctx.ob('submap-query-answered-or-refused', e.where(), empty.op == 'op' and empty.a[0] == 'cat' or empty.op in ('s', 'str'), 'a refused query returns no error')
    s = constructed(ctx.summarise(p, p.fn('mapping::CreateMapBuilder'), opaque=op))
    ctx.match('set-up-as-configured', s, of_kind('return'), [E('return', val='MapBuilder(options)', guard='true')])
    ctx.value('lookups', p, B + 'num_trajectory_builders', new)
    ctx.value('lookups', p, B + 'GetTrajectoryBuilder', 'this.trajectory_builders_[trajectory_id]')
    ctx.value('lookups', p, B + 'pose_graph', PG)
    ctx.value('lookups', p, B + 'GetAllTrajectoryBuilderOptions', 'this.all_trajectory_builder_options_')


def check(ctx):
    to_graph(ctx)
    collation(ctx)
    results(ctx)
    builder(ctx)


if __name__ == '__main__':
    main('P30', check, 'effect summaries from the map builder through collation and dispatch to local SLAM and the pose graph',
         'which component every datum reaches, under which conditions, and how every trajectory is set up, for every configuration', tus=['mapping/internal/global_trajectory_builder.cc', 'mapping/internal/collated_trajectory_builder.cc', 'mapping/map_builder.cc', 'mapping/internal/2d/local_slam_result_2d.cc', 'mapping/internal/3d/local_slam_result_3d.cc'])
