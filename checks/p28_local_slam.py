#!/usr/bin/env python3
"""Local SLAM: what happens to one batch of range data between the sensors and the pose graph."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *
import copy

OPQ = ['InitializeExtrapolator', 'PoseExtrapolator', 'RangeDataCollator', 'AddAccumulatedRangeData', 'TransformToGravityAlignedFrameAndFilter', '::ScanMatch$', 'InsertIntoSubmap',
       'ToRangefinderPoint', 'FromSeconds', 'ToSeconds', 'MotionFilter', 'VoxelFilter', 'TransformRangeData', 'CropRangeData', 'TransformPointCloud', 'ActiveSubmaps', 'ComputeHistogram', 'Submap3D::', 'Submap2D::', 'Submap::']
L2, L3 = 'mapping::LocalTrajectoryBuilder2D::', 'mapping::LocalTrajectoryBuilder3D::'
SYNC = 'this.range_data_collator_.AddRangeData(sensor_id, unsynchronized_data)'
FIRST = '({s}.time + FromSeconds({s}.ranges[0].point_time.time))'.format(s=SYNC)
ON = '|{s}.ranges| != 0 && this.extrapolator_ != null && this.extrapolator_.GetLastPoseTime() <= {f}'.format(s=SYNC, f=FIRST)
FULL = ON + ' && this.options_.num_accumulated_range_data <= this.num_accumulated_ + 1'


def metrics(e):
    """Effects of measuring and logging."""
    t = show(e.obj) if e.obj is not None else ''
    return 'Metric' in t or 'kLocalSlam' in t or 'wall_time' in t or 'thread_cpu' in t


def local2(ctx, p):
    s = ctx.summarise(p, p.fn(L2 + 'AddRangeData'), opaque=OPQ)
    pose = '$poses[$i]'
    hit = '($poses[$i] @ ToRangefinderPoint(%s.ranges[$i].point_time).position)' % SYNC
    org = '($poses[$i] @ %s.origins[%s.ranges[$i].origin_index])' % (SYNC, SYNC)
    d = '(%s - %s)' % (hit, org)
    n = '%s.norm()' % d
    each = ['..|%s.ranges|' % SYNC]
    ctx.spec_on('scan-accumulated', s, [
        E('append', '$poses', 'this.extrapolator_.ExtrapolatePose(max(this.extrapolator_.GetLastExtrapolatedTime(), ({s}.time + FromSeconds({s}.ranges[$i].point_time.time)))).cast()'.format(s=SYNC), guard=ON, each=each),
        E('write', 'this.accumulated_range_data_', '_', guard='this.num_accumulated_ == 0 && ' + ON, tag='reset'),
        E('call', 'this.accumulated_range_data_.returns', name='PointCloud::push_back', args=['{position=%s}' % hit],
          guard=ON + ' && this.options_.min_range <= {n} && {n} <= this.options_.max_range'.format(n=n), each=each, tag='r'),
        E('call', 'this.accumulated_range_data_.misses', name='PointCloud::push_back', args=['{position=%s + this.options_.missing_data_ray_length / %s * %s}' % (org, n, d)],
          guard=ON + ' && this.options_.min_range <= {n} && this.options_.max_range < {n}'.format(n=n), each=each, tag='m'),
    ], rel=any_of(of_kind('append'), calls('PointCloud::push_back'), lambda e: e.kind == 'write' and show(strip(e.obj)) == 'this.accumulated_range_data_'), order=['reset<r', 'reset<m'])
    ga = 'Rigid3::Rotation(this.extrapolator_.EstimateGravityOrientation(%s.time))' % SYNC
    more = ON + ' && this.num_accumulated_ + 1 < this.options_.num_accumulated_range_data'
    one = E('write', 'this.num_accumulated_', 'this.num_accumulated_ + 1', guard=ON, tag='count')
    zero = E('write', 'this.num_accumulated_', '0', guard=FULL)
    other = [zero, E('write', 'this.num_accumulated_', 'this.num_accumulated_ + 1', guard=more)]
    ctx.trial(lambda alt: ctx.spec_on('scan-complete', s, alt([one, zero]), rel=lambda e: e.kind == 'write' and show(strip(e.obj)) == 'this.num_accumulated_') or True, lambda x: other)
    ctx.spec_on('scan-complete', s, [
        E('write', 'this.accumulated_range_data_.origin', 'last($poses).translation()', guard=FULL, tag='o'),
        E('call', 'this', name='AddAccumulatedRangeData', args=[SYNC + '.time', 'this.TransformToGravityAlignedFrameAndFilter(%s.cast() @ last($poses).inverse(), this.accumulated_range_data_)' % ga, ga, None],
          guard=FULL, tag='add')], rel=any_of(calls('AddAccumulatedRangeData'), lambda e: e.kind == 'write' and show(strip(e.obj)) == 'this.accumulated_range_data_.origin'), order=['o<add'])
    added(ctx, s)
    ctx.result('scan-cropped-and-filtered', p, L2 + 'TransformToGravityAlignedFrameAndFilter', {k: v.format(
        c='CropRangeData(TransformRangeData(range_data, transform_to_gravity_aligned_frame), this.options_.min_z, this.options_.max_z)') for k, v in
        {'origin': '{c}.origin', 'returns': 'VoxelFilter({c}.returns, this.options_.voxel_filter_size)', 'misses': 'VoxelFilter({c}.misses, this.options_.voxel_filter_size)'}.items()}, opaque=OPQ)
    s = ctx.summarise(p, p.fn(L2 + 'AddAccumulatedRangeData'), opaque=OPQ)
    rd = 'gravity_aligned_range_data'
    pc = 'AdaptiveVoxelFilter(%s.returns, this.options_.adaptive_voxel_filter_options)' % rd
    some = '!%s.returns.empty() && !%s.empty()' % (rd, pc)
    m = 'this.ScanMatch(time, Project2D(this.extrapolator_.ExtrapolatePose(time) @ gravity_alignment.inverse()), %s)' % pc
    ok = some + ' && %s != null' % m
    pose = '(Embed3D(%s) @ gravity_alignment)' % m
    local = 'TransformRangeData(%s, Embed3D(%s.cast()))' % (rd, m)
    ins = 'this.InsertIntoSubmap(time, %s, %s, %s, gravity_alignment.rotation())' % (local, pc, pose)
    ctx.spec_on('scan-matched', s, [
        E('call', 'this.extrapolator_', name='AddPose', args=['time', pose], guard=ok, tag='pose'),
        E('call', 'this', name='InsertIntoSubmap', args=['time', local, pc, pose, 'gravity_alignment.rotation()'], guard=ok, tag='insert')],
        rel=calls('AddPose', 'InsertIntoSubmap'))
    reported(ctx, s, ok, {'time': 'time', 'local_pose': pose, 'range_data_in_local': local, 'insertion_result': ins})
    inserted(ctx, p, L2, {'time': 'time', 'gravity_alignment': 'gravity_alignment', 'filtered_gravity_aligned_point_cloud': 'filtered_gravity_aligned_point_cloud', 'local_pose': 'pose_estimate'},
             'this.active_submaps_.InsertRangeData(range_data_in_local)')
    s = ctx.summarise(p, p.fn(L2 + 'ScanMatch'), opaque=OPQ)
    g = 'this.active_submaps_.submaps()[0].grid()'
    match(ctx, s, ['filtered_gravity_aligned_point_cloud'], 'pose_prediction', 'pose_prediction', 'pose_prediction.translation()', [g], ['filtered_gravity_aligned_point_cloud', g, '$r', None])
    cs = [e for e in s.effects if calls('Match')(e) and 'Ceres' in e.name]
    predicted(ctx, s, 'Rigid2')
    rs = [e for e in s.effects if e.kind == 'return' and not any('== 0' in show(canon(g)) and show(canon(g))[0] != '!' for g in e.guard)]
    ctx.ob('match-returned', s.fn['sqn'], bool(rs) and len(cs) == 1 and all(strip(e.val) is strip(cs[0].args[4]) for e in rs), 'not the matched pose is returned')
    extrapolator2(ctx, p)


def nonnull(e):
    return e.kind == 'return' and strip(e.val).op != 'null'


def added(ctx, s):
    """Whatever the completed scan yields is returned; nothing else is."""
    w = s.fn['sqn']
    rs = [v for e in s.effects if e.kind == 'return' for v in views(e) if strip(v.val).op != 'null']
    ctx.ob('result-of-the-scan-returned', w, bool(rs) and all(strip(v.val).op in ('call', 'callx') and str(strip(v.val).a[0]).endswith('AddAccumulatedRangeData') for v in rs), 'returns %s' % [show(v.val)[:80] for v in rs])


def reported(ctx, s, ok, fields):
    t = copy.copy(s)
    t.effects = [e for e in result_effects(s) if not (e.kind == 'write' and strip(e.val).op == 'null')]
    t.params = list(s.params) + [RESULT]
    ctx.match('match-reported', t, lambda e: True, [E('write', 'result.' + k, v, guard=ok, each=[]) for k, v in fields.items()], where=s.fn['sqn'])


def inserted(ctx, p, L, fields, sub):
    s = ctx.summarise(p, p.fn(L + 'InsertIntoSubmap'), opaque=OPQ)
    new = '!this.motion_filter_.IsSimilar(time, pose_estimate)'
    ctx.spec_on('moved-scan-becomes-a-node', s, [E('call', 'this.motion_filter_', name='IsSimilar', args=['time', 'pose_estimate'], guard='true'),
                                                 E('call', 'this.active_submaps_', name=sub.split('(')[0].split('.')[-1], guard=new)], rel=calls('IsSimilar', 'InsertData', 'InsertRangeData'))
    t = copy.copy(s)
    t.effects = [e for e in result_effects(s) if not (e.kind == 'write' and strip(e.val).op == 'null')]
    t.params = list(s.params) + [RESULT]
    exp = {'constant_data.' + k: v for k, v in fields.items()}
    exp['insertion_submaps'] = sub
    ctx.match('moved-scan-becomes-a-node', t, lambda e: True, [E('write', 'result.' + k, v, guard=new, each=[]) for k, v in exp.items()], where=s.fn['sqn'])


def match(ctx, s, clouds, start, refined, target_, grids, out):
    """The scan is matched against the oldest active submap, from the prediction or from its refinement."""
    w = s.fn['sqn']
    some = '|this.active_submaps_.submaps()| != 0'
    ctx.match('matched-from-the-prediction', s, calls('Match'), [
        E('call', 'this.real_time_correlative_scan_matcher_', name='Match', args=[start, clouds[0], grids[0], refined], guard=some + ' && this.options_.use_online_correlative_scan_matching', optional=False),
        E('call', 'this.ceres_scan_matcher_', name='Match', args=[target_, refined] + out, guard=some)])
    cs = [e for e in s.effects if calls('Match')(e)]
    ctx.ob('refinement-is-used', w, len(cs) == 2 and target(cs[0].args[3]) is target(cs[1].args[1]), 'the refined estimate is not where the final matching starts')


def extrapolator2(ctx, p):
    s = ctx.summarise(p, p.fn(L2 + 'InitializeExtrapolator'), opaque=['PoseExtrapolator', 'FromSeconds'])
    fresh = 'this.extrapolator_ == null'
    o = 'this.options_.pose_extrapolator_options.constant_velocity.'
    ctx.match('extrapolator-started-once', constructed(s, 'PoseExtrapolator'), of_kind('write'), [
        E('write', 'this.extrapolator_', 'PoseExtrapolator(FromSeconds(%spose_queue_duration), %simu_gravity_time_constant)' % (o, o), guard=fresh)])
    ctx.match('extrapolator-started-once', s, calls('AddPose'), [E('call', name='AddPose', args=['time', 'Rigid3::Identity()'], guard=fresh)])
    s = ctx.summarise(p, p.fn(L2 + 'AddImuData'), opaque=OPQ)
    ctx.refuses('imu-data-reaches-the-extrapolator', s, 'this.options_.use_imu_data', 'IMU data is accepted although none is expected')
    ctx.spec_on('imu-data-reaches-the-extrapolator', s, [E('call', 'this', name='InitializeExtrapolator', args=['imu_data.time'], guard='true', tag='i'),
                                                         E('call', 'this.extrapolator_', name='AddImuData', args=['imu_data'], guard='true', tag='a')], rel=calls('InitializeExtrapolator', 'AddImuData'), order=['i<a'])
    odometry(ctx, p, L2)
    s = ctx.summarise(p, p.fn(L2 + 'AddRangeData'), opaque=OPQ)
    ctx.match('extrapolator-started-once', s, calls('InitializeExtrapolator'), [E('call', 'this', name='InitializeExtrapolator', args=[SYNC + '.time'], guard='!this.options_.use_imu_data && |%s.ranges| != 0' % SYNC)])


def odometry(ctx, p, L):
    s = ctx.summarise(p, p.fn(L + 'AddOdometryData'), opaque=OPQ)
    ctx.match('odometry-reaches-the-extrapolator', s, calls('AddOdometryData'), [E('call', 'this.extrapolator_', name='AddOdometryData', args=['odometry_data'], guard='this.extrapolator_ != null')])


def predicted(ctx, s, cls):
    """Without submap the prediction is the result."""
    t = constructed(s, cls)
    rs = [e for e in t.effects if e.kind == 'return' and any(show(canon(g)) == '(|this.active_submaps_.mapping::ActiveSubmaps%s::submaps()| == 0)' % (cls[-1] + 'D') for g in e.guard)]
    ctx.match('prediction-without-submap', t, lambda e: e in rs, [E('return', val='%s(pose_prediction)' % cls, guard='|this.active_submaps_.submaps()| == 0')])


def motion(ctx, p):
    M = 'mapping::MotionFilter::'
    f = p.fn(M + 'IsSimilar')
    rest = ' && time - this.last_time_ <= FromSeconds(this.options_.max_time_seconds) && (pose.translation() - this.last_pose_.translation()).norm() <= this.options_.max_distance_meters ' \
           '&& GetAngle(pose.inverse() @ this.last_pose_) <= this.options_.max_angle_radians'
    op = ['FromSeconds', 'GetAngle']
    s = ctx.summarise(p, f, opaque=op)

    def run(alt):
        sim = alt('this.num_total_ + 1 > 1') + rest
        ctx.truth('motion-filter', p, M + 'IsSimilar', sim, opaque=op)
        ctx.final('motion-filter', p, None, {'this.num_total_': 'this.num_total_ + 1', 'this.last_time_': {'!(%s)' % sim: 'time', sim: 'this.last_time_'}, 'this.last_pose_': {'!(%s)' % sim: 'pose', sim: 'this.last_pose_'}}, s=s)
        return True
    ctx.trial(run, lambda x: 'this.num_total_ != 0')
    ctx.final('motion-filter', p, M + 'MotionFilter', {'this.num_total_': '0', 'this.options_': 'options'})


def local3(ctx, p):
    s = ctx.summarise(p, p.fn(L3 + 'AddRangeData'), opaque=OPQ)
    A = 'this.accumulated_point_cloud_origin_data_'
    X = 'this.extrapolator_.ExtrapolatePosesWithGravity($times)'
    wr = lambda f: (lambda e: e.kind == 'write' and show(strip(e.obj)) == f)
    ctx.spec_on('scan-accumulated', s, [
        E('mutate', A, name='clear', args=[], guard=ON + ' && this.num_accumulated_ == 0', tag='c'),
        E('append', A, '{{time={s}.time, origins={s}.origins, ranges=VoxelFilter({s}.ranges, 0.5 * this.options_.voxel_filter_size)}}'.format(s=SYNC), guard=ON, tag='a')],
        rel=lambda e: e.kind in ('append', 'mutate', 'write') and show(strip(e.obj)) == A, order=['c<a'])
    one = E('write', 'this.num_accumulated_', 'this.num_accumulated_ + 1', guard=ON)
    zero = E('write', 'this.num_accumulated_', '0', guard=FULL)
    more = E('write', 'this.num_accumulated_', 'this.num_accumulated_ + 1', guard=ON + ' && this.num_accumulated_ + 1 < this.options_.num_accumulated_range_data')
    ctx.trial(lambda alt: ctx.spec_on('scan-complete', s, alt([one, zero]), rel=wr('this.num_accumulated_')) or True, lambda x: [zero, more])
    # every point is moved by the pose at its own time
    each = [A, A + '[$i].ranges']
    base = [e for e in s.effects if calls('ExtrapolatePosesWithGravity')(e)]
    ctx.need(len(base) == 1, 'one extrapolation in ' + s.fn['sqn'])
    times = strip(base[0].args[0])
    tt = [e for e in s.effects if e.kind == 'append' and strip(e.obj) is times]
    t = '({a}[$i].time + FromSeconds({a}[$i].ranges[$j].point_time.time))'.format(a=A)
    ctx.match('points-moved-by-the-pose-at-their-time', s, lambda e: e in tt, [E('append', val='max(%s, $before)' % t, guard=FULL, each=each), E('append', val='last(%s).time' % A, guard=FULL, each=[])])
    q = ['($j + iter($i, begin(%s.previous_poses), fold(%s[$i].ranges, $j, acc(), (1 + acc()))))' % (X, A), '$poses[$j + iter($i, 0, fold(%s[$i].ranges, $j, acc(), (1 + acc())))]' % A,
         '%s.previous_poses[$j + iter($i, 0, fold(%s[$i].ranges, $j, acc(), (1 + acc())))]' % (X, A)]

    def points(alt):
        pose = alt(q[0])
        hit = '(%s @ %s[$i].ranges[$j].point_time.position)' % (pose, A)
        org = '(%s @ %s[$i].origins[%s[$i].ranges[$j].origin_index])' % (pose, A, A)
        d = '(%s - %s)' % (hit, org)
        n = '%s.norm()' % d
        near = FULL + ' && this.options_.min_range <= {n} && {n} <= this.options_.max_range'.format(n=n)
        pt = [e for e in s.effects if e.kind == 'append' and strip(e.obj) is not times and len(e.loops) == 2]
        ctx.match('points-moved-by-the-pose-at-their-time', s, lambda e: e in pt, [
            E('append', '$pts', '{position=%s}' % hit, guard=near, each=each),
            E('append', '$ints', '%s[$i].ranges[$j].intensity' % A, guard=near + ' && this.options_.use_intensities', each=each)])
        ctx.match('points-moved-by-the-pose-at-their-time', s, calls('PointCloud::push_back'), [
            E('call', '$misses', name='PointCloud::push_back', args=['{position=%s + this.options_.max_range / %s * %s}' % (org, n, d)],
              guard=FULL + ' && this.options_.min_range <= {n} && this.options_.max_range < {n}'.format(n=n), each=each)])
        return True
    ctx.trial(points, lambda x: q[1], lambda x: q[2])
    fr = '{{origin={x}.current_pose.translation().cast(), returns=VoxelFilter($returns, this.options_.voxel_filter_size), misses=VoxelFilter($misses, this.options_.voxel_filter_size)}}'.format(x=X)
    ctx.match('scan-complete', s, calls('AddAccumulatedRangeData'), [
        E('call', 'this', name='AddAccumulatedRangeData', args=['last($times)', 'TransformRangeData(%s, %s.current_pose.inverse().cast())' % (fr, X), None, X + '.current_pose', X + '.gravity_from_tracking'], guard=FULL)])
    added(ctx, s)
    clouds(ctx, s, times)
    s = ctx.summarise(p, p.fn(L3 + 'AddAccumulatedRangeData'), opaque=OPQ)
    rd = 'filtered_range_data_in_tracking'
    hi, lo = ('AdaptiveVoxelFilter(%s.returns, this.options_.%s_resolution_adaptive_voxel_filter_options)' % (rd, x) for x in ('high', 'low'))
    m = 'this.ScanMatch(pose_prediction, %s, %s)' % (lo, hi)
    ok = '!%s.returns.empty() && !%s.empty() && !%s.empty() && %s != null' % (rd, hi, lo, m)
    local = 'TransformRangeData(%s, %s.cast())' % (rd, m)
    ins = 'this.InsertIntoSubmap(time, %s, %s, %s, %s, %s, gravity_alignment)' % (local, rd, hi, lo, m)
    ctx.spec_on('scan-matched', s, [E('call', 'this.extrapolator_', name='AddPose', args=['time', m], guard=ok),
                                    E('call', 'this', name='InsertIntoSubmap', args=['time', local, rd, hi, lo, m, 'gravity_alignment'], guard=ok)], rel=calls('AddPose', 'InsertIntoSubmap'))
    reported(ctx, s, ok, {'time': 'time', 'local_pose': m, 'range_data_in_local': local, 'insertion_result': ins})
    hist = 'ComputeHistogram(TransformPointCloud(%s.returns, Rigid3::Rotation(gravity_alignment.cast())), this.options_.rotational_histogram_size)' % rd
    inserted(ctx, p, L3, {'time': 'time', 'gravity_alignment': 'gravity_alignment', 'high_resolution_point_cloud': 'high_resolution_point_cloud_in_tracking',
                          'low_resolution_point_cloud': 'low_resolution_point_cloud_in_tracking', 'rotational_scan_matcher_histogram': hist, 'local_pose': 'pose_estimate'},
             'this.active_submaps_.InsertData(filtered_range_data_in_local, pose_estimate.rotation() @ gravity_alignment.inverse(), %s)' % hist)
    s = ctx.summarise(p, p.fn(L3 + 'ScanMatch'), opaque=OPQ)
    sm = 'this.active_submaps_.submaps()[0]'
    start = '(%s.local_pose().inverse() @ pose_prediction)' % sm
    match(ctx, s, ['high_resolution_point_cloud_in_tracking'], start, start, start + '.translation()', [sm + '.high_resolution_hybrid_grid()'], [
        'list({{point_cloud=high_resolution_point_cloud_in_tracking, hybrid_grid={m}.high_resolution_hybrid_grid(), intensity_hybrid_grid=this.options_.use_intensities ? {m}.high_resolution_intensity_hybrid_grid() : null}}, '
        '{{point_cloud=low_resolution_point_cloud_in_tracking, hybrid_grid={m}.low_resolution_hybrid_grid(), intensity_hybrid_grid=null}})'.format(m=sm), '$r', None])
    predicted(ctx, s, 'Rigid3')
    cs = [e for e in s.effects if calls('Match')(e) and 'Ceres' in e.name]
    t = constructed(s, 'Rigid3')
    rs = [e for e in t.effects if e.kind == 'return' and not any('== 0' in show(canon(g)) and show(canon(g))[0] != '!' for g in e.guard)]
    ctx.ob('match-returned', s.fn['sqn'], len(rs) == 1 and len(cs) == 1 and unify(pat('Rigid3(%s.local_pose() @ $r)' % sm), canon(rs[0].val), {'r': strip(cs[0].args[3])}) is not None,
           'not the matched pose, in the local frame, is returned')
    s = ctx.summarise(p, p.fn(L3 + 'AddImuData'), opaque=OPQ + ['FromProto'])
    old, new = 'this.extrapolator_ != null', 'this.extrapolator_ == null'
    ctx.spec_on('imu-data-reaches-the-extrapolator', s, [
        E('call', 'this.extrapolator_', name='AddImuData', args=['imu_data'], guard=old),
        E('append', '$poses', 'FromProto(this.options_.initial_poses[$i])', guard=new, each=['this.options_.initial_poses']),
        E('append', '$imu', 'FromProto(this.options_.initial_imu_data[$i])', guard=new, each=['this.options_.initial_imu_data'], tag='stored'),
        E('append', '$imu', 'imu_data', guard=new, each=[], tag='first'),
        E('write', 'this.extrapolator_', 'CreateWithImuData(this.options_.pose_extrapolator_options, $imu, $poses)', guard=new)],
        rel=any_of(calls('AddImuData'), of_kind('append', 'write')), order=['stored<first'])
    odometry(ctx, p, L3)


def clouds(ctx, s, times):
    """The returns that go on are the points with the intensities collected above."""
    pts = {strip(e.obj) for e in s.effects if e.kind == 'append' and 'RangefinderPoint' in show(e.val)[:20] or e.kind == 'append' and strip(e.val).op == 'struct' and len(e.loops) == 2}
    ints = {strip(e.obj) for e in s.effects if e.kind == 'append' and len(e.loops) == 2 and show(canon(e.val)).endswith('.intensity')}
    miss = {strip(e.obj) for e in s.effects if calls('PointCloud::push_back')(e)}
    vf = [strip(e.args[0]) for e in s.effects if calls('VoxelFilter')(e)]
    ret = [x for x in vf if x.op == 'mk' and len(x.a) == 3]
    ctx.ob('points-moved-by-the-pose-at-their-time', s.fn['sqn'], len(ret) == 1 and {strip(ret[0].a[1])} == pts and {strip(ret[0].a[2])} == ints and len(miss) == 1 and miss <= set(vf), 'returns are %s' % [show(x)[:100] for x in vf])


def check(ctx):
    p = ctx.program('mapping/internal/2d/local_trajectory_builder_2d.cc')
    local2(ctx, p)
    local3(ctx, ctx.program('mapping/internal/3d/local_trajectory_builder_3d.cc'))
    motion(ctx, ctx.program('mapping/internal/motion_filter.cc'))


main('P28', check, 'effect summaries of the local trajectory builders and the motion filter: data handed on, order, guards, refusals',
     'how every range, IMU and odometry datum passes through local SLAM, 2D and 3D, for every history', tus=['mapping/internal/2d/local_trajectory_builder_2d.cc', 'mapping/internal/3d/local_trajectory_builder_3d.cc', 'mapping/internal/motion_filter.cc'])
