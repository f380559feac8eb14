#!/usr/bin/env python3
"""Pose extrapolation: poses between scans follow from the latest pose and the newest velocities, in time order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

P = 'mapping::PoseExtrapolator::'
T = 'mapping::ImuTracker::'
OPQ = ['UpdateVelocitiesFromPoses', 'AdvanceImuTracker', 'TrimImuData', 'TrimOdometryData', 'ExtrapolateRotation', 'ExtrapolateTranslation', 'FromSeconds', 'ToSeconds', 'ImuTracker::', 'PoseExtrapolator::AddPose',
       'PoseExtrapolator::AddImu', 'RotationQuaternionToAngleAxisVector', 'ExtrapolatePose$', 'EstimateGravityOrientation']
Q, LAST = 'this.timed_pose_queue_', 'last(this.timed_pose_queue_)'


def check(ctx):
    p = ctx.program('mapping/pose_extrapolator.cc')
    V = lambda r, f, *v, **k: ctx.value(r, p, P + f, *v, opaque=OPQ, **k)
    V('last-times', 'GetLastPoseTime', {'|%s| == 0' % Q: 'time_point::min()', '|%s| != 0' % Q: LAST + '.time'})
    V('last-times', 'GetLastExtrapolatedTime', {'this.extrapolation_imu_tracker_ == null': 'time_point::min()', 'this.extrapolation_imu_tracker_ != null': 'this.extrapolation_imu_tracker_.time()'})
    # a new pose
    f = p.fn(P + 'AddPose')
    s = ctx.summarise(p, f, opaque=OPQ)
    names = ('UpdateVelocitiesFromPoses', 'AdvanceImuTracker', 'TrimImuData', 'TrimOdometryData')
    made = constructed(s, 'ImuTracker')
    tr = lambda e: e.kind == 'write' and show(strip(e.obj)).endswith('imu_tracker_')
    ctx.match('trackers-follow-the-newest-pose', made, tr, [
        E('write', 'this.imu_tracker_', 'ImuTracker(this.gravity_time_constant_, |this.imu_data_| == 0 ? time : min(time, this.imu_data_[0].time))', guard='this.imu_tracker_ == null'),
        E('write', 'this.odometry_imu_tracker_', 'ImuTracker(this.imu_tracker_)', guard='true'), E('write', 'this.extrapolation_imu_tracker_', 'ImuTracker(this.imu_tracker_)', guard='true')])
    ctx.spec_on('pose-enters-the-queue', s, [
        E('append', Q, '{time=time, pose=pose}', guard='true', tag='in'),
        E('mutate', Q, name='pop_front', args=[], guard='|{q}| > 2 && {q}[1].time + this.pose_queue_duration_ <= time'.format(q=Q), each=[None], tag='drop'),
        E('call', 'this', name=names[0], args=[], guard='true', tag='velocities'),
        E('call', 'this', name=names[1], args=['time', 'this.imu_tracker_'], guard='true', tag='advance'),
        E('call', 'this', name=names[2], args=[], guard='true', tag='trim1'), E('call', 'this', name=names[3], args=[], guard='true', tag='trim2')],
        rel=any_of(calls(*names), lambda e: e.kind in ('append', 'mutate') and show(strip(e.obj)) == Q), order=['in<drop', 'drop<velocities', 'velocities<advance', 'in<trim1', 'in<trim2'])
    adv = [e for e in s.effects if calls('AdvanceImuTracker')(e)]
    cp = [e for e in s.effects if tr(e) and not show(strip(e.obj)).endswith('.imu_tracker_')]
    ctx.ob('trackers-follow-the-newest-pose', f['sqn'], len(adv) == 1 and all(adv[0].seq < e.seq for e in cp), 'trackers are copied before they are advanced to the pose')
    old = [e for e in s.effects if e.kind == 'write' and show(strip(e.obj)).startswith('this.cached_extrapolated_pose_')]
    ctx.trial(lambda alt: ctx.match('new-pose-supersedes-extrapolated-ones', s, lambda e: e in old, alt([E('write', 'this.cached_extrapolated_pose_', '{time=time, pose=pose}', guard='true')])) or True,
              lambda x: [E('write', 'this.cached_extrapolated_pose_.time', 'time_point::min()', guard='true')], lambda x: [E('write', 'this.cached_extrapolated_pose_', '{time=time_point::min(), pose=_}', guard='true')],
              lambda x: [E('write', 'this.cached_extrapolated_pose_.time', 'time', guard='true'), E('write', 'this.cached_extrapolated_pose_.pose', 'pose', guard='true')])
    # sensor data
    for fn, par, col in (('AddImuData', 'imu_data', 'this.imu_data_'), ('AddOdometryData', 'odometry_data', 'this.odometry_data_')):
        s = ctx.summarise(p, p.fn(P + fn), opaque=OPQ)
        trim = 'TrimImuData' if 'Imu' in fn else 'TrimOdometryData'
        ctx.refuses('late-data-refused', s, '|%s| == 0 || %s.time <= %s.time' % (Q, LAST, par), 'data from before the newest pose is accepted')
        ctx.spec_on('data-kept', s, [E('append', col, par, guard='true', tag='in'), E('call', 'this', name=trim, args=[], guard='true', tag='trim')], rel=any_of(of_kind('append', 'mutate'), calls(trim)), order=['in<trim'])
    o = 'this.odometry_data_'
    dt = 'ToSeconds({o}[0].time - last({o}).time)'.format(o=o)
    dp = '(last({o}).pose.inverse() @ {o}[0].pose)'.format(o=o)
    ctx.match('velocity-from-odometry', s, of_kind('write'), [
        E('write', 'this.angular_velocity_from_odometry_', 'RotationQuaternionToAngleAxisVector(%s.rotation()) / %s' % (dp, dt), guard='1 < |%s|' % o),
        E('write', 'this.linear_velocity_from_odometry_', '({l}.pose.rotation() @ this.ExtrapolateRotation(last({o}).time, this.odometry_imu_tracker_)) @ ({p}.translation() / {t})'.format(l=LAST, o=o, p=dp, t=dt),
          guard='1 < |%s| && |%s| != 0' % (o, Q))])
    for fn, col, keep in (('TrimImuData', 'this.imu_data_', 1), ('TrimOdometryData', o, 2)):
        s = ctx.summarise(p, p.fn(P + fn))
        ctx.match('data-kept', s, lambda e: e.kind in ('mutate', 'append', 'write'), [
            E('mutate', col, name='pop_front', args=[], guard='|{c}| > {k} && |{q}| != 0 && {c}[1].time <= {l}.time'.format(c=col, k=keep, q=Q, l=LAST), each=[None])])
    qd = 'ToSeconds({l}.time - {q}[0].time)'.format(l=LAST, q=Q)
    ok = '1 < |%s| && ToSeconds(this.pose_queue_duration_) <= %s' % (Q, qd)
    ctx.match('velocity-from-poses', ctx.summarise(p, p.fn(P + 'UpdateVelocitiesFromPoses'), opaque=['ToSeconds', 'RotationQuaternionToAngleAxisVector']), of_kind('write'), [
        E('write', 'this.linear_velocity_from_poses_', '({l}.pose.translation() - {q}[0].pose.translation()) / {d}'.format(l=LAST, q=Q, d=qd), guard=ok),
        E('write', 'this.angular_velocity_from_poses_', 'RotationQuaternionToAngleAxisVector({q}[0].pose.rotation().inverse() @ {l}.pose.rotation()) / {d}'.format(l=LAST, q=Q, d=qd), guard=ok)])
    # extrapolation
    V('pose-extrapolated', 'ExtrapolateTranslation', {'|%s| < 2' % o: 'ToSeconds(time - %s.time) * this.linear_velocity_from_poses_' % LAST, '1 < |%s|' % o: 'ToSeconds(time - %s.time) * this.linear_velocity_from_odometry_' % LAST})
    s = ctx.summarise(p, p.fn(P + 'ExtrapolateRotation'), opaque=OPQ)
    ctx.spec_on('pose-extrapolated', s, [E('call', 'this', name='AdvanceImuTracker', args=['time', 'imu_tracker'], guard='true', tag='a'),
                                         E('return', val='this.imu_tracker_.orientation().inverse() @ imu_tracker.orientation()', guard='true', tag='r')], rel=any_of(calls('AdvanceImuTracker'), of_kind('return')))
    s = ctx.summarise(p, p.fn(P + 'ExtrapolatePose'), opaque=OPQ)
    ctx.refuses('pose-extrapolated', s, LAST + '.time <= time', 'poses before the newest one are extrapolated')
    new = 'time != this.cached_extrapolated_pose_.time'
    moved = 'Rigid3(this.ExtrapolateTranslation(time) + {l}.pose.translation(), {l}.pose.rotation() @ this.ExtrapolateRotation(time, this.extrapolation_imu_tracker_))'.format(l=LAST)
    c = 'this.cached_extrapolated_pose_'
    whole = [E('write', c, '{time=time, pose=%s}' % moved, guard=new)]
    ctx.trial(lambda alt: ctx.match('pose-extrapolated', s, of_kind('write'), alt(whole)) or True, lambda _: [E('write', c + '.time', 'time', guard=new), E('write', c + '.pose', moved, guard=new)])
    ctx.trial(lambda alt: ctx.match('pose-extrapolated', s, of_kind('return'), alt([E('return', val=c + '.pose', guard='true')])) or True,
              lambda _: [E('return', val=c + '.pose', guard='!(%s)' % new), E('return', val=moved, guard=new)],
              lambda _: [E('return', val=c + '.pose', guard='!(%s)' % new), E('return', val='{time=time, pose=%s}.pose' % moved, guard=new)],
              lambda _: [E('return', val=c + '.pose', guard='!(%s)' % new), E('return', val=c + '.pose', guard=new)])
    s = ctx.summarise(p, p.fn(P + 'EstimateGravityOrientation'), opaque=OPQ)
    ctx.spec_on('gravity-estimated-on-a-copy', s, [E('call', 'this', name='AdvanceImuTracker', args=['time', 'this.imu_tracker_'], guard='true', tag='a'),
                                                   E('return', val='this.imu_tracker_.orientation()', guard='true', tag='r')], rel=any_of(calls('AdvanceImuTracker'), of_kind('return')))
    a = [e for e in s.effects if calls('AdvanceImuTracker')(e)]
    r = [e for e in s.effects if e.kind == 'return']
    c = {x for e in a for x in subterms(e.args[1]) if x.op == 'copy'}
    ctx.ob('gravity-estimated-on-a-copy', P + 'EstimateGravityOrientation', bool(c) and all(c & set(subterms(e.val)) for e in r), 'the tracker itself is advanced, or the estimate is not that of the advanced copy')
    s = ctx.summarise(p, p.fn(P + 'ExtrapolatePosesWithGravity'), opaque=OPQ)
    ctx.trial(lambda alt: ctx.result('poses-extrapolated', p, P + 'ExtrapolatePosesWithGravity', {
        'previous_poses': alt(E('append', val='this.ExtrapolatePose($t).cast()', guard='true', each=['begin(times)..last(times)'])),
        'current_pose': 'this.ExtrapolatePose(last(times))', 'gravity_from_tracking': 'this.EstimateGravityOrientation(last(times))',
        'current_velocity': [E('write', val='this.linear_velocity_from_poses_', guard='|%s| < 2' % o), E('write', val='this.linear_velocity_from_odometry_', guard='1 < |%s|' % o)]}, opaque=OPQ) or True,
        lambda _: E('append', val='this.ExtrapolatePose(times[$i]).cast()', guard='true', each=['0..|times| - 1']), lambda _: E('append', val='this.ExtrapolatePose(times[$i - 1]).cast()', guard='true', each=['1..|times|']))
    # the tracker is advanced through the IMU data in order
    s = ctx.summarise(p, p.fn(P + 'AdvanceImuTracker'), opaque=OPQ)
    rel = calls('Advance', 'AddImuLinearAccelerationObservation', 'AddImuAngularVelocityObservation')
    for none in (['|this.imu_data_| == 0'], ['|this.imu_data_| != 0', 'time < this.imu_data_[0].time']):
        ctx.spec_on('tracker-without-imu-data', specialise(s, none), [
            E('call', 'imu_tracker', name='Advance', args=['time'], guard='true', each=[], tag='adv0'),
            E('call', 'imu_tracker', name='AddImuLinearAccelerationObservation', args=['UnitZ()'], guard='true', tag='fake1'),
            E('call', 'imu_tracker', name='AddImuAngularVelocityObservation', args=['|%s| < 2 ? this.angular_velocity_from_poses_ : this.angular_velocity_from_odometry_' % o], guard='true', tag='fake2')],
            rel=rel, order=['adv0<fake1', 'adv0<fake2'])
    t = specialise(s, ['|this.imu_data_| != 0', 'this.imu_data_[0].time <= time'])
    ctx.trial(lambda alt: ctx.spec_on('tracker-sees-imu-data-in-order', t, [
        E('call', 'imu_tracker', name='Advance', args=['this.imu_data_[0].time'], guard='imu_tracker.time() < this.imu_data_[0].time', each=[], tag='start'),
        E('call', 'imu_tracker', name='Advance', args=['$i.time'], guard=alt('true'), each=[None], facts=['$i.time < time'], tag='step'),
        E('call', 'imu_tracker', name='AddImuLinearAccelerationObservation', args=['$i.linear_acceleration'], guard=alt('true'), each=[None], facts=['$i.time < time'], tag='obs1'),
        E('call', 'imu_tracker', name='AddImuAngularVelocityObservation', args=['$i.angular_velocity'], guard=alt('true'), each=[None], facts=['$i.time < time'], tag='obs2'),
        E('call', 'imu_tracker', name='Advance', args=['time'], guard='true', each=[], tag='end')],
        rel=rel, order=['start<step', 'step<obs1', 'step<obs2', 'obs1<end', 'obs2<end']) or True, lambda x: '$i.time < time')
    for e in t.effects:
        if rel(e) and e.loops:
            l = e.loops[0]
            lo = unify(pat('first(this.imu_data_, imu_tracker.time() <= elem().time)'), canon(l.lo), {}) is not None and canon(l.hi) is end(canon(build(pat('this.imu_data_'), {}, {})))
            extra = [f for f in e.facts if l.idx in set(subterms(f)) and unify(pat('$i.time < time'), canon(f), {'i': l.idx}) is None and unify(pat('end(this.imu_data_) != $i'), canon(f), {'i': l.idx}) is None]
            ctx.ob('tracker-sees-imu-data-in-order', e.where(), lo and not extra and all(ends(l, x) for x in l.exits), 'not all IMU data up to the time is used: %s' % [extra, l.lo, l.hi])
    ctx.refuses('late-data-refused', s, 'imu_tracker.time() <= time', 'the tracker is moved back in time')
    tracker(ctx)
    start(ctx, p)


def ends(l, x):
    """The loop goes on while there are data, or until one is not earlier than the time."""
    late = [f for f in x[1] if unify(pat('time <= $i.time'), canon(f if isinstance(f, Term) else f[0]), {'i': l.idx}) is not None]
    return x[0] == 'cond' or x[0] == 'break' and bool(late)


def tracker(ctx):
    p = ctx.program('mapping/imu_tracker.cc')
    op = ['ToSeconds', 'FromTwoVectors', 'AngleAxisVectorToRotationQuaternion']
    ctx.value('tracker', p, T + 'time', 'this.time_')
    ctx.value('tracker', p, T + 'orientation', 'this.orientation_')
    s = ctx.summarise(p, p.fn(T + 'Advance'), opaque=op)
    ctx.refuses('late-data-refused', s, 'this.time_ <= time', 'the tracker is moved back in time')
    rot = 'AngleAxisVectorToRotationQuaternion(this.imu_angular_velocity_ * ToSeconds(time - this.time_))'
    ctx.final('tracker', p, None, {'this.time_': 'time', 'this.orientation_': '(this.orientation_ @ %s).normalized()' % rot, 'this.gravity_vector_': '%s.conjugate() @ this.gravity_vector_' % rot}, s=s)
    s = ctx.summarise(p, p.fn(T + 'AddImuLinearAccelerationObservation'), opaque=op)
    first = 'this.last_linear_acceleration_time_ <= time_point::min()'
    later = 'time_point::min() < this.last_linear_acceleration_time_'
    x = 'exp(-ToSeconds(this.time_ - this.last_linear_acceleration_time_) / this.imu_gravity_time_constant_)'
    g = {first: 'imu_linear_acceleration', later: '(%s * this.gravity_vector_ + (1 - %s) * imu_linear_acceleration)' % (x, x)}
    ctx.final('tracker', p, None, {'this.last_linear_acceleration_time_': 'this.time_', 'this.gravity_vector_': g,
                                   'this.orientation_': {c: '(this.orientation_ @ FromTwoVectors(%s, this.orientation_.conjugate() @ UnitZ())).normalized()' % x for c, x in g.items()}}, s=s)
    ctx.final('tracker', p, T + 'AddImuAngularVelocityObservation', {'this.imu_angular_velocity_': 'imu_angular_velocity'})


def start(ctx, p):
    ctx.final('start', p, P + 'PoseExtrapolator', {'this.pose_queue_duration_': 'pose_queue_duration', 'this.gravity_time_constant_': 'imu_gravity_time_constant', 'this.imu_tracker_': 'null', 'this.odometry_imu_tracker_': 'null',
                                                   'this.extrapolation_imu_tracker_': 'null', 'this.linear_velocity_from_poses_': 'Zero()', 'this.angular_velocity_from_poses_': 'Zero()',
                                                   'this.linear_velocity_from_odometry_': 'Zero()', 'this.angular_velocity_from_odometry_': 'Zero()'})
    s = ctx.summarise(p, p.fn(P + 'InitializeWithImu'), opaque=OPQ)
    made = constructed(s, 'ImuTracker')
    ctx.match('start', made, lambda e: e.kind == 'write' and show(strip(e.obj)).endswith('.imu_tracker_') and strip(e.val).op != 'null', [E('write', '_', 'ImuTracker(imu_gravity_time_constant, imu_data.time)', guard='true')])
    t = '$t'
    ctx.spec_on('start', s, [
        E('call', '$e', name='AddImuData', args=['imu_data'], guard='true', tag='imu'),
        E('call', t, name='AddImuLinearAccelerationObservation', args=['imu_data.linear_acceleration'], guard='true', tag='acc'),
        E('call', t, name='AddImuAngularVelocityObservation', args=['imu_data.angular_velocity'], guard='true', tag='vel'),
        E('call', t, name='Advance', args=['imu_data.time'], guard='true', tag='adv'),
        E('call', '$e', name='AddPose', args=['imu_data.time', 'Rigid3::Rotation(%s.orientation())' % t], guard='true', tag='pose'),
        E('return', val='$e', guard='true')], rel=any_of(calls('AddImuData', 'AddImuLinearAccelerationObservation', 'AddImuAngularVelocityObservation', 'Advance', 'AddPose'), of_kind('return')),
        order=['imu<pose', 'acc<pose', 'vel<pose', 'adv<pose'])


main('P29', check, 'effect summaries of the extrapolator and the IMU tracker, normalised and compared with the required state changes, refusals and order',
     'what every pose, IMU and odometry datum changes, and what every extrapolated pose is, for every history', tus=['mapping/pose_extrapolator.cc', 'mapping/imu_tracker.cc'])
