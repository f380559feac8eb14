#!/usr/bin/env python3
"""Global poses: after an optimization every node, submap and landmark has its optimized pose, what came later moves along with its trajectory, and queries report exactly the stored state, consistently."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *
from pgraph import *

D = 'this.data_.'
OPT = 'this.optimization_problem_'


def check(ctx):
    for d in (2, 3):
        g = Graph(ctx, d)
        optimized(ctx, g)
        transforms(ctx, g)
        queries(ctx, g)


def optimized(ctx, g):
    d = g.d
    R = 'optimized-poses-taken-over'
    s = g.s('RunOptimization')
    some = '|%s.submap_data()| != 0' % OPT
    N, S_ = OPT + '.node_data()', OPT + '.submap_data()'
    tid = 'trajs(%s)[$i]' % N
    node = 'traj(%s, %s)[$j]' % (N, tid)
    own = 'this.data_.trajectory_nodes[%s.id]' % node
    pose = '%s.data.global_pose' % node if d == 3 else 'Embed3D(%s.data.global_pose_2d) @ Rigid3::Rotation(%s.constant_data.gravity_alignment)' % (node, own)
    moved = 'this.ComputeLocalToGlobalTransform(%s, %s) @ this.ComputeLocalToGlobalTransform(this.data_.global_submap_poses_%dd, %s).inverse() @ this.data_.trajectory_nodes[$n.id].global_pose' % (S_, tid, d, tid)
    first = '1 + find(this.data_.trajectory_nodes, last(traj(%s, %s)).id)' % (N, tid)
    gp = 'this.data_.global_submap_poses_%dd' % d
    ctx.spec_on(R, s, [
        E('call', OPT, name='Solve', args=['this.data_.constraints', 'this.GetTrajectoryStates()', 'this.data_.landmark_nodes'], guard=some, nolocks=M, tag='solve'),
        E('write', own + '.global_pose', pose, guard=some, each=['trajs(%s)' % N, 'traj(%s, %s)' % (N, tid)], locks=M, stale_ok=True, tag='own'),
        E('write', 'this.data_.trajectory_nodes[$n.id].global_pose', moved, guard=some, locks=M, stale_ok=True, each=['trajs(%s)' % N, first + '..end(traj(this.data_.trajectory_nodes, %s))' % tid], tag='later'),
        E('write', D + 'landmark_nodes[%s.landmark_data()[$i].first].global_landmark_pose' % OPT, OPT + '.landmark_data()[$i].second', guard=some, each=[OPT + '.landmark_data()'], locks=M, stale_ok=True),
        E('write', gp, S_, guard=some, locks=M, stale_ok=True, tag='subs')],
        rel=lambda e: state()(e) and not (e.kind == 'call' and e.name.endswith(('ComputeLocalToGlobalTransform', 'GetTrajectoryStates'))), order=['solve<own', 'solve<later', 'later<subs', 'own<subs'])


def transforms(ctx, g):
    d = g.d
    R = 'local-to-global'
    s = g.s('ComputeLocalToGlobalTransform')
    ini = 'this.data_.initial_trajectory_poses'
    none = '|traj(global_submap_poses, trajectory_id)| == 0'
    last = 'last(traj(global_submap_poses, trajectory_id)).id'
    gp = 'global_submap_poses[%s].global_pose' % last
    ctx.match(R, s, of_kind('return'), [
        E('return', val='this.GetInterpolatedGlobalTrajectoryPose({0}[trajectory_id].to_trajectory_id, {0}[trajectory_id].time) @ {0}[trajectory_id].relative_pose'.format(ini), guard='%s && trajectory_id in %s' % (none, ini)),
        E('return', val='Rigid3::Identity()', guard='%s && !(trajectory_id in %s)' % (none, ini)),
        E('return', val='%s @ this.data_.submap_data[%s].submap.local_pose_.inverse()' % ('Embed3D(%s)' % gp if d == 2 else gp, last), guard='!(%s)' % none)])
    ctx.match(R, g.s('GetLocalToGlobalTransform'), of_kind('return'), [E('return', val='this.ComputeLocalToGlobalTransform(this.data_.global_submap_poses_%dd, trajectory_id)' % d, guard='true', locks=M)])
    s = g.s('GetInterpolatedGlobalTrajectoryPose')
    T = 'traj(this.data_.trajectory_nodes, trajectory_id)'
    it = 'this.data_.trajectory_nodes.lower_bound(trajectory_id, time)'
    before = '(-1 + %s)' % it
    ctx.match(R, s, of_kind('return'), [
        E('return', val=T + '[0].data.global_pose', guard='%s == begin(%s)' % (it, T)),
        E('return', val='last(%s).data.global_pose' % T, guard='%s != begin(%s) && %s == end(%s)' % (it, T, it, T)),
        E('return', val='Interpolate({{time={0}.data.constant_data.time, transform={0}.data.global_pose}}, {{time={1}.data.constant_data.time, transform={1}.data.global_pose}}, time).transform'.format(before, it),
          guard='%s != begin(%s) && %s != end(%s)' % (it, T, it, T))])
    ctx.ob(R, s.fn['sqn'], any(e.kind == 'assert' and not e.guard and unify(pat('|%s| != 0' % T), canonc(e.val), {}) is not None for e in s.effects), 'a trajectory without nodes is interpolated')
    one, all_ = None, None
    for f in g.p.overloads(g.cls + '::GetSubmapDataUnderLock'):
        s = g.s(dict(f))
        gp = 'this.data_.global_submap_poses_%dd' % d
        sub = 'this.data_.submap_data[submap_id].submap'
        if len(f['params']) == 1:
            p = '%s[submap_id].global_pose' % gp
            ctx.match(R, s, of_kind('return'), [
                E('return', val='{submap=null}', guard='!(submap_id in this.data_.submap_data)'),
                E('return', val='{submap=%s, pose=%s}' % (sub, 'Embed3D(%s)' % p if d == 2 else p), guard='submap_id in this.data_.submap_data && submap_id in %s' % gp),
                E('return', val='{submap=%s, pose=this.ComputeLocalToGlobalTransform(%s, submap_id.trajectory_id) @ %s.local_pose_}' % (sub, gp, sub), guard='submap_id in this.data_.submap_data && !(submap_id in %s)' % gp)])
        else:
            out(ctx, R, s, [E('append', 'out', 'emplaced(this.data_.submap_data[$i].id, this.GetSubmapDataUnderLock(this.data_.submap_data[$i].id))', guard='true', each=['this.data_.submap_data'])], lock=False)


def out(ctx, rule, s, want, lock=True):
    """The result is built by exactly these effects."""
    rets = [e for e in s.effects if e.kind == 'return']
    ctx.ob(rule, s.fn['sqn'], len(rets) == 1 and strip(rets[0].val).op == 'obj', 'not one result')
    if len(rets) != 1:
        return
    r = renamed(s, {'out': rets[0].val})
    for w in want:
        if lock:
            w.locks = M
    ctx.match(rule, r, lambda e: e.kind in ('write', 'append', 'mutate') and show(strip(root(e.obj))) == 'out', want)


def root(t):
    t = target(t)
    while t.op in ('f', 'at', 'v') and isinstance(t.a[0], Term):
        t = t.a[0]
    return t


def queries(ctx, g):
    d = g.d
    R = 'queries-report-the-state'
    N, L, C_, S_ = ('this.data_.%s[$i]' % x for x in ('trajectory_nodes', 'landmark_nodes', 'constraints', 'submap_data'))
    ctx.match(R, g.s('GetTrajectoryNodes'), of_kind('return'), [E('return', val='this.data_.trajectory_nodes', guard='true', locks=M)])
    out(ctx, R, g.s('GetTrajectoryNodePoses'), [
        E('append', 'out', 'emplaced(%s.id, {global_pose=%s.data.global_pose, constant_pose_data=null})' % (N, N), guard=N + '.data.constant_data == null', each=['this.data_.trajectory_nodes']),
        E('append', 'out', 'emplaced({0}.id, {{global_pose={0}.data.global_pose, constant_pose_data={{time={0}.data.constant_data.time, local_pose={0}.data.constant_data.local_pose}}}})'.format(N), guard=N + '.data.constant_data != null',
          each=['this.data_.trajectory_nodes'])])
    T = 'this.data_.trajectories_state[$i]'
    out(ctx, R, g.s('GetTrajectoryStates'), [E('write', 'out[%s.first]' % T, T + '.second.state', guard='true', each=['this.data_.trajectories_state'])])
    out(ctx, R, g.s('GetLandmarkPoses'), [E('write', 'out[%s.first]' % L, L + '.second.global_landmark_pose', guard=L + '.second.global_landmark_pose != null', each=['this.data_.landmark_nodes'])])
    for fn, val in (('GetImuData', OPT + '.imu_data()'), ('GetOdometryData', OPT + '.odometry_data()'), ('GetFixedFramePoseData', OPT + '.fixed_frame_pose_data()'), ('GetTrajectoryData', OPT + '.trajectory_data()'),
                    ('GetLandmarkNodes', 'this.data_.landmark_nodes'), ('GetConnectedTrajectories', 'this.data_.trajectory_connectivity_state.Components()'), ('GetSubmapData', 'this.GetSubmapDataUnderLock(submap_id)'),
                    ('GetAllSubmapData', 'this.GetSubmapDataUnderLock()')):
        s = g.s(fn)
        ctx.match(R, s, of_kind('return'), [E('return', val=val, guard='true', locks=M)])
        ctx.match(R, s, lambda e: e.kind in ('write', 'append', 'mutate') and state()(e), [])
    if d == 3:
        ctx.match(R, g.s('constraints'), of_kind('return'), [E('return', val='this.data_.constraints', guard='true', locks=M)])
    else:
        out(ctx, R, g.s('constraints'), [
            E('append', 'out', '{{submap_id={0}.submap_id, node_id={0}.node_id, tag={0}.tag, pose={{zbar_ij={0}.pose.zbar_ij @ Rigid3::Rotation(this.data_.trajectory_nodes[{0}.node_id].constant_data.gravity_alignment), '
              'translation_weight={0}.pose.translation_weight, rotation_weight={0}.pose.rotation_weight}}}}'.format(C_), guard='true', each=['this.data_.constraints'])])
    q = 'this.GetSubmapDataUnderLock(%s.id)' % S_
    out(ctx, R, g.s('GetAllSubmapPoses'), [E('append', 'out', 'emplaced(%s.id, {version=%s.submap.num_range_data_, pose=%s.pose})' % (S_, q, q), guard='true', each=['this.data_.submap_data'], stale_ok=True)])
    H = g.cls + '::TrimmingHandle'
    gp = 'this.parent_.data_.global_submap_poses_%dd' % d
    P = 'this.parent_.data_.submap_data[$i]'
    pose = '%s[%s.id].global_pose' % (gp, P)
    s = g.s('GetOptimizedSubmapData', cls=H)
    out(ctx, R, s, [E('append', 'out', 'emplaced(%s.id, {submap=%s.data.submap, pose=%s})' % (P, P, 'Embed3D(%s)' % pose if d == 2 else pose), guard='%s.data.state == kFinished && %s.id in %s' % (P, P, gp), each=['this.parent_.data_.submap_data'])], lock=False)
    po = 'this.parent_.optimization_problem_.submap_data()'
    out(ctx, R, g.s('GetSubmapIds', cls=H), [E('append', 'out', 'traj(%s, trajectory_id)[$i].id' % po, guard='true', each=['traj(%s, trajectory_id)' % po])], lock=False)
    for fn, val in (('num_submaps', '|traj(%s, trajectory_id)|' % po), ('GetTrajectoryNodes', 'this.parent_.data_.trajectory_nodes'), ('GetConstraints', 'this.parent_.data_.constraints'),
                    ('IsFinished', 'this.parent_.IsTrajectoryFinished(trajectory_id)')):
        ctx.match(R, g.s(fn, cls=H), of_kind('return'), [E('return', val=val, guard='true')])


if __name__ == '__main__':
    main('P25', check, 'value-flow summaries of the optimization result and of every query of the pose graph',
         'poses after an optimization and every query are the stored values, composed in the right order, read under the lock', tus=TUS)
