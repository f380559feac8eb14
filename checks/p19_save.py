#!/usr/bin/env python3
"""A saved state contains everything: each message of the stream and every component of it, in the order the reader needs."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

TUS = ['io/internal/mapping_state_serialization.cc', 'mapping/pose_graph.cc', 'mapping/trajectory_node.cc', 'mapping/trajectory_builder_interface.cc', 'mapping/map_builder.cc']
OP = ['transform::', 'sensor::ToProto', 'sensor::FromProto', 'mapping::ToProto', 'mapping::FromProto', 'CompressedPointCloud', 'ToUniversal', 'FromUniversal']


def messages(v):
    """What every message of the stream contains: {oneof case: (loops, condition, components)}."""
    G = lambda m: 'pose_graph.%s()' % m
    sub, node, dat, lm = (G(m) + '[$i]' for m in ('GetAllSubmapData', 'GetTrajectoryNodes', 'GetTrajectoryData', 'GetLandmarkNodes'))
    obs = lm + '.second.landmark_observations[$k]'
    o = 'landmark_data.landmark_data.landmark_observations[_].'
    yield 'format_version', [], 'true', {'format_version': '2'}
    yield 'pose_graph', [], 'true', {'pose_graph': 'pose_graph.ToProto(include_unfinished_submaps)'}
    st = G('GetTrajectoryStates')
    yield 'all_trajectory_builder_options', [], 'true', {
        'all_trajectory_builder_options.options_with_sensor_ids': E('append', each=[st], guard='%s[$i].second != DELETED' % st),
        'all_trajectory_builder_options.options_with_sensor_ids[_]': E('write', val='trajectory_builder_options[%s[$i].first]' % st, each=[st], guard='%s[$i].second != DELETED' % st)}
    yield 'submap', [G('GetAllSubmapData')], '(include_unfinished_submaps || %s.data.submap.insertion_finished_)' % sub.replace('$i', '_'), {
        'submap': sub + '.data.submap.ToProto(true)', 'submap.submap_id.trajectory_id': sub + '.id.trajectory_id', 'submap.submap_id.submap_index': sub + '.id.submap_index'}
    yield 'node', [G('GetTrajectoryNodes')], 'true', {
        'node.node_id.trajectory_id': node + '.id.trajectory_id', 'node.node_id.node_index': node + '.id.node_index', 'node.node_data': 'ToProto(%s.data.constant_data)' % node}
    q = dat + '.second.imu_calibration'
    yield 'trajectory_data', [G('GetTrajectoryData')], 'true', {
        'trajectory_data.trajectory_id': dat + '.first', 'trajectory_data.gravity_constant': dat + '.second.gravity_constant',
        'trajectory_data.imu_calibration': 'ToProto(Quaternion(%s))' % ', '.join('%s[%d]' % (q, k) for k in range(4)),
        'trajectory_data.fixed_frame_origin_in_map': E('write', val='ToProto(%s.second.fixed_frame_origin_in_map)' % dat, guard='%s.second.fixed_frame_origin_in_map != null' % dat,
                                                       each=[G('GetTrajectoryData')])}
    for m, get in (('imu_data', 'GetImuData'), ('odometry_data', 'GetOdometryData'), ('fixed_frame_pose_data', 'GetFixedFramePoseData')):
        x = 'trajs(%s)' % G(get)
        yield m, [x, 'traj(%s, %s[$i])' % (G(get), x)], 'true', {m + '.trajectory_id': x + '[$i]', m + '.' + m: 'ToProto(traj(%s, %s[$i])[$k])' % (G(get), x)}
    yield 'landmark_data', [G('GetLandmarkNodes'), lm + '.second.landmark_observations'], 'true', {
        'landmark_data.trajectory_id': obs + '.trajectory_id', 'landmark_data.landmark_data.timestamp': 'ToUniversal(%s.time)' % obs,
        'landmark_data.landmark_data.landmark_observations': E('append', guard='true', each=[G('GetLandmarkNodes'), lm + '.second.landmark_observations']),
        o + 'id': lm + '.first', o + 'landmark_to_tracking_transform': 'ToProto(%s.landmark_to_tracking_transform)' % obs,
        o + 'translation_weight': obs + '.translation_weight', o + 'rotation_weight': obs + '.rotation_weight'}


def stream(ctx, p):
    s = fused(ctx.summarise(p, p.fn('io::WritePbStream'), opaque=OP))
    v = s.params
    found = {}
    for e in s.effects:
        if e.kind == 'call' and e.name.endswith('::WriteProto'):
            t = passed(s, e)
            tops = {root_path(target(x.obj))[1][0][1] for x in t.effects if x.obj is not None and root_path(target(x.obj))[1]}
            ctx.ob('one-message-kind-per-record', '%s (%s)' % (s.fn['sqn'], e.where()), len(tops) == 1 and isinstance(next(iter(tops)), str), 'a record with the parts %s' % sorted(map(str, tops)))
            for k in tops:
                found.setdefault(k, []).append((e, t))
    first = {}
    for m, loops, cond, comps in messages(v):
        es = found.pop(m, [])
        ctx.ob('every-kind-of-message-written', s.fn['sqn'], len(es) == 1, '%s is written at %d places' % (m, len(es)))
        if len(es) != 1:
            continue
        e, t = es[0]
        first[m] = e
        exp = [E('pass', guard=cond, each=loops)]
        for k, x in comps.items():
            if isinstance(x, E):
                x = copy.copy(x)
                x.obj = 'result.' + k
            else:
                x = E('write', 'result.' + k, x, guard=cond, each=loops)
            exp.append(x)
        ctx.match('message-complete', t, lambda e: True, exp, where='%s %s' % (s.fn['sqn'], m))
    for m in found:
        ctx.ob('every-kind-of-message-written', s.fn['sqn'], False, 'unexpected record %s' % m)
    # the reader takes header, pose graph and options first; a trajectory's submaps and nodes are there before what refers to them
    h = ['format_version', 'pose_graph', 'all_trajectory_builder_options']
    for i, a in enumerate(h):
        for b in first:
            if b not in h[:i + 1] and a in first:
                ctx.ob('header-pose-graph-options-first', '%s (%s)' % (s.fn['sqn'], first[b].where()), first[a].seq < first[b].seq, '%s written before %s' % (b, a))
    for m, e in first.items():
        ctx.ob('all-on-the-given-writer', '%s (%s)' % (s.fn['sqn'], e.where()), unify(pat('writer'), canon(e.obj), {}) is not None, 'written to %s' % e.obj)


def holders(s, R):
    """Trajectory messages called by the trajectory they are for: traj_of(id), however they were reached."""
    made = {strip(e.val): None for e in s.effects if e.kind == 'append' and target(e.obj) is F(R, 'trajectory')}
    for e in s.effects:
        if e.kind == 'write' and e.obj.op == 'f' and e.obj.a[1] == 'trajectory_id' and target(e.obj.a[0]) in made:
            made[target(e.obj.a[0])] = canon(e.val)
    index = {target(e.obj) for e in s.effects if e.kind == 'append' and strip(e.val) in made and target(e.obj) is not F(R, 'trajectory')}
    def hold(x):
        y = target(x) if x.op in ('v', 'copy', 'obj') else x
        if made.get(y) is not None:
            return mk('mk', 'traj_of', made[y])
        if x.op == 'at' and target(x.a[0]) in index:
            return mk('mk', 'traj_of', canon(x.a[1]))
    t = copy.copy(s)
    t.effects = []
    for e in s.effects:
        if e.kind == 'append' and target(e.obj) in index:
            e = copy.copy(e)
            e.obj = mk('param', 'index')
        elif isinstance(e.obj, Term):
            e = copy.copy(e)
            e.obj = rewrite(e.obj, hold)
        if isinstance(e.val, Term):
            e.val = rewrite(e.val, hold)
        m = {x: mk('param', 'index') for x in index}
        e.pc = type(e.pc)((rewrite(f, lambda x: m.get(target(x)) if x.op in ('v', 'copy', 'obj') else None), g) for f, g in e.pc)
        t.effects.append(e)
    t.params = list(s.params) + [mk('param', 'index')]
    return t


def pose_graph(ctx, p):
    R = 'pose-graph-complete'
    s = ctx.summarise(p, p.fn('mapping::PoseGraph::ToProto'), opaque=OP)
    ret = one([e for e in s.effects if e.kind == 'return'], 'return of PoseGraph::ToProto')
    res = target(ret.val)
    S, N, C, L, ST = ('this.%s()' % g for g in ('GetAllSubmapData', 'GetTrajectoryNodes', 'constraints', 'GetLandmarkPoses', 'GetTrajectoryStates'))
    s = holders(s, res)
    objs = {'result': res}
    for e in s.effects:
        if e.kind != 'append':
            continue
        o = strip(e.obj)
        for f in ('submap', 'node', 'constraint', 'landmark_poses'):
            if o.op == 'f' and o.a[1] == f and strip(e.val).op == 'obj':
                objs[f + '_entry'] = e.val
        if unify(pat(S + '[$i].id'), canon(e.val), {}) is not None:
            objs['unfinished'] = e.obj
    s = renamed(s, objs)
    open_ = 'include_unfinished_submaps || %s[$i].data.submap.insertion_finished_' % S
    def entry(kind, fields, guard, each):
        return [E('write', kind + '_entry' + ('.' + k if k else ''), v, guard=guard, each=each) for k, v in fields.items()]
    changes = lambda e: e.kind in ('write', 'append', 'mutate', 'return') and not (isinstance(e.obj, Term) and (e.obj.op == 'obj' or target(e.obj).op == 'obj'))
    lists = lambda e: e.kind == 'append' and show(strip(e.obj)).endswith('.trajectory')
    # every trajectory which is not deleted is listed, first and in order; the others only if they are not listed yet
    got = [e for e in s.effects if lists(e)]
    ctx.match(R, s, lambda e: lists(e) and e.seq == min(x.seq for x in got), [
        E('append', 'result.trajectory', 'traj_of(%s[$i].first)' % ST, guard='%s[$i].second != DELETED && !(%s[$i].first in index)' % (ST, ST), each=[ST])])
    ctx.match(R, s, lambda e: lists(e) and e.seq > min(x.seq for x in got), [
        E('append', 'result.trajectory', 'traj_of(%s[$i].id.trajectory_id)' % X, guard='!(%s[$i].id.trajectory_id in index)' % X, each=[X], optional=True) for X in (S, N)])
    for x in [e for e in s.effects if e.kind == 'append' and show(strip(e.obj)) == 'index']:
        ctx.match(R, s, lambda e: e is x, [E('append', 'index', 'traj_of($k)', args=['$k'], implies='!($k in index)')])
    ctx.match(R, s, lambda e: changes(e) and not lists(e) and show(strip(e.obj) if e.obj is not None else VOID) != 'index' and not show(strip(e.obj) if e.obj is not None else VOID).endswith('.trajectory_id'), [
        E('append', 'unfinished', S + '[$i].id', guard='!(%s)' % open_, each=[S]),
        E('append', 'traj_of(%s[$i].id.trajectory_id).submap' % S, 'submap_entry', guard=open_, each=[S]),
        E('append', 'traj_of(%s[$i].id.trajectory_id).node' % N, 'node_entry', guard='true', each=[N]),
        E('append', 'result.constraint', 'constraint_entry', guard='include_unfinished_submaps || !(%s[$i].submap_id in unfinished)' % C, each=[C]),
        E('append', 'result.landmark_poses', 'landmark_poses_entry', guard='true', each=[L])]
        + entry('submap', {'submap_index': S + '[$i].id.submap_index', 'pose': 'ToProto(%s[$i].data.pose)' % S}, open_, [S])
        + entry('node', {'node_index': N + '[$i].id.node_index', 'timestamp': 'ToUniversal(%s[$i].data.constant_data.time)' % N, 'pose': 'ToProto(%s[$i].data.global_pose)' % N}, 'true', [N])
        + entry('constraint', {'': 'ToProto(%s[$i])' % C}, 'include_unfinished_submaps || !(%s[$i].submap_id in unfinished)' % C, [C])
        + entry('landmark_poses', {'landmark_id': L + '[$i].first', 'global_pose': 'ToProto(%s[$i].second)' % L}, 'true', [L])
        + [E('return', val='result', guard='true', each=[])])


def wire(ctx, R, p, f, x, path, out, names, more):
    """An enumerator is stored as its number in the message definition and read back as itself."""
    es = [E('write', val=str(k) if out else n, guard='%s == %s' % (x, n if out else k)) for k, n in enumerate(names)]
    ctx.result(R, p, f, dict({path: es}, **more))


def parts(ctx, p):
    """The messages inside: nodes, constraints, tags, sensor ids; and back."""
    R = 'stored-parts-read-back'
    T = lambda t: lambda f: t in p.ptypes(f)[0]
    TP, FP = 'mapping::ToProto', 'mapping::FromProto'
    op = [x for x in OP if not x.startswith('mapping::')]
    for f in p.overloads(TP) + p.overloads(FP):
        t, x = p.ptypes(f)[0], f['params'][0]['n']
        out = f['sqn'] == TP
        if 'Constraint' in t and 'Tag' in t:
            wire(ctx, R, p, f, x, '', out, ('INTRA_SUBMAP', 'INTER_SUBMAP'), {})
        elif 'SensorId' in t:
            wire(ctx, R, p, f, x + '.type', 'type', out, ('RANGE', 'IMU', 'ODOMETRY', 'FIXED_FRAME_POSE', 'LANDMARK', 'LOCAL_SLAM_RESULT'), {'id': E('write', val=x + '.id')})
        elif 'RepeatedPtrField' in t:
            c = x + '[$i]'
            d = {'': E('append', val='elem()', guard='true', each=[x])}
            for k, v in (('submap_id.trajectory_id',) * 2, ('submap_id.submap_index',) * 2, ('node_id.trajectory_id',) * 2, ('node_id.node_index',) * 2, ('pose.zbar_ij', 'ToRigid3(relative_pose)'),
                         ('pose.translation_weight', 'translation_weight'), ('pose.rotation_weight', 'rotation_weight'), ('tag', 'FromProto(tag)')):
                v = v.replace('(', '(' + c + '.') if '(' in v else c + '.' + v
                d['[_].' + k] = E('write', val=v, guard='true', each=[x])
            ctx.result(R, p, f, d, opaque=OP)
        elif 'Constraint' in t:
            ctx.result(R, p, f, {'relative_pose': 'ToProto(%s.pose.zbar_ij)' % x, 'translation_weight': x + '.pose.translation_weight', 'rotation_weight': x + '.pose.rotation_weight',
                       'submap_id.trajectory_id': x + '.submap_id.trajectory_id', 'submap_id.submap_index': x + '.submap_id.submap_index', 'node_id.trajectory_id': x + '.node_id.trajectory_id',
                       'node_id.node_index': x + '.node_id.node_index', 'tag': 'ToProto(%s.tag)' % x}, opaque=OP)
        elif 'TrajectoryNode' in t and out:
            d = {'timestamp': 'ToUniversal(%s.time)' % x, 'gravity_alignment': 'ToProto(%s.gravity_alignment)' % x, 'local_pose': 'ToProto(%s.local_pose)' % x}
            for c in ('filtered_gravity_aligned_point_cloud', 'high_resolution_point_cloud', 'low_resolution_point_cloud'):
                d[c] = 'CompressedPointCloud(%s.%s).ToProto()' % (x, c)
            h = x + '.rotational_scan_matcher_histogram'
            d['rotational_scan_matcher_histogram'] = E('append', val=h + '[$i]', guard='true', each=['..%s.size()' % h])
            ctx.result(R, p, f, d, opaque=op)
        elif 'TrajectoryNode' in t:
            d = {'time': 'FromUniversal(%s.timestamp)' % x, 'gravity_alignment': 'ToEigen(%s.gravity_alignment)' % x, 'local_pose': 'ToRigid3(%s.local_pose)' % x}
            for c in ('filtered_gravity_aligned_point_cloud', 'high_resolution_point_cloud', 'low_resolution_point_cloud'):
                d[c] = 'CompressedPointCloud(%s.%s).Decompress()' % (x, c)
            h = x + '.rotational_scan_matcher_histogram'
            d['rotational_scan_matcher_histogram'] = 'Matrix(|%s|)' % h
            t = ctx.result(R, p, f, d, opaque=op)
            ctx.match(R, t, lambda e: e.kind == 'write' and strip(e.obj).op == 'at', [E('write', '$m[$i]', h + '[$i]', guard='true', each=['..|%s|' % h])])
    # the builder's own state: what it saves is its pose graph and all its options
    B = 'mapping::MapBuilder::'
    ctx.spec('builder-saves-its-state', p, B + 'SerializeState', [
        E('call', name='WritePbStream', args=['this.pose_graph_', 'this.all_trajectory_builder_options_', 'writer', 'include_unfinished_submaps'], guard='true')], opaque=['WritePbStream'])
    s = ctx.summarise(p, p.fn(B + 'SerializeStateToFile'), opaque=['WritePbStream', 'ProtoStreamWriter::'])
    ctx.spec_on('builder-saves-its-state', s, [
        E('call', name='WritePbStream', args=['this.pose_graph_', 'this.all_trajectory_builder_options_', '$w', 'include_unfinished_submaps'], guard='true', tag='w'),
        E('call', '$w', name='ProtoStreamWriter::Close', guard='true', tag='c'),
        E('return', val='$w.Close()', guard='true')], rel=any_of(of_kind('return'), calls('WritePbStream', 'Close')), order=['w<c'])


def check(ctx):
    p = ctx.program(*TUS)
    stream(ctx, p)
    pose_graph(ctx, p)
    parts(ctx, p)


if __name__ == '__main__':
    main('P19', check, 'effect summaries of the serialisation code: components of every record, loops covering every element, order',
         'each record of the stream contains every component of what it stands for, for every element, in the order the reader needs', tus=TUS)
