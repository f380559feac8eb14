#!/usr/bin/env python3
"""Loading a saved state restores all of it under new trajectory ids, used consistently."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

TUS = ['mapping/map_builder.cc', 'io/serialization_format_migration.cc']
OP = ['transform::', 'sensor::ToProto', 'sensor::FromProto', 'mapping::ToProto', 'mapping::FromProto', '^io::(?!Migrate)', 'LuaParameterDictionary', 'CreateMapBuilderOptions', 'PoseGraph[23]D::', 'ThreadPool']
SENSOR = (('ImuData', 'imu_data'), ('OdometryData', 'odometry_data'), ('FixedFramePoseData', 'fixed_frame_pose_data'), ('LandmarkData', 'landmark_data'))


def objects(s, sub, node):
    """The local objects of a loader by their roles."""
    objs = {}
    for e in s.effects:
        if e.kind == 'append':
            v = canon(e.val)
            if unify(pat('emplaced({submap_index=_, trajectory_id=_}, %s)' % sub), v, {}) is not None:
                objs['submap_poses'] = e.obj
            elif unify(pat('emplaced({node_index=_, trajectory_id=_}, %s)' % node), v, {}) is not None:
                objs['node_poses'] = e.obj
        elif e.kind == 'call' and e.name.endswith('ReadNextSerializedData'):
            objs['record'] = e.args[0]
    return objs


def load(ctx, p):
    s = ctx.summarise(p, p.fn('mapping::MapBuilder::LoadState'), opaque=OP)
    D = 'ProtoStreamDeserializer(reader)'
    PG = D + '.pose_graph()'
    TR = PG + '.trajectory'
    objs = objects(s, 'ToRigid3(%s[$i].submap[$k].pose)' % TR, 'ToRigid3(%s[$i].node[$k].pose)' % TR)
    ret = one([e for e in s.effects if e.kind == 'return'], 'return of LoadState')
    objs['remap'] = ret.val
    for n in ('submap_poses', 'node_poses', 'record'):
        ctx.need(objs.get(n), n)
    copies = {target(e.obj): e for e in s.effects if e.kind == 'write' and show(strip(e.obj)).endswith('.trajectory_id') and root_path(target(e.obj))[0].op == 'obj'}
    # the new id is the number of builders before this one is added
    add = [e for e in s.effects if e.kind == 'append' and show(strip(e.obj)) == 'this.trajectory_builders_']
    for e in s.effects:
        if e.kind == 'append' and target(e.obj) is target(objs['remap']) or e.kind == 'write' and target(e.obj).op == 'at' and target(e.obj).a[0] is target(objs['remap']):
            v = stripcast(e.val)
            ok = strip(v) is size(build(pat('this.trajectory_builders_'), {}, {})) and add and (v.op != 'v' or v.a[1] < min(a.seq for a in add))
            ctx.ob('new-id-is-the-next-free', '%s (%s)' % (s.fn['sqn'], e.where()), ok, 'mapped to %s' % v)
    # poses are filed under the new ids
    for e in s.effects:
        if e.kind == 'append' and target(e.obj) in (target(objs['submap_poses']), target(objs['node_poses'])):
            key = e.args[0]
            t = dict(key.a[1]).get('trajectory_id') if key.op == 'struct' else None
            ctx.ob('poses-filed-under-new-ids', '%s (%s)' % (s.fn['sqn'], e.where()), t is not None and relabelled(s, t, e, TR, objs['remap']), 'filed under %s' % t)
    s = renamed(s, objs)
    R = 'everything-restored'
    new = '|this.trajectory_builders_|'
    all_ = dict(guard='true', each=['..|%s|' % TR])
    more = '%s.ReadNextSerializedData(record)' % D
    got = lambda k: '%s && case(record, data) == k%s' % (more, k)
    live = lambda k: '!load_frozen_state && ' + got(k)
    P = 'this.pose_graph_'
    C = PG + '.constraint'
    sid = lambda m: 'remap[record.%s.trajectory_id]' % m
    exp = [
        E('append', 'this.trajectory_builders_', tag='new', **all_),
        E('append', 'this.all_trajectory_builder_options_', D + '.all_trajectory_builder_options().options_with_sensor_ids[$i]', tag='new', **all_),
        E('append', 'remap', new, args=[TR + '[$i].trajectory_id'], tag='remap', **all_),
        E('write', '$c.trajectory[$i].trajectory_id', new, tag='relabel', **all_),
        E('write', '$c.constraint[$i].submap_id.trajectory_id', 'remap[%s[$i].submap_id.trajectory_id]' % C, guard='true', each=[C], tag='crelabel'),
        E('write', '$c.constraint[$i].node_id.trajectory_id', 'remap[%s[$i].node_id.trajectory_id]' % C, guard='true', each=[C], tag='crelabel'),
        E('append', 'submap_poses', 'emplaced({submap_index=%s[$i].submap[$k].submap_index, trajectory_id=_}, ToRigid3(%s[$i].submap[$k].pose))' % (TR, TR), guard='true', each=[TR, TR + '[$i].submap'], tag='poses'),
        E('append', 'node_poses', 'emplaced({node_index=%s[$i].node[$k].node_index, trajectory_id=_}, ToRigid3(%s[$i].node[$k].pose))' % (TR, TR), guard='true', each=[TR, TR + '[$i].node'], tag='poses'),
        E('write', 'record.submap.submap_id.trajectory_id', sid('submap.submap_id'), guard=got('Submap'), tag='rs'),
        E('write', 'record.node.node_id.trajectory_id', sid('node.node_id'), guard=got('Node'), tag='rn'),
        E('write', 'record.trajectory_data.trajectory_id', sid('trajectory_data'), guard=got('TrajectoryData'), tag='rt'),
        E('return', val='remap', guard='true', facts=['reader.eof()'])]
    exp += [
        E('call', P, name='FreezeTrajectory', args=[new], guard='load_frozen_state', each=['..|%s|' % TR], tag='freeze'),
        E('call', P, name='SetLandmarkPose', args=[PG + '.landmark_poses[$i].landmark_id', 'ToRigid3(%s.landmark_poses[$i].global_pose)' % PG, 'true'], guard='true', each=[PG + '.landmark_poses']),
        E('call', P, name='AddSubmapFromProto', args=['submap_poses[{submap_index=record.submap.submap_id.submap_index, trajectory_id=%s}]' % sid('submap.submap_id'), 'record.submap'], guard=got('Submap'), tag='sub'),
        E('call', P, name='AddNodeFromProto', args=['node_poses[{node_index=record.node.node_id.node_index, trajectory_id=%s}]' % sid('node.node_id'), 'record.node'], guard=got('Node'), tag='node'),
        E('call', P, name='SetTrajectoryDataFromProto', args=['record.trajectory_data'], guard=got('TrajectoryData'), tag='data'),
        E('call', P, name='AddNodeToSubmap', args=['{node_index=%s[$i].node_id.node_index, trajectory_id=%s[$i].node_id.trajectory_id}' % (C, C),
                                                   '{submap_index=%s[$i].submap_id.submap_index, trajectory_id=%s[$i].submap_id.trajectory_id}' % (C, C)],
          guard='load_frozen_state && %s[$i].tag == 0' % C, each=[C], tag='cons'),
        E('call', P, name='AddSerializedConstraints', args=['FromProto(%s)' % C], guard='!load_frozen_state', each=[], tag='cons')]
    for n, f in SENSOR:
        exp.append(E('call', P, name='Add' + n, args=[sid(f), 'FromProto(record.%s.%s)' % (f, f)], guard=live(n), tag='sensor'))
    call = lambda e: e.kind == 'call' and isinstance(e.obj, Term) and show(strip(e.obj)) == P
    ctx.spec_on(R, s, exp, rel=any_of(of_kind('write', 'append', 'return'), call),
                order=['remap<relabel', 'relabel<poses', 'remap<crelabel', 'crelabel<cons', 'rs<sub', 'rn<node', 'rt<data', 'poses<sub', 'poses<node', 'sub<cons', 'node<cons', 'freeze<sub'])
    # constraints added with their new ids
    for e in s.effects:
        if e.kind == 'call' and e.name.endswith(('AddNodeToSubmap', 'AddSerializedConstraints')):
            for a in e.args:
                ts = [x for n, x in a.a[1] if n == 'trajectory_id'] if a.op == 'struct' else [a]
                for t in ts:
                    ctx.ob('constraints-use-new-ids', '%s (%s)' % (s.fn['sqn'], e.where()), any(x.op == 'v' for x in subterms(t)) or 'remap' in show(strip(t)), 'trajectory %s of the file is used' % t)
    ctx.ob('duplicate-trajectory-refused', s.fn['sqn'], any(e.kind == 'assert' and unify(pat('!(%s[$i].trajectory_id in remap)' % TR), canon(e.val), {}) is not None and len(e.loops) == 1 for e in s.effects),
           'a file naming a trajectory twice is accepted')
    ctx.ob('3d-without-histograms-refused', s.fn['sqn'], enforced(s, '!this.options_.use_trajectory_builder_3d || %s.header().format_version != 1' % D), 'a 3D state of format version 1 is accepted')
    f = ctx.summarise(p, p.fn('mapping::MapBuilder::LoadStateFromFile'), opaque=OP + ['MapBuilder::LoadState$'])
    ctx.spec_on('file-loaded-whole', f, [E('return', val='this.LoadState(ProtoStreamReader(state_filename), load_frozen_state)', guard='true')], rel=of_kind('return'))


def relabelled(s, t, e, TR, remap):
    """An id after relabelling: read again after it was overwritten, or looked up in the map of new ids."""
    if t.op == 'v' and unify(pat(TR + '[$i].trajectory_id'), canon(t), {}) is not None:
        w = [x for x in s.effects if x.kind == 'write' and unify(pat('$c.trajectory[$i].trajectory_id'), strip(target(x.obj)), {}) is not None and x.seq < e.seq]
        return bool(w)
    return unify(pat('$m[%s[$i].trajectory_id]' % TR), canon(t), {}) is not None and target(stripv(t).a[0]) is target(remap)


def migrate(ctx, p):
    F1, F2 = 'io::MigrateStreamVersion1ToVersion2', 'io::MigrateSubmapFormatVersion1ToVersion2'
    s = ctx.summarise(p, p.fn(F1), opaque=OP + ['MigrateSubmap', 'ConfigurationFile'])
    D = 'ProtoStreamDeserializer(input)'
    PG = D + '.pose_graph()'
    TR = PG + '.trajectory'
    objs = objects(s, 'ToRigid3(%s[$i].submap[$k].pose)' % TR, 'ToRigid3(%s[$i].node[$k].pose)' % TR)
    for n in ('submap_poses', 'node_poses', 'record'):
        ctx.need(objs.get(n), n)
    for e in s.effects:
        if e.kind == 'append' and strip(e.val).op == 'mk' and target(strip(e.val).a[-1]) in (F(target(objs['record']), 'submap'), F(target(objs['record']), 'node')):
            objs[target(strip(e.val).a[-1]).a[1] + 's'] = e.obj
        if e.kind == 'append' and unify(pat(D + '.all_trajectory_builder_options().options_with_sensor_ids[$i]'), canon(e.val), {}) is not None:
            objs['options'] = e.obj
    s = renamed(s, objs)
    R = 'migration-keeps-everything'
    got = lambda k: '%s.ReadNextSerializedData(record) && case(record, data) == k%s' % (D, k)
    C = PG + '.constraint'
    same = lambda e: e.kind == 'write' and isinstance(e.val, Term) and target(e.val) is target(e.obj)
    nid, sid = '{node_index=record.node.node_id.node_index, trajectory_id=record.node.node_id.trajectory_id}', '{submap_index=record.submap.submap_id.submap_index, trajectory_id=record.submap.submap_id.trajectory_id}'
    tid = TR + '[$i].trajectory_id'
    G = 'PoseGraph3D(_, _, _)'
    call = lambda e: e.kind == 'call' and (isinstance(e.obj, Term) and strip(e.obj).op == 'mk' and strip(e.obj).a[0].endswith('PoseGraph3D') or e.name.split('::')[-1] in ('WritePbStream', 'MigrateSubmapFormatVersion1ToVersion2'))
    v1 = '%s.header().format_version == 1' % D
    mig = '%s ? MigrateSubmapFormatVersion1ToVersion2(submaps, nodes, %s) : submaps' % (v1, PG)
    exp = [
        E('append', 'options', D + '.all_trajectory_builder_options().options_with_sensor_ids[$i]', guard='true', each=['..|%s|' % TR]),
        E('append', 'submap_poses', 'emplaced({submap_index=%s[$i].submap[$k].submap_index, trajectory_id=%s}, ToRigid3(%s[$i].submap[$k].pose))' % (TR, tid, TR), guard='true', each=[TR, TR + '[$i].submap']),
        E('append', 'node_poses', 'emplaced({node_index=%s[$i].node[$k].node_index, trajectory_id=%s}, ToRigid3(%s[$i].node[$k].pose))' % (TR, tid, TR), guard='true', each=[TR, TR + '[$i].node']),
        E('call', G, name='SetLandmarkPose', args=[PG + '.landmark_poses[$i].landmark_id', 'ToRigid3(%s.landmark_poses[$i].global_pose)' % PG, 'true'], guard='true', each=[PG + '.landmark_poses']),
        E('append', 'submaps', 'emplaced(%s, record.submap)' % sid, guard=got('Submap')),
        E('append', 'nodes', 'emplaced(%s, record.node)' % nid, guard=got('Node'), optional=True),
        E('call', G, name='AddNodeFromProto', args=['node_poses[%s]' % nid, 'record.node'], guard=got('Node'), tag='node'),
        E('call', G, name='SetTrajectoryDataFromProto', args=['record.trajectory_data'], guard=got('TrajectoryData'), tag='data'),
        E('call', G, name='AddSubmapFromProto', args=['submap_poses[(%s)[$i].id]' % mig, '(%s)[$i].data' % mig], guard='true', each=[mig], tag='sub'),
        E('call', G, name='AddSerializedConstraints', args=['FromProto(%s)' % C], guard='true', each=[], tag='cons'),
        E('call', name='MigrateSubmapFormatVersion1ToVersion2', args=['submaps', 'nodes', PG], guard='%s.header().format_version == 1' % D, each=[], tag='mig'),
        E('call', name='WritePbStream', args=[G, 'options', 'output', 'include_unfinished_submaps'], guard='true', each=[], facts=['input.eof()'], tag='out')]
    for n, f in SENSOR:
        exp.append(E('call', G, name='Add' + n, args=['record.%s.trajectory_id' % f, 'FromProto(record.%s.%s)' % (f, f)], guard=got(n), tag='data'))
    ctx.spec_on(R, s, exp, rel=any_of(lambda e: e.kind in ('write', 'append') and not same(e), call),
                order=['node<sub', 'mig<sub', 'sub<cons', 'cons<out', 'data<out'])
    # histograms: of every node inserted into a submap, turned into the submap's frame, summed per bucket
    t = ctx.summarise(p, p.fn(F2), opaque=OP + ['RotateHist'])
    K = 'pose_graph_proto.constraint[$i]'
    n3 = '(|submap_id_to_submap| != 0 && !has_(submap_id_to_submap[0].data.submap_2d) && %s.tag == 0)' % K
    N = 'FromProto(node_id_to_node[{node_index=%s.node_id.node_index, trajectory_id=%s.node_id.trajectory_id}].node_data)' % (K, K)
    M = '[{submap_index=%s.submap_id.submap_index, trajectory_id=%s.submap_id.trajectory_id}].submap_3d' % (K, K)
    H = 'RotateHistogram(%s.rotational_scan_matcher_histogram, GetYaw(ToRigid3(submap_id_to_submap%s.local_pose).inverse().rotation() @ %s.local_pose.rotation() @ %s.gravity_alignment.inverse()))' % (N, M, N, N)
    h = '.rotational_scan_matcher_histogram'
    first = '|submap_id_to_submap%s%s| == 0' % (M, h)
    each = ['pose_graph_proto.constraint', '..%s.size()' % H]
    ctx.spec_on('histograms-summed', t, [
        E('append', '$o%s%s' % (M, h), H + '[$k]', guard=n3 + ' && ' + first, each=each, casts=True),
        E('write', '$o%s%s[$k]' % (M, h), 'submap_id_to_submap%s%s[$k] + %s[$k]' % (M, h, H), guard=n3 + ' && !(%s)' % first, each=each, casts=True)],
        rel=lambda e: e.kind in ('write', 'append', 'mutate'))
    for e in t.effects:
        if e.kind == 'return':
            ctx.ob('histograms-summed', '%s (%s)' % (t.fn['sqn'], e.where()), unify(pat('submap_id_to_submap'), canon(e.val), {}) is not None, 'returns %s' % e.val)


def check(ctx):
    p = ctx.program(*TUS)
    load(ctx, p)
    migrate(ctx, p)


if __name__ == '__main__':
    main('P20', check, 'effect summaries of the loader and the migration: every record kind, id remapping, order, versions of ids', 
         'loading hands every part of the stream to the pose graph exactly once, under the new trajectory ids', tus=TUS)
