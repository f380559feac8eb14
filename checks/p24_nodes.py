#!/usr/bin/env python3
"""Adding a node: it and its submaps get consistent ids and poses, one intra-submap constraint per insertion, and it is searched against exactly the finished submaps it is not part of."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *
from pgraph import *

D = 'this.data_.'
OPT = 'this.optimization_problem_'
TRAJ = 'traj(%s.submap_data(), trajectory_id)' % OPT


def check(ctx):
    for d in (2, 3):
        g = Graph(ctx, d)
        add(ctx, g)
        submaps(ctx, g)
        search(ctx, g)
        pair(ctx, g)
        times(ctx, g)


def add(ctx, g):
    d = g.d
    R = 'node-added-once'
    s = g.s('AddNode')
    fn = s.fn['sqn']
    new = '|traj(this.data_.submap_data, trajectory_id)| == 0 || last(traj(this.data_.submap_data, trajectory_id)).data.submap != last(insertion_submaps)'
    app = [e for e in s.effects if e.kind == 'append' and show(strip(e.obj)).endswith('data_.trajectory_nodes')]
    ret = [e for e in s.effects if e.kind == 'return']
    ctx.ob(R, fn, len(app) == 1 and len(ret) == 1, 'not one node per call')
    if len(app) != 1 or len(ret) != 1:
        return
    r = renamed(s, {'id': ret[0].val})
    ctx.match(R, s, lambda e: state()(e) and not e.name.endswith(('::AddWorkItem', '::GetLocalToGlobalTransform')) if e.kind == 'call' else state()(e), [
        E('call', 'this', name='AddTrajectoryIfNeeded', args=['trajectory_id'], guard='true', locks=M),
        E('append', D + 'trajectory_nodes', 'emplaced(trajectory_id, {constant_data=constant_data, global_pose=this.GetLocalToGlobalTransform(trajectory_id) @ constant_data.local_pose})', guard='true', locks=M),
        E('write', D + 'num_trajectory_nodes', '1 + this.data_.num_trajectory_nodes', guard='true', locks=M),
        E('append', D + 'submap_data', 'emplaced(trajectory_id, $data)', guard=new, locks=M),
        E('write', D + 'submap_data[_].submap', 'last(insertion_submaps)', guard=new, locks=M, stale_ok=True, optional=True)], where=fn)
    # the submap itself: set in the data before it is stored, or where it is stored
    data = [strip(e.val).a[-1] for e in s.effects if e.kind == 'append' and show(strip(e.obj)).endswith('data_.submap_data') and strip(e.val).op == 'mk' and strip(e.val).a[0] == 'emplaced']
    put = [e for e in s.effects if e.kind == 'write' and strip(e.obj).op == 'f' and strip(e.obj).a[1] == 'submap' and (strip(e.obj).a[0] in [strip(x) for x in data] or 'data_.submap_data' in show(strip(e.obj)))]
    given = [dict(strip(x).a[1]).get('submap') for x in data if strip(x).op == 'struct']
    ctx.ob(R, fn, any(unify(pat('last(insertion_submaps)'), canonc(x), {}) is not None for x in [e.val for e in put] + [y for y in given if y is not None]), 'a new submap is stored without its data')
    for e in put:
        if 'data_.submap_data' in show(strip(e.obj)):
            k = strip(e.obj).a[0]
            ctx.ob(R, fn, unify(pat('this.data_.submap_data.Append(trajectory_id, _)'), canonc(k.a[1]), {}) is not None, 'the submap is kept under another id than its own: ' + show(k)[:160])
    ctx.ob(R, fn, unify(pat('this.data_.trajectory_nodes.Append(trajectory_id, _)'), canonc(ret[0].val), {}) is not None, 'the id returned is not that of the new node')
    it = g.items(s, R)
    ctx.ob(R, fn, len(it) == 1 and not it[0][0].guard and not it[0][0].loops and not it[0][0].locks, 'the node is not handed to the queue exactly once')
    for e, c in it:
        # whether the submap was finished is decided now, not when the item runs
        c = renamed(c, {'id': ret[0].val})
        ctx.match(R, under_params(s, c), of_kind('call', 'write', 'append', 'mutate', 'invoke'),
                  [E('call', 'this', name='ComputeConstraintsForNode', args=['id', 'insertion_submaps', 'insertion_submaps[0].insertion_finished_'], guard='true', nolocks=M)], where=fn)
        x = [y for y in c.effects if y.kind == 'call' and y.name.endswith('ComputeConstraintsForNode')]
        ctx.ob(R, fn, bool(x) and captured_early(s, e, x[0].args[2]), 'whether the submap is finished is looked up when the item runs')
        ctx.match(R, under_params(s, c), of_kind('return'), [E('return', val='this.ComputeConstraintsForNode(_, _, _)', guard='true')], where=fn)
    # order: the node is in place before its item
    i = s.effects.index
    for e, c in it:
        ctx.ob(R, fn, i(app[0]) < i(e), 'the item is queued before the node is stored')
    s = g.s('AddTrajectoryIfNeeded')
    ctx.match(R, s, state(), [
        E('call', D + 'trajectory_connectivity_state', name='Add', args=['trajectory_id'], guard='true'),
        E('write', 'this.global_localization_samplers_[trajectory_id]', '_', guard='this.global_localization_samplers_[trajectory_id] == null'),
        E('append', D + 'trajectories_state', '_', args=['trajectory_id'], optional=True), E('mutate', D + 'trajectories_state', optional=True)])
    T = 'this.data_.trajectories_state[trajectory_id]'
    for c in (T + '.state != FINISHED', T + '.state != DELETED', T + '.deletion_state == NORMAL'):
        ctx.ob(R, s.fn['sqn'], any(e.kind == 'assert' and not e.guard and any(unify(pat(c), x, {}) is not None for x in conj(canonc(e.val))) for e in s.effects), 'a node is added to a trajectory that ended: %s is not checked' % c)
    s2 = constructed(s, 'FixedRatioSampler')
    for e in s2.effects:
        if e.kind == 'write' and 'global_localization_samplers_' in show(strip(e.obj)):
            ctx.ob(R, s.fn['sqn'], unify(pat('FixedRatioSampler(this.options_.global_sampling_ratio)'), canonc(e.val), {}) is not None, 'global searches are sampled with another ratio: ' + show(strip(e.val))[:120])


def captured_early(s, e, v):
    """The captured value was computed before the item was queued: it is not read again inside."""
    lam = next((x for x in subterms(strip(e.args[0])) if x.op == 'lam'), None)
    if lam is None:
        return False
    node = s.it.lams[lam.a[0]][0]
    names = set()

    def walk(n):
        if isinstance(n, dict):
            if n.get('k') in ('call', 'mcall', 'member') and str(n.get('n', n.get('name', ''))).startswith('insertion_finished'):
                names.add(1)
            if 'insertion_finished' in str(n.get('f', '')):
                names.add(1)
            for x in n.values():
                walk(x)
        elif isinstance(n, list):
            for x in n:
                walk(x)
    walk(node['body'])
    return not names


def under_params(s, c):
    import copy as _c
    r = _c.copy(c)
    r.params = list(s.params) + list(c.params)
    return r


def conj(f):
    return [y for x in f.a for y in conj(x)] if f.op == 'and' else [f]


def submaps(ctx, g):
    d = g.d
    R = 'submap-ids-and-poses'
    s = listed(g.s('InitializeGlobalSubmapPoses'))
    one, two = '|insertion_submaps| == 1', '|insertion_submaps| != 1'
    first = '%s && |%s| == 0' % (one, TRAJ)
    last = 'last(%s).id' % TRAJ
    new = '%s && insertion_submaps[0] == this.data_.submap_data[%s].submap' % (two, last)
    old = '%s && insertion_submaps[0] != this.data_.submap_data[%s].submap' % (two, last)
    pose = 'this.ComputeLocalToGlobalTransform(this.data_.global_submap_poses_%dd, trajectory_id) @ insertion_submaps[0].local_pose_' % d
    rel = 'ComputeSubmapPose(insertion_submaps[0]).inverse() @ ComputeSubmapPose(insertion_submaps[1])' if d == 2 else 'insertion_submaps[0].local_pose_.inverse() @ insertion_submaps[1].local_pose_'
    ctx.match(R, s, lambda e: state()(e) and not e.name.endswith('ComputeLocalToGlobalTransform') if e.kind == 'call' else state()(e), [
        E('call', D + 'trajectory_connectivity_state', name='Connect', args=['trajectory_id', 'this.data_.initial_trajectory_poses[trajectory_id].to_trajectory_id', 'time'], guard=first + ' && trajectory_id in this.data_.initial_trajectory_poses'),
        E('call', OPT, name='AddSubmap', args=['trajectory_id', 'Project2D(%s)' % pose if d == 2 else pose], guard=first, stale_ok=True),
        E('call', OPT, name='AddSubmap', args=['trajectory_id', '%s.submap_data()[%s].global_pose @ %s' % (OPT, last, rel)], guard=new)])
    # insertion_submaps has one or two elements; the ids returned are those of exactly these submaps
    ctx.match(R, s, of_kind('return'), [
        E('return', val='list({trajectory_id=trajectory_id, submap_index=0})', guard=one),
        E('return', val='list(%s, {trajectory_id=trajectory_id, submap_index=1 + %s.submap_index})' % (last, last), guard=new, stale_ok=True),
        E('return', val='list({trajectory_id=trajectory_id, submap_index=-1 + %s.submap_index}, %s)' % (last, last), guard=old)])
    for c, gd in (('this.data_.submap_data[{trajectory_id=trajectory_id, submap_index=0}].submap == insertion_submaps[0]', one), ('|insertion_submaps| == 2', two),
                  ('this.data_.submap_data[%s].submap == last(insertion_submaps)' % last, old),
                  ('this.data_.submap_data[{trajectory_id=trajectory_id, submap_index=-1 + %s.submap_index}].submap == insertion_submaps[0]' % last, old)):
        ctx.ob(R, s.fn['sqn'], any(e.kind == 'assert' and unify(pat(c), canonc(e.val), {}) is not None for e in s.effects), 'submaps in another order are accepted: %s is not checked' % c)


def search(ctx, g):
    d = g.d
    R = 'node-searched'
    s = g.s('ComputeConstraintsForNode')
    fn = s.fn['sqn']
    ini = [e for e in s.effects if e.kind == 'call' and e.name.endswith('InitializeGlobalSubmapPoses')]
    loc = [e for e in s.effects if e.kind == 'call' and e.name.endswith('::ComputeConstraint')]
    ctx.ob(R, fn, len(ini) == 1 and len(loc) == 2, 'not one placement and two kinds of search')
    if len(ini) != 1 or len(loc) != 2:
        return
    node = 'this.data_.trajectory_nodes[node_id].constant_data'
    lists = {}
    for e in loc:
        if len(e.loops) == 1 and e.loops[0].C is not None and strip(e.loops[0].C).op == 'obj':
            lists['finished'] = e.loops[0].C
    r = renamed(s, dict(lists, ids=ini[0].ret))
    if d == 2:
        lp = 'Project2D(%s.local_pose @ Rigid3::Rotation(%s.gravity_alignment.inverse()))' % (node, node)
        inv = 'ComputeSubmapPose(insertion_submaps[%s]).inverse()'
        spec = '{time=%s.time, local_pose_2d=%s, global_pose_2d=%s.submap_data()[ids[0]].global_pose @ %s @ %s, gravity_alignment=%s.gravity_alignment}' % (node, lp, OPT, inv % '0', lp, node)
        zb = 'Embed3D(%s @ %s)' % (inv % '$i', lp)
    else:
        lp = node + '.local_pose'
        inv = 'insertion_submaps[%s].local_pose_.inverse()'
        spec = '{time=%s.time, local_pose=%s, global_pose=%s.submap_data()[ids[0]].global_pose @ %s @ %s}' % (node, lp, OPT, inv % '0', lp)
        zb = '%s @ %s' % (inv % '$i', lp)
    N = '..|insertion_submaps|'
    con = '{submap_id=ids[$i], node_id=node_id, tag=INTRA_SUBMAP, pose={zbar_ij=%s, translation_weight=this.options_.matcher_translation_weight, rotation_weight=this.options_.matcher_rotation_weight}}' % zb
    fin = 'this.data_.submap_data[$i].data.state == kFinished'
    many = [E('call', 'this', name='ComputeConstraint', args=['node_id', 'finished[$i]'], guard='true', each=['finished'], nolocks=M, tag='s1')]
    if 'finished' in lists:
        many.append(E('append', 'finished', 'this.data_.submap_data[$i].id', guard=fin, each=['this.data_.submap_data'], locks=M, tag='all', stale_ok=True))
    ctx.spec_on(R, r, [
        E('call', 'this', name='InitializeGlobalSubmapPoses', args=['node_id.trajectory_id', node + '.time', 'insertion_submaps'], guard='true', locks=M, tag='ini'),
        E('call', OPT, name='AddTrajectoryNode', args=['ids[0].trajectory_id', spec], guard='true', locks=M, tag='node', stale_ok=True),
        E('append', D + 'submap_data[ids[$i]].node_ids', 'node_id', guard='true', each=[N], locks=M, tag='in', stale_ok=True),
        E('append', D + 'constraints', con, guard='true', each=[N], locks=M, stale_ok=True),
        E('write', D + 'submap_data[ids[0]].state', 'kFinished', guard='newly_finished_submap', locks=M, tag='fin', stale_ok=True),
        E('call', 'this', name='ComputeConstraint', args=[OPT + '.node_data()[$i].id', 'ids[0]'], guard='newly_finished_submap && !(%s.node_data()[$i].id in $set)' % OPT, each=[OPT + '.node_data()'], nolocks=M, tag='s2', stale_ok=True),
        E('call', 'this.constraint_builder_', name='NotifyEndOfNode', guard='true', nolocks=M, tag='end'),
        E('write', 'this.num_nodes_since_last_loop_closure_', '1 + this.num_nodes_since_last_loop_closure_', guard='true', locks=M)] + many,
        rel=lambda e: state()(e) or e.kind == 'append' and show(strip(e.obj)) == 'finished',
        order=['ini<node', 'node<s1', 's1<end', 's2<end', 'in<fin', 'fin<s2'] + (['all<fin'] if 'finished' in lists else []))
    # nodes of the submap itself are left out of its search
    for e in r.effects:
        if e.kind == 'call' and e.name.endswith('::ComputeConstraint') and show(strip(e.args[0])) != 'node_id':
            sets = [strip(x.a[0]) for f in e.guard for x in subterms(strip(f)) if x.op == 'has']
            ok = sets and all(any(show(strip(y)) == 'this.data_.submap_data[ids[0]].node_ids' for y in alts(t)) for t in sets)
            ctx.ob(R, fn, bool(ok), 'the nodes skipped are not those of the submap')
    n1 = '1 + this.num_nodes_since_last_loop_closure_'
    every = 'this.options_.optimize_every_n_nodes'
    ctx.match(R, r, of_kind('return'), [E('return', val='kRunOptimization', guard='%s > 0 && %s > %s' % (every, n1, every), stale_ok=True),
                                        E('return', val='kDoNotRunOptimization', guard='!(%s > 0 && %s > %s)' % (every, n1, every), stale_ok=True)])


def alts(t):
    return [y for x in t.a[1:] for y in alts(strip(x))] if t.op == 'ite' else [t]


def pair(ctx, g):
    d = g.d
    R = 'pair-searched'
    s = g.s('ComputeConstraint')
    sub = 'this.data_.submap_data[submap_id]'
    node = 'this.data_.trajectory_nodes[node_id].constant_data'
    done = sub + '.submap.insertion_finished_'
    recent = 'node_id.trajectory_id == submap_id.trajectory_id || this.GetLatestNodeTime(node_id, submap_id) < this.data_.trajectory_connectivity_state.LastConnectionTime(node_id.trajectory_id, submap_id.trajectory_id) + ' \
             'FromSeconds(this.options_.global_constraint_search_after_n_seconds)'
    pulse = 'this.global_localization_samplers_[node_id.trajectory_id].Pulse()'
    gs, gn = OPT + '.submap_data()[submap_id].global_pose', OPT + '.node_data()[node_id].global_pose' + ('_2d' if d == 2 else '')
    base = ['submap_id', sub + '.submap', 'node_id', node]
    local_ = base + (['%s.inverse() @ %s' % (gs, gn)] if d == 2 else [gn, gs])
    glob = base + ([] if d == 2 else [gn + '.rotation()', gs + '.rotation()'])
    ctx.match(R, s, lambda e: e.kind == 'call' and e.name.split('::')[-1] in ('MaybeAddConstraint', 'MaybeAddGlobalConstraint', 'Pulse') or e.kind in ('write', 'append', 'mutate') and state()(e), [
        E('call', 'this.constraint_builder_', name='MaybeAddConstraint', args=local_, guard='%s && (%s)' % (done, recent), nolocks=M, stale_ok=True),
        E('call', 'this.constraint_builder_', name='MaybeAddGlobalConstraint', args=glob, guard='%s && !(%s) && %s' % (done, recent, pulse), nolocks=M, stale_ok=True),
        E('call', 'this.global_localization_samplers_[node_id.trajectory_id]', name='Pulse', guard='%s && !(%s)' % (done, recent), locks=M, stale_ok=True)])
    ctx.ob(R, s.fn['sqn'], any(e.kind == 'assert' and not e.guard and unify(pat(sub + '.state == kFinished'), canonc(e.val), {}) is not None for e in s.effects), 'an unfinished submap is searched')


def times(ctx, g):
    R = 'connection-times'
    s = g.s('GetLatestNodeTime')
    t = 'this.data_.trajectory_nodes[%s].constant_data.time'
    ids = 'this.data_.submap_data[submap_id].node_ids'
    ctx.match(R, s, of_kind('return'), [E('return', val=t % 'node_id', guard='|%s| == 0' % ids), E('return', val='max(%s, %s)' % (t % 'node_id', t % '$last'), guard='|%s| != 0' % ids)])
    for e in s.effects:
        if e.kind == 'return':
            for x in subterms(strip(e.val)):
                if x.op in ('max',) or x.op == 'call' and 'max' in x.a[0]:
                    keys = [y for y in subterms(x) if y.op == 'at' and show(y.a[0]) == 'this.data_.trajectory_nodes']
                    ctx.ob(R, s.fn['sqn'], all(show(strip(y.a[1])) == 'node_id' or show(strip(y.a[1])) in ('rbegin(%s)' % ids, 'last(%s)' % ids) or 'rbegin' in show(y.a[1]) or 'last' in show(y.a[1]) for y in keys),
                           'the time is not that of the last node of the submap')
    ctx.match(R, g.s('UpdateTrajectoryConnectivity'), any_of(state(), lambda e: e.kind == 'assert'), [
        E('assert', val='constraint.tag == INTER_SUBMAP', optional=True),
        E('call', D + 'trajectory_connectivity_state', name='Connect', args=['constraint.node_id.trajectory_id', 'constraint.submap_id.trajectory_id', 'this.GetLatestNodeTime(constraint.node_id, constraint.submap_id)'], guard='true'),
        E('call', 'this', name='GetLatestNodeTime', optional=True)])
    s = g.s('SetInitialTrajectoryPose')
    ctx.match(R, s, state(), [E('write', D + 'initial_trajectory_poses[from_trajectory_id]', '{to_trajectory_id=to_trajectory_id, relative_pose=pose, time=time}', guard='true', locks=M)])


if __name__ == '__main__':
    main('P24', check, 'effect and value-flow summaries of node insertion and constraint search',
         'ids, poses and constraints of a new node and its submaps, and the set of searches it starts, for every history', tus=TUS)
