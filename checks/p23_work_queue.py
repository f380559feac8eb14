#!/usr/bin/env python3
"""Pose graph work queue: every change becomes one work item, run once, in order, with the lock its data needs; waiting waits for all of it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *
from pgraph import *

NO, RUN = 'kDoNotRunOptimization', 'kRunOptimization'
CAN = 'this.CanAddWorkItemModifying(%s)'
DATA = 'this.data_.'


def check(ctx):
    for d in (2, 3):
        g = Graph(ctx, d)
        queue(ctx, g)
        drain(ctx, g)
        handle(ctx, g)
        wait(ctx, g)
        changes(ctx, g)


def body_is(ctx, rule, s, lam, want, where):
    """The closure does what is wanted and nothing else."""
    e = next(x for x in s.effects if x.kind == 'call' and lam in x.args)
    c = relative(s, ctx.closure(s, lam), e)
    ctx.match(rule, c, any_of(state(), of_kind('call', 'invoke')), want, where=where)


def queue(ctx, g):
    s = g.s('AddWorkItem')
    fn = g.cls + '::AddWorkItem'
    new = 'this.work_queue_ == null'
    made = [e for e in s.effects if e.kind == 'write' and show(strip(e.obj)) == 'this.work_queue_']
    task = [e for e in s.effects if e.kind == 'call' and e.name.endswith('Task::SetWorkItem')]
    ctx.ob('one-drainer', fn, len(made) == 1 and len(task) == 1 and strip(made[0].val).op == 'obj', 'not one new queue and one task when there is none')
    if len(made) != 1 or len(task) != 1:
        return
    r = renamed(s, {'queue': made[0].val, 'task': target(task[0].obj)})
    item = '{task=work_item, time=_}'
    ctx.spec_on('one-drainer', r, [
        E('write', 'this.work_queue_', 'queue', guard=new, locks=W), E('call', 'task', name='SetWorkItem', guard=new, tag='w'),
        E('call', 'this.thread_pool_', name='Schedule', args=['task'], guard=new, locks=W, tag='s'),
        E('append', 'queue', item, guard=new, locks=W), E('append', 'this.work_queue_', item, guard='!(%s)' % new, locks=W)],
        rel=lambda e: e.kind in ('write', 'append', 'mutate') and not (e.kind == 'write' and target(e.obj).op in ('loc',)) or e.kind == 'call' and e.name.split('::')[-1] in ('SetWorkItem', 'Schedule', 'AddDependency'),
        order=['w<s'])
    ctx.owns('one-drainer', s, task[0].args[0])
    body_is(ctx, 'one-drainer', s, task[0].args[0], [E('call', 'this', name='DrainWorkQueue', guard='true')], fn)
    # nobody else touches the queue; what does holds its lock
    for m in g.p.methods_of(g.cls):
        if m.get('implicit') or m.get('ctor') or m['n'] == short(g.cls).split('::')[-1]:
            continue
        x = g.s(m)
        for e in [e for e in x.effects] + [e for u in list(x.it.lams) for e in ctx.closure(x, mk('lam', u)).effects]:
            if on_fields('work_queue_')(e):
                ctx.ob('queue-under-its-lock', '%s (%s:%d)' % (m['sqn'], e.file, e.line), m['n'] in ('AddWorkItem', 'DrainWorkQueue') and 'this.work_queue_mutex_' in [show(strip(l)) for l in e.locks],
                       'changes the queue outside its protocol: ' + brief(e)[:200])
        ctx.ob('queue-under-its-lock', m['sqn'], True, '')


def drain(ctx, g):
    s = g.s('DrainWorkQueue')
    fn = g.cls + '::DrainWorkQueue'
    inv = [e for e in s.effects if e.kind == 'invoke']
    pops = [e for e in s.effects if e.kind == 'mutate' and on_fields('work_queue_')(e)]
    ends = [e for e in s.effects if e.kind == 'write' and show(strip(e.obj)) == 'this.work_queue_']
    whens = [e for e in s.effects if e.kind == 'call' and e.name.endswith('::WhenDone')]
    ctx.ob('in-order-once', fn, len(inv) == len(pops) == len(ends) == len(whens) == 1, 'not one item run and removed per round, one end and one hand-over')
    if not (len(inv) == len(pops) == len(ends) == len(whens) == 1):
        return
    i, q, w, h = inv[0], pops[0], ends[0], whens[0]
    idx = s.effects.index
    names = lambda e: [show(strip(l)) for l in e.locks]
    ctx.ob('in-order-once', fn, short(q.name).split('::')[-1] in ('pop_front', 'erase') and names(q) == W and
           (q.name.endswith('pop_front') or show(strip(q.args[0])) in ('0', 'begin(this.work_queue_)')), 'the item removed is not the first of the queue, under its lock')
    ctx.ob('in-order-once', fn, show(strip(i.obj)) == 'this.work_queue_[0].task', 'the item run is not the first of the queue: ' + show(strip(i.obj)))
    ctx.ob('in-order-once', fn, not i.locks, 'an item runs while a lock is held')
    ctx.ob('in-order-once', fn, i.loops == q.loops and len(i.loops) == 1 and [canon(f) for f in i.guard] == [canon(f) for f in q.guard], 'an item is run without being removed, or removed without being run')
    ctx.ob('in-order-once', fn, strip(w.val).op in ('null', 'nullptr') or show(strip(w.val)) in ('null', 'nullptr'), 'the drained queue stays')
    ctx.ob('in-order-once', fn, names(w) == W, 'the queue is dropped without its lock')
    # emptiness is seen in the same critical section in which the queue is dropped
    ctx.ob('in-order-once', fn, any(unify(pat('|this.work_queue_| == 0'), canonc(x), {}) is not None for f in w.guard for x in conj(f)), 'the queue is dropped while it may hold items')
    ctx.ob('in-order-once', fn, any(unify(pat('|this.work_queue_| != 0'), canonc(x), {}) is not None for f in q.guard for x in conj(f)), 'an item is taken from an empty queue')
    ctx.ob('in-order-once', fn, w.region == q.region if not isinstance(w.region, (list, tuple)) else True, 'two critical sections')
    # the drainer goes on exactly until an item asks for an optimization or the queue is empty
    first, more = goes_on(i.loops[0]) if i.loops else (None, None)
    ok = False
    if more is not None:
        m = canonc(rewrite(strip(more), lambda x: mk('param', 'R') if x is strip(i.ret) else None))
        es = {x.a[0].split('::')[-1]: x for x in subterms(m) if x.op == 'enum'}
        no = es.get('kDoNotRunOptimization') or es.get('kRunOptimization')
        if no is not None:
            want = eq(mk('param', 'R'), no)
            want = want if 'kDoNotRunOptimization' in es else not_(want)
            left = canonc(strip(and_(*[f for f in q.guard if f is not i.loops[0].cond and not any(y.op == 'iter' for y in subterms(f))])))
            cs = set()
            atoms(m, cs)
            atoms(want, cs)
            ax = enum_axioms(cs)
            ok = strip(first) is TRUE and entails([m, left] + ax, want) and entails([want, left] + ax, m)
    ctx.ob('in-order-once', fn, ok, 'the result of an item does not decide whether the next one runs')
    bad = [x for f in i.guard for y in subterms(f) for x in ([y] if y.op == 'iter' else [])]
    for x in bad:
        ctx.ob('in-order-once', fn, 'this.work_queue_[0].task.invoke() == kDoNotRunOptimization' in pshow(canon(x)), 'the drainer goes on after an item asked for an optimization: ' + pshow(canon(x))[:160])
    ctx.ob('in-order-once', fn, not h.loops and not h.locks and show(strip(h.obj)) == 'this.constraint_builder_' and idx(h) > idx(i), 'the constraint search is not asked once for its result after the items')
    ctx.owns('in-order-once', s, h.args[0])
    body_is(ctx, 'in-order-once', s, h.args[0], [E('call', 'this', name='HandleWorkQueue', args=['result'], guard='true')], fn)
    ctx.match('in-order-once', s, state(), [E('mutate', 'this.work_queue_', stale_ok=True), E('write', 'this.work_queue_', 'null', stale_ok=True), E('invoke', 'this.work_queue_[0].task', stale_ok=True),
                                            E('call', 'this.constraint_builder_', name='WhenDone')], where=fn)


def handle(ctx, g):
    s = g.s('HandleWorkQueue')
    cb = 'this.global_slam_optimization_callback_'
    calls_ = [e for e in s.effects if e.kind == 'invoke' and show(strip(e.obj)) == cb]
    ctx.ob('results-before-next-items', g.cls + '::HandleWorkQueue', len(calls_) == 1 and len(calls_[0].args) == 2, 'the optimization callback is not called once')
    if len(calls_) != 1 or len(calls_[0].args) != 2:
        return
    r = renamed(s, {'submaps': calls_[0].args[0], 'nodes': calls_[0].args[1]})
    N, S_ = 'this.optimization_problem_.node_data()', 'this.optimization_problem_.submap_data()'
    tid = 'trajs(%s)[$i]' % N
    full = '|traj(%s, %s)| != 0 && |traj(%s, %s)| != 0 && %s != null' % (N, tid, S_, tid, cb)
    ctx.spec_on('results-before-next-items', r, [
        E('append', DATA + 'constraints', 'result[$i]', guard='true', each=['result'], locks=M, tag='add'),
        E('call', 'this', name='RunOptimization', guard='true', nolocks=M, tag='run'),
        E('append', 'submaps', 'last(traj(%s, %s)).id' % (S_, tid), args=[tid], guard=full, each=['trajs(%s)' % N], locks=M, stale_ok=True),
        E('append', 'nodes', 'last(traj(%s, %s)).id' % (N, tid), args=[tid], guard=full, each=['trajs(%s)' % N], locks=M, stale_ok=True),
        E('invoke', cb, args=['submaps', 'nodes'], guard=cb + ' != null', nolocks=M, tag='cb'),
        E('call', 'this', name='UpdateTrajectoryConnectivity', args=['result[$i]'], guard='true', each=['result'], locks=M, tag='con'),
        E('call', 'this', name='DeleteTrajectoriesIfNeeded', guard='true', locks=M, tag='del'),
        E('call', 'this.trimmers_[$i]', name='Trim', args=['$h'], guard='true', each=['this.trimmers_'], locks=M, tag='trim', stale_ok=True),
        E('mutate', 'this.trimmers_', name='erase', locks=M, tag='drop', stale_ok=True),
        E('write', 'this.num_nodes_since_last_loop_closure_', '0', guard='true', locks=M),
        E('call', 'this', name='DrainWorkQueue', guard='true', nolocks=M, tag='next')],
        rel=lambda e: state()(e) or e.kind == 'append' and show(strip(e.obj)) in ('submaps', 'nodes') or e.kind == 'call' and e.name.endswith('::Trim'),
        order=['add<run', 'run<cb', 'run<del', 'con<del', 'del<trim', 'trim<drop', 'cb<next', 'drop<next', 'run<con'])
    # only finished trimmers go
    for e in s.effects:
        if e.kind == 'mutate' and on_fields('trimmers_')(e):
            if e.loops:
                # one by one: every trimmer is visited and goes if it is finished
                b = unify(pat('this.trimmers_[$i]'), canonc(e.args[0]), {}) if len(e.args) == 1 else None
                l = e.loops[0]
                ctx.ob('results-before-next-items', g.cls + '::HandleWorkQueue', b is not None and len(e.guard) == 1 and unify(pat('this.trimmers_[$i].IsFinished()'), canonc(e.guard[0]), b) is not None,
                       'the trimmers removed are not those that are finished')
                ctx.ob('results-before-next-items', g.cls + '::HandleWorkQueue', len(e.loops) == 1 and l.full() and strip(l.C) is not None and show(strip(l.C)) == 'this.trimmers_' and b is not None and b['i'] is l.idx,
                       'not all finished trimmers are removed: ' + brief(e)[:200])
                continue
            ctx.ob('results-before-next-items', g.cls + '::HandleWorkQueue', not e.guard, 'finished trimmers stay under some condition')
            lam = [x for a in e.args for x in subterms(a) if x.op == 'lam']
            ctx.ob('results-before-next-items', g.cls + '::HandleWorkQueue', len(lam) == 1 and any(x.kind == 'return' and unify(pat('$t.IsFinished()'), canonc(x.val), {}) is not None
                   for x in ctx.closure(s, lam[0]).effects), 'the trimmers removed are not those that are finished')
            ends = [show(strip(y)) for a in e.args for x in subterms(a) if x.op == 'callx' and x.a[0] == 'std::remove_if' for y in kids(x)] + [show(strip(a)) for a in e.args[1:]]
            ctx.ob('results-before-next-items', g.cls + '::HandleWorkQueue', 'begin(this.trimmers_)' in ends and ends.count('end(this.trimmers_)') == 2, 'not all finished trimmers are removed: ' + brief(e)[:200])
    ctx.match('results-before-next-items', g.s('SetGlobalSlamOptimizationCallback'), state(), [E('write', cb, 'callback', guard='true')])


def wait(ctx, g):
    s = g.s('WaitForAllComputations')
    fn = s.fn['sqn']
    aw = [e for e in s.effects if e.kind == 'await']
    wd = [e for e in s.effects if e.kind == 'call' and e.name.endswith('::WhenDone')]
    idx = s.effects.index
    ctx.ob('waiting-waits', fn, len(aw) == 2 and len(wd) == 1, 'not one wait for the queue, one hand-over and one wait for its result')
    if len(aw) == 2 and len(wd) == 1:
        a, b = aw
        ctx.ob('waiting-waits', fn, show(strip(a.obj)) == 'this.work_queue_mutex_' and unify(pat('this.work_queue_ == null'), canonc(a.val), {}) is not None and not a.guard, 'does not wait for an empty queue: ' + brief(a)[:160])
        ctx.ob('waiting-waits', fn, idx(a) < idx(wd[0]) < idx(b), 'waits in another order')
        ctx.ob('waiting-waits', fn, not wd[0].guard and not wd[0].loops and 'this.work_queue_mutex_' not in [show(strip(l)) for l in wd[0].locks], 'the result is not asked for exactly once, with the queue unlocked')
        ctx.ob('waiting-waits', fn, show(strip(b.obj)) == 'this.mutex_' and not b.guard, 'does not wait for the result')
        # what is waited for is set by the result, and starts unset
        c = ctx.closure(s, wd[0].args[0])
        ctx.match('waiting-waits', c, DATAk, [E('append', DATA + 'constraints', 'result[$i]', guard='true', each=['result'], locks=M)], where=fn)
        flags = flag_of(s, b)
        ctx.ob('waiting-waits', fn, flags is not None and flags in sets_true(s, wd[0].args[0]), 'what is waited for is not set by the result')
        ctx.ob('waiting-waits', fn, canon(strip(b.val)) is not TRUE, 'what is waited for holds from the start')
    s = g.s('~PoseGraph%dD' % g.d)
    w = [i for i, e in enumerate(s.effects) if e.kind == 'call' and e.name.endswith('WaitForAllComputations') and not e.guard]
    c = [i for i, e in enumerate(s.effects) if e.kind == 'assert' and 'this.work_queue_mutex_' in [show(strip(l)) for l in e.locks] and unify(pat('this.work_queue_ == null'), canonc(e.val), {}) is not None]
    ctx.ob('waiting-waits', s.fn['sqn'], len(w) == 1 and bool(c) and w[0] < c[0], 'a graph is destroyed while work is pending')
    s = g.s('RunFinalOptimization')
    it = g.items(s, 'waiting-waits')
    fin, back = 'this.options_.max_num_final_iterations', 'this.options_.optimization_problem_options.ceres_solver_options.max_num_iterations'
    ctx.ob('waiting-waits', s.fn['sqn'], len(it) == 2, 'the final optimization is not two work items')
    for (e, c), (n, res) in zip(it, ((fin, RUN), (back, NO))):
        ctx.match('waiting-waits', c, any_of(state(), of_kind('return')), [E('call', 'this.optimization_problem_', name='SetMaxNumIterations', args=[n], guard='true', locks=M), E('return', val=res, guard='true')], where=s.fn['sqn'])
    ctx.ob('waiting-waits', s.fn['sqn'], all(not e.guard and not e.loops and not e.locks for e, c in it), 'the items are not always queued')
    ctx.match('waiting-waits', s, lambda e: state()(e) and not e.name.endswith('::AddWorkItem'), [E('call', 'this', name='WaitForAllComputations', guard='true')], where=s.fn['sqn'])
    last = [e.name.split('::')[-1] for e in s.effects if state()(e)]
    ctx.ob('waiting-waits', s.fn['sqn'], last[-1:] == ['WaitForAllComputations'], 'does not wait for the final optimization')


DATAk = of_kind('write', 'append', 'mutate')


def lam_caps(s, lam):
    for x in subterms(strip(lam)):
        if x.op == 'lam':
            return s.it.lams[x.a[0]]
    return None


def refs_in(n, out):
    if isinstance(n, dict):
        if n.get('k') == 'ref' and n.get('dk') == 'var':
            out.add(n['d'])
        for v in n.values():
            refs_in(v, out)
    elif isinstance(n, list):
        for v in n:
            refs_in(v, out)
    return out


def flag_of(s, e):
    """The local variable the predicate of a wait reads."""
    r = set()
    for u in s.it.lams:
        node = s.it.lams[u][0]
        body = node['body']
        rets = [x for x in body.get('s', [])] if isinstance(body, dict) else []
        if len(rets) == 1:
            ds = refs_in(rets[0], set())
            caps = {c['d'] for c in node['caps'] if c.get('ref') and 'd' in c}
            if ds and ds <= caps:
                r |= ds
    T = s.fn['T']

    def walk(n):
        # a condition on the variable itself
        if isinstance(n, dict):
            if n.get('k') == 'ctor' and n.get('cls') == 'absl::Condition' and len(n.get('args') or ()) == 1:
                todo = [n['args'][0]]
                while todo:
                    x = todo.pop()
                    if isinstance(x, dict):
                        if x.get('k') == 'ref' and 'd' in x and isinstance(x.get('t'), int) and T[x['t']] in ('bool', 'const bool'):
                            r.add(x['d'])
                        todo += list(x.values())
                    elif isinstance(x, list):
                        todo += x
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(s.fn['body'])
    return r.pop() if len(r) == 1 else None


def sets_true(s, lam):
    x = lam_caps(s, lam)
    r = set()

    def walk(n):
        if isinstance(n, dict):
            if n.get('k') in ('bin', 'assign') and n.get('op') == '=':
                lhs, rhs = n.get('l_') or n.get('a') or n.get('lhs'), n.get('r_') or n.get('b') or n.get('rhs')
                if isinstance(lhs, dict) and lhs.get('k') == 'ref':
                    r.add(lhs['d'])
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    if x:
        walk(x[0]['body'])
    return r


def changes(ctx, g):
    """Each public change is one item, guarded by the state of the trajectory, applied under the lock."""
    OPT = 'this.optimization_problem_'
    d = g.d
    ok = CAN % 'trajectory_id'
    nid = '{trajectory_id=node.node_id.trajectory_id, node_index=node.node_id.node_index}'
    sid = '{trajectory_id=submap.submap_id.trajectory_id, submap_index=submap.submap_id.submap_index}'
    P = (lambda x: 'Project2D(%s)' % x) if d == 2 else (lambda x: x)
    o = 'landmark_data.landmark_observations[$i]'
    C_ = 'constraints[$i]'
    node = 'this.data_.trajectory_nodes[%s].constant_data' % nid
    if d == 2:
        gi = 'Rigid3::Rotation(%s.gravity_alignment.inverse())' % node
        spec = '{time=%s.time, local_pose_2d=Project2D(%s.local_pose @ %s), global_pose_2d=Project2D(global_pose @ %s), gravity_alignment=%s.gravity_alignment}' % (node, node, gi, gi, node)
        con = '{{submap_id={0}.submap_id, node_id={0}.node_id, tag={0}.tag, pose={{zbar_ij={0}.pose.zbar_ij @ Rigid3::Rotation(this.data_.trajectory_nodes[{0}.node_id].constant_data.gravity_alignment.inverse()), translation_weight={0}.pose.translation_weight, rotation_weight={0}.pose.rotation_weight}}}}'.format(C_)
        td = '{fixed_frame_origin_in_map=ToRigid3(data.fixed_frame_origin_in_map)}'
    else:
        spec = '{time=%s.time, local_pose=%s.local_pose, global_pose=global_pose}' % (node, node)
        con = C_
        td = '_'
    cs, cn = CAN % 'submap.submap_id.trajectory_id', CAN % 'node.node_id.trajectory_id'
    has = 'has_(submap.submap_%dd)' % d
    frozen = 'has_(data.fixed_frame_origin_in_map)' if d == 2 else 'true'
    T = DATA + 'trajectories_state[trajectory_id]'
    want = {
        'AddImuData': ('true', [E('call', OPT, name='AddImuData', args=['trajectory_id', 'imu_data'], guard=ok, locks=M)], NO),
        'AddOdometryData': ('true', [E('call', OPT, name='AddOdometryData', args=['trajectory_id', 'odometry_data'], guard=ok, locks=M)], NO),
        'AddFixedFramePoseData': ('true', [E('call', OPT, name='AddFixedFramePoseData', args=['trajectory_id', 'fixed_frame_pose_data'], guard=ok, locks=M)], NO),
        'AddLandmarkData': ('true', [E('append', DATA + 'landmark_nodes[%s.id].landmark_observations' % o,
                                       '{trajectory_id=trajectory_id, time=landmark_data.time, landmark_to_tracking_transform=%s.landmark_to_tracking_transform, translation_weight=%s.translation_weight, rotation_weight=%s.rotation_weight}' % (o, o, o),
                                       guard=ok, each=['landmark_data.landmark_observations'], locks=M)], NO),
        'SetLandmarkPose': ('true', [E('write', DATA + 'landmark_nodes[landmark_id].global_landmark_pose', 'global_pose', guard='true', locks=M), E('write', DATA + 'landmark_nodes[landmark_id].frozen', 'frozen', guard='true', locks=M)], NO),
        'AddTrimmer': ('true', [E('append', 'this.trimmers_', 'trimmer', guard='true', locks=M)], NO),
        'AddNodeToSubmap': ('true', [E('append', DATA + 'submap_data[submap_id].node_ids', 'node_id', guard=CAN % 'submap_id.trajectory_id', locks=M)], NO),
        'AddSubmapFromProto': ('%s && %s' % (has, cs), [E('write', DATA + 'submap_data[%s].state' % sid, 'kFinished', guard='true', locks=M), E('call', OPT, name='InsertSubmap', args=[sid, P('global_submap_pose')], guard='true', locks=M)], NO),
        'AddNodeFromProto': (cn, [E('call', OPT, name='InsertTrajectoryNode', args=[nid, spec], guard='true', locks=M)], NO),
        'SetTrajectoryDataFromProto': (frozen, [E('call', OPT, name='SetTrajectoryData', args=['data.trajectory_id', td], guard=CAN % 'data.trajectory_id', locks=M)], NO),
        'AddSerializedConstraints': ('true', [
            E('append', DATA + 'submap_data[%s.submap_id].node_ids' % C_, C_ + '.node_id', guard=C_ + '.tag == INTRA_SUBMAP', each=['constraints'], locks=M),
            E('call', 'this', name='UpdateTrajectoryConnectivity', args=[C_], guard=C_ + '.tag == INTER_SUBMAP', each=['constraints'], locks=M),
            E('append', DATA + 'constraints', con, guard='true', each=['constraints'], locks=M, stale_ok=True)], NO),
    }
    R = 'changes-are-items'
    for name, (guard, effects, res) in want.items():
        s = g.s(name)
        it = g.items(s, R)
        fn = g.cls + '::' + name
        ctx.ob(R, fn, len(it) == 1, 'the change is not one work item (%d)' % len(it))
        if len(it) != 1:
            continue
        e, c = it[0]
        ctx.match(R, s, lambda x: x is e, [E('call', 'this', name='AddWorkItem', guard=guard, nolocks=W)], where=fn)
        ctx.match(R, relative(s, c, e), state(), effects, where=fn)
        ctx.match(R, relative(s, c, e), of_kind('return'), [E('return', val=res, guard='true')], where=fn)
        # nothing else is changed at once, except what shows a loaded submap or node
        if name not in ('AddSubmapFromProto', 'AddNodeFromProto'):
            ctx.match(R, s, lambda x: state()(x) and x is not e, [], where=fn)
    s = g.s('AddSubmapFromProto')
    gd = '%s && %s' % (has, cs)
    ctx.match(R, s, lambda x: state()(x) and not x.name.endswith('AddWorkItem') if x.kind == 'call' else state()(x), [
        E('call', 'this', name='AddTrajectoryIfNeeded', args=['submap.submap_id.trajectory_id'], guard=has, locks=M),
        E('append', DATA + 'submap_data', 'emplaced(%s, $d)' % sid, guard=gd, locks=M), E('write', DATA + 'submap_data[%s].submap' % sid, '_', guard=gd, locks=M, optional=True),
        E('append', DATA + 'global_submap_poses_%dd' % d, 'emplaced(%s, {global_pose=%s})' % (sid, P('global_submap_pose')), guard=gd, locks=M)])
    s2 = constructed(s, 'Submap%dD' % d)
    for e in s2.effects:
        if e.kind == 'write' and e.obj is not None and show(strip(e.obj)).endswith('.submap'):
            ctx.ob(R, s.fn['sqn'], unify(pat('Submap%dD(submap.submap_%dd%s)' % (d, d, ', _' if d == 2 else '')), canonc(e.val), {}) is not None, 'the submap kept is not the loaded one: ' + show(strip(e.val))[:160])
    s = constructed(g.s('AddNodeFromProto'), 'Data')
    ctx.match(R, s, lambda x: state()(x) and not x.name.endswith('AddWorkItem') if x.kind == 'call' else state()(x), [
        E('call', 'this', name='AddTrajectoryIfNeeded', args=['node.node_id.trajectory_id'], guard='true', locks=M),
        E('append', DATA + 'trajectory_nodes', 'emplaced(%s, {global_pose=global_pose})' % nid, guard=cn, locks=M)])
    s = g.s('AddSerializedConstraints')
    for e, c in g.items(s, R):
        for cond in ('%s.node_id in this.data_.trajectory_nodes' % C_, '%s.submap_id in this.data_.submap_data' % C_):
            ctx.ob(R, s.fn['sqn'], any(x.kind == 'assert' and unify(pat(cond), canonc(x.val), {}) is not None for x in c.effects), 'a constraint between unknown nodes or submaps is accepted: ' + cond)


def conj(f):
    f = strip(f)
    return [y for x in f.a for y in conj(x)] if f.op == 'and' else [f]


if __name__ == '__main__':
    main('P23', check, 'typestate and effect summaries of the work queue and of every work item',
         'every change to the pose graph is one work item that runs once, in order and under the lock; waiting waits for all of them', tus=TUS)
