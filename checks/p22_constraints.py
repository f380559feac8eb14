#!/usr/bin/env python3
"""Constraint search: every search of a node finishes before the node counts, the result reports each match once, and a match becomes one constraint between the searched pair."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

D = 'mapping/internal/constraints/'
TUS = [D + 'constraint_builder_2d.cc', D + 'constraint_builder_3d.cc']
OP = ['Task::', 'Metric', 'FastCorrelative', 'CeresScanMatcher', 'Rigid[23]::', 'transform::', 'Histogram', 'FixedRatioSampler']
M = ['this.mutex_']
MT = 'this.submap_scan_matchers_[submap_id]'
NEW = 'submap_id in this.submap_scan_matchers_'


def check(ctx):
    for d in (2, 3):
        p = ctx.program(TUS[d - 2])
        B = 'mapping::constraints::ConstraintBuilder%dD::' % d
        S = lambda n, op=(): ctx.summarise(p, p.fn(B + n), opaque=OP + list(op))
        state(ctx, p, B, d)
        searches(ctx, p, B, d, S)
        matching(ctx, p, B, d, S)
        done(ctx, p, B, d, S)


def state(ctx, p, B, d):
    # pointers into these containers are kept by running searches
    for f, kinds in (('constraints_', ('std::deque', 'std::list')), ('submap_scan_matchers_', ('std::map', 'std::unordered_map'))):
        for r in p.rec_by_qn.get(B[:-2], []):
            for x in r['fields']:
                if x['n'] == f:
                    t = r['T'][x['t']]
                    ctx.ob('slots-stay-in-place', '%s (%s:%d)' % (B + f, r['file'], x['l']), t.startswith(kinds) or 'unique_ptr<SubmapScan' in t, 'elements of a %s move while searches hold pointers to them' % t)
    for f in p.overloads(B[:-2] + '::ConstraintBuilder%dD' % d):
        if f.get('implicit') or len(f['params']) != 2:
            continue
        o = 'ceres_scan_matcher_options' + ('' if d == 2 else '_3d')
        s = ctx.summarise(p, f, opaque=OP)
        ctx.final('starts-idle', p, None, {'this.options_': 'options', 'this.thread_pool_': 'thread_pool', 'this.num_started_nodes_': '0', 'this.num_finished_nodes_': '0', 'this.when_done_': 'null',
                                           'this.ceres_scan_matcher_': 'CeresScanMatcher%dD(options.%s)' % (d, o)}, s=s)
        ctx.match('starts-idle', s, on_fields('finish_node_task_', 'when_done_task_'), [E('write', 'this.finish_node_task_', '$a', guard='true'), E('write', 'this.when_done_task_', '$b', guard='true')])


def searches(ctx, p, B, d, S):
    """One slot, one search and one dependency of the node's task per accepted pair."""
    for name, glob in (('MaybeAddConstraint', False), ('MaybeAddGlobalConstraint', True)):
        s = S(name, ['ComputeConstraint'])
        if glob:
            g = 'true'
        else:
            far = 'initial_relative_pose.translation().norm()' if d == 2 else '(global_node_pose.translation() - global_submap_pose.translation()).norm()'
            near = far + ' <= this.options_.max_constraint_distance'
            g = near + ' && this.per_submap_sampler_[submap_id].Pulse()'
            ctx.match('sampled-per-submap', s, any_of(on_fields('per_submap_sampler_'), calls('Pulse')), [
                E('append', 'this.per_submap_sampler_', 'this.options_.sampling_ratio', args=['submap_id'], guard=near, tag='a'), E('call', 'this.per_submap_sampler_[submap_id]', name='Pulse', guard=near, tag='p')], where=B + name)
        tasks = {}
        for e in s.effects:
            if e.kind == 'call' and e.name.endswith('SetWorkItem') and e.obj is not None:
                tasks[target(e.obj)] = ctx.closure(s, e.args[0])
        comp = [t for t, c in tasks.items() if any(x.kind == 'call' and x.name.endswith('ComputeConstraint') for x in c.effects)]
        make = [t for t in tasks if t not in comp]
        ctx.ob('one-search-per-pair', B + name, len(comp) == 1 and len(make) == 1, 'not one search task (%d) and one matcher task (%d)' % (len(comp), len(make)))
        if len(comp) != 1 or len(make) != 1:
            continue
        a = (['submap_id', 'submap', 'node_id'] if d == 2 else ['submap_id', 'node_id']) + ['true' if glob else 'false', 'constant_data']
        if glob:
            a += ['Rigid2::Identity()'] if d == 2 else ['Rigid3::Rotation(global_node_rotation)', 'Rigid3::Rotation(global_submap_rotation)']
        else:
            a += ['initial_relative_pose'] if d == 2 else ['global_node_pose', 'global_submap_pose']
        ctx.match('one-search-per-pair', tasks[comp[0]], lambda e: e.kind in ('call', 'write', 'append', 'mutate') and not e.name.startswith('transform::'), [
            E('call', 'this', name='ComputeConstraint', args=a + [MT, 'last(this.constraints_)'], guard=g, nolocks=M)], where=B + name)
        r = renamed(s, {'search': comp[0], 'matcher': make[0]})
        n = '%s && !(%s)' % (g, NEW) if g != 'true' else '!(%s)' % NEW
        has_ = '%s && %s' % (g, NEW) if g != 'true' else NEW
        is_task = lambda e: e.kind == 'call' and e.name.split('::')[-1] in ('AddDependency', 'Schedule', 'SetWorkItem') or e.kind in ('write', 'append', 'mutate') and not on_fields('per_submap_sampler_')(e)
        grids = [E('write', MT + '.grid', 'submap.grid_', guard=n, locks=M)] if d == 2 else [
            E('write', MT + '.high_resolution_hybrid_grid', 'submap.high_resolution_hybrid_grid_', guard=n, locks=M), E('write', MT + '.low_resolution_hybrid_grid', 'submap.low_resolution_hybrid_grid_', guard=n, locks=M)]
        ctx.spec_on('node-waits-for-its-searches', r, grids + [
            E('append', 'this.constraints_', '_', guard=g, locks=M, tag='slot'),
            E('call', 'matcher', name='SetWorkItem', guard=n, tag='mw'), E('call', 'this.thread_pool_', name='Schedule', args=['matcher'], guard=n, tag='ms'),
            E('write', MT + '.creation_task_handle', 'this.thread_pool_.Schedule(matcher)', guard=n, locks=M),
            E('call', 'search', name='SetWorkItem', guard=g, tag='sw'),
            E('call', 'search', name='AddDependency', args=['this.thread_pool_.Schedule(matcher)'], guard=n, tag='d1'),
            E('call', 'search', name='AddDependency', args=[MT + '.creation_task_handle'], guard=has_, tag='d2'),
            E('call', 'this.thread_pool_', name='Schedule', args=['search'], guard=g, tag='ss'),
            E('call', 'this.finish_node_task_', name='AddDependency', args=['this.thread_pool_.Schedule(search)'], guard=g, locks=M)],
            rel=is_task, order=['mw<ms', 'sw<ss', 'd1<ss', 'd2<ss'])
        # the matcher of a submap is made once, from its own grids
        fc = 'FastCorrelativeScanMatcher%dD(%s)' % (d, MT + '.grid, this.options_.fast_correlative_scan_matcher_options' if d == 2 else
                                                    '{0}.high_resolution_hybrid_grid, {0}.low_resolution_hybrid_grid, submap.rotational_scan_matcher_histogram_, this.options_.fast_correlative_scan_matcher_options_3d'.format(MT))
        c = constructed(tasks[make[0]], 'FastCorrelativeScanMatcher%dD' % d)
        own = fc.replace(MT + '.grid', 'submap.grid_').replace(MT + '.high_resolution_hybrid_grid', 'submap.high_resolution_hybrid_grid_').replace(MT + '.low_resolution_hybrid_grid', 'submap.low_resolution_hybrid_grid_')
        ctx.trial(lambda alt: ctx.match('one-matcher-per-submap', c, of_kind('write', 'append', 'mutate', 'call'), [E('write', MT + '.fast_correlative_scan_matcher', alt(fc), stale_ok=True)], where=B + name) or True, lambda x: own)


def matching(ctx, p, B, d, S):
    s = S('ComputeConstraint')
    fn = B + 'ComputeConstraint'
    ms = [e for e in s.effects if e.kind == 'call' and e.name.split('::')[-1] in ('Match', 'MatchFullSubmap')]
    full, local, fine = [[e for e in ms if e.name.endswith(x)] for x in ('D::MatchFullSubmap', 'FastCorrelativeScanMatcher%dD::Match' % d, 'CeresScanMatcher%dD::Match' % d)]
    ctx.ob('match-makes-one-constraint', fn, len(full) == len(local) == len(fine) == 1, 'not one search of either kind and one refinement')
    if not (len(full) == len(local) == len(fine) == 1):
        return
    mm = 'submap_scan_matcher.fast_correlative_scan_matcher'
    out = renamed(constructed(s, 'Constraint'), {'pose': fine[0].args[-2]})
    ctx.match('match-makes-one-constraint', s, lambda e: e.kind == 'assert' and not e.guard, [E('assert', val=mm + ' != null', guard='true', optional=True)], where=fn)
    if d == 2:
        found = 'match_full_submap && %s.MatchFullSubmap(_, _, _, _) || !match_full_submap && %s.Match(_, _, _, _, _)' % (mm, mm)
        pc = 'constant_data.filtered_gravity_aligned_point_cloud'
        sp = 'Project2D(submap.local_pose_)'
        want = [E('call', mm, name='MatchFullSubmap', args=[pc, 'this.options_.global_localization_min_score', '_', 'pose'], guard='match_full_submap', casts=True, nolocks=M),
                E('call', mm, name='Match', args=[sp + ' @ initial_relative_pose', pc, 'this.options_.min_score', '_', 'pose'], guard='!match_full_submap', casts=True, nolocks=M),
                E('call', 'this.ceres_scan_matcher_', name='Match', args=['pose.translation()', 'pose', pc, 'submap_scan_matcher.grid', 'pose', '_'], guard=found, stale_ok=True, nolocks=M)]
        rel = 'Embed3D(%s.inverse() @ pose)' % sp
    else:
        f, l = '%s.MatchFullSubmap(_, _, _, _)' % mm, '%s.Match(_, _, _, _)' % mm
        found = 'match_full_submap && %s != null || !match_full_submap && %s != null' % (f, l)
        want = [E('call', mm, name='MatchFullSubmap', args=['global_node_pose.rotation()', 'global_submap_pose.rotation()', 'constant_data', 'this.options_.global_localization_min_score'], guard='match_full_submap', casts=True, nolocks=M),
                E('call', mm, name='Match', args=['global_node_pose', 'global_submap_pose', 'constant_data', 'this.options_.min_score'], guard='!match_full_submap', casts=True, nolocks=M),
                E('call', 'this.ceres_scan_matcher_', name='Match', args=['$m.pose_estimate.translation()', '$m.pose_estimate', '$pts', 'pose', '_'], guard=found, nolocks=M)]
        rel = 'pose'
    ctx.match('match-makes-one-constraint', out, lambda e: e.kind == 'call' and e.name.split('::')[-1] in ('Match', 'MatchFullSubmap'), want, where=fn)
    w = [e for e in out.effects if e.kind == 'write' and show(strip(e.obj)) == 'constraint']
    ctx.match('match-makes-one-constraint', out, lambda e: e in w, [
        E('write', 'constraint', 'Constraint({submap_id=submap_id, node_id=node_id, pose={zbar_ij=%s, translation_weight=this.options_.loop_closure_translation_weight, '
          'rotation_weight=this.options_.loop_closure_rotation_weight}, tag=INTER_SUBMAP})' % rel, guard=found, stale_ok=True, nolocks=M)], where=fn)
    for e in w:
        ctx.ob('match-makes-one-constraint', fn, out.effects.index(e) > max(i for i, x in enumerate(out.effects) if x.kind == 'call' and x.name.endswith('CeresScanMatcher%dD::Match' % d)),
               'the constraint is made before the refinement')
    # scores below the threshold never get here
    for what, opt in (('match_full_submap', 'global_localization_min_score'), ('!match_full_submap', 'min_score')):
        bad = [e for e in s.effects if e.kind == 'assert' and opt in show(strip(e.val)).split('.')[-1] + show(strip(e.val)) and strip(e.val).op == 'lt' and show(strip(strip(e.val).a[0])).endswith('options_.' + opt)]
        ctx.ob('score-above-threshold', fn, len(bad) == 1, 'a match whose score does not exceed %s is not refused' % opt)
    hist = [e for e in s.effects if e.kind == 'call' and e.name.endswith('Histogram::Add')]
    ctx.ob('guarded-state', fn, hist and all('this.mutex_' in [show(strip(x)) for x in e.locks] for e in hist), 'the score histogram is changed without the lock')
    if d == 3 and fine:
        pts = strip(fine[0].args[2])
        want = ['{point_cloud=constant_data.%s_resolution_point_cloud, hybrid_grid=submap_scan_matcher.%s_resolution_hybrid_grid, intensity_hybrid_grid=null}' % (x, x) for x in ('high', 'low')]
        ctx.ob('match-makes-one-constraint', fn, len(pts.a) >= 2 and [unify(pat(w), canonc(x), {}) is not None for w, x in zip(want, [x for x in pts.a if isinstance(x, Term)])] == [True, True],
               'the refinement does not match each cloud in the grid of its resolution: ' + show(pts)[:300])


def done(ctx, p, B, d, S):
    # a node counts as finished after all its searches, the result is handed over after all nodes
    s = S('NotifyEndOfNode')
    fn = B + 'NotifyEndOfNode'
    ft = 'this.finish_node_task_'
    ctx.spec_on('node-waits-for-its-searches', s, [
        E('call', ft, name='SetWorkItem', guard='true', locks=M, tag='w'), E('call', 'this.thread_pool_', name='Schedule', args=[ft], guard='true', locks=M, tag='s'),
        E('write', ft, '$n', guard='true', locks=M, tag='new'),
        E('call', 'this.when_done_task_', name='AddDependency', args=['this.thread_pool_.Schedule(%s)' % ft], guard='true', locks=M, stale_ok=True), E('write', 'this.num_started_nodes_', '1 + this.num_started_nodes_', guard='true', locks=M)],
        rel=any_of(of_kind('write', 'append', 'mutate'), calls('AddDependency', 'Schedule', 'SetWorkItem')), order=['w<s'])
    for e in s.effects:
        if e.kind == 'call' and e.name.endswith('SetWorkItem'):
            ctx.match('node-waits-for-its-searches', ctx.closure(s, e.args[0]), of_kind('write', 'call', 'append', 'mutate'), [
                E('write', 'this.num_finished_nodes_', '1 + this.num_finished_nodes_', guard='true', locks=M, stale_ok=True)], where=fn)
    fresh(ctx, s, 'finish_node_task_')
    s = S('WhenDone', ['RunWhenDoneCallback'])
    wt = 'this.when_done_task_'
    ctx.refuses('result-after-all-nodes', s, 'this.when_done_ == null', 'a second callback is accepted while one is waiting')
    ctx.spec_on('result-after-all-nodes', s, [
        E('write', 'this.when_done_', '$c', guard='true', locks=M, tag='cb'), E('call', wt, name='SetWorkItem', guard='true', locks=M, tag='w'),
        E('call', 'this.thread_pool_', name='Schedule', args=[wt], guard='true', locks=M, tag='s'), E('write', wt, '$n', guard='true', locks=M, tag='new')],
        rel=any_of(of_kind('write', 'append', 'mutate'), calls('AddDependency', 'Schedule', 'SetWorkItem')), order=['w<s'])
    for e in s.effects:
        if e.kind == 'write' and show(strip(e.obj)) == 'this.when_done_':
            ctx.ob('result-after-all-nodes', B + 'WhenDone', 'callback' in show(sources_of(e.val)) or any(show(strip(x)) == 'callback' for x in subterms(e.val)) or
                   any(x.kind in ('new', 'write', 'call') and x.obj is not None and target(x.obj) is target(e.val) and any('callback' == show(strip(a)) for a in (x.args or ()) + ((x.val,) if x.val is not None else ()))
                       for x in s.effects), 'what is kept is not the given callback: ' + brief(e)[:200])
        if e.kind == 'call' and e.name.endswith('SetWorkItem'):
            ctx.match('result-after-all-nodes', ctx.closure(s, e.args[0]), of_kind('write', 'call', 'append', 'mutate', 'invoke'), [E('call', 'this', name='RunWhenDoneCallback', guard='true')], where=B + 'WhenDone')
    fresh(ctx, s, 'when_done_task_')
    s = S('RunWhenDoneCallback')
    fn = B + 'RunWhenDoneCallback'
    iv = [e for e in s.effects if e.kind == 'invoke']
    ctx.ob('result-after-all-nodes', fn, len(iv) == 1 and len(iv[0].args) == 1 and not iv[0].guard and not iv[0].loops, 'the callback is not called exactly once')
    if len(iv) == 1 and len(iv[0].args) == 1:
        r = renamed(s, {'result': iv[0].args[0]})
        ctx.spec_on('result-after-all-nodes', r, [
            E('append', 'result', 'this.constraints_[$i]', guard='this.constraints_[$i] != null', each=['this.constraints_'], locks=M, tag='all'),
            E('mutate', 'this.constraints_', name='clear', guard='true', locks=M, tag='clear'), E('write', 'this.when_done_', 'null', guard='true', locks=M, tag='reset', optional=True),
            E('invoke', 'this.when_done_', args=['result'], guard='true', nolocks=M, stale_ok=True, tag='cb')],
            rel=any_of(on_fields('constraints_', 'when_done_', 'num_started_nodes_', 'num_finished_nodes_', 'finish_node_task_', 'when_done_task_'), lambda e: e.kind == 'append' and show(strip(e.obj)) == 'result', of_kind('invoke')),
            order=['all<clear', 'clear<cb'])
        gone = any(e.kind == 'write' and show(strip(e.obj)) == 'this.when_done_' for e in s.effects) or any(e.kind == 'mutate' and show(strip(e.obj)) == 'this.when_done_' for e in s.effects)
        ctx.ob('result-after-all-nodes', fn, gone, 'the callback stays set')
    ctx.match('node-waits-for-its-searches', S('GetNumFinishedNodes'), of_kind('return'), [E('return', val='this.num_finished_nodes_', guard='true', locks=M)])
    ctx.spec_on('one-matcher-per-submap', S('DeleteScanMatcher'), [
        E('mutate', 'this.submap_scan_matchers_', name='erase', args=['submap_id'], guard='true', locks=M), E('mutate', 'this.per_submap_sampler_', name='erase', args=['submap_id'], guard='true')],
        rel=of_kind('mutate', 'write', 'append'))
    s = S('~ConstraintBuilder%dD' % d)
    held = [x for e in s.effects if e.kind == 'assert' and not e.guard for v in [canonc(e.val)] for x in (v.a if v.op == 'and' else (v,))]
    for c in ('|this.constraints_| == 0', 'this.num_started_nodes_ == this.num_finished_nodes_', 'this.when_done_ == null'):
        ctx.ob('result-after-all-nodes', s.fn['sqn'], any(unify(pat(c), x, {}) is not None for x in held), 'a builder with work pending is destroyed: %s is not checked' % c)
    ctx.frame('guarded-state', p, B[:-2], ['constraints_', 'num_started_nodes_', 'num_finished_nodes_', 'when_done_', 'finish_node_task_', 'when_done_task_'],
              ['MaybeAddConstraint', 'MaybeAddGlobalConstraint', 'NotifyEndOfNode', 'WhenDone'])


def sources_of(t):
    return strip(t)


def fresh(ctx, s, field):
    for e in s.effects:
        if e.kind == 'write' and show(strip(e.obj)) == 'this.' + field:
            ctx.ob('node-waits-for-its-searches', s.fn['sqn'], strip(e.val).op == 'obj', 'the next task is not a new one: ' + brief(e)[:200])


if __name__ == '__main__':
    main('P22', check, 'task-graph and value-flow summaries of the constraint builders',
         'every search is a dependency of its node, every node of the result; each match yields one constraint in its own slot', tus=TUS)
