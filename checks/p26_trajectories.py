#!/usr/bin/env python3
"""Trajectory life cycle: a trajectory is active until it is finished or frozen, changes to it are refused from then on or once its deletion is scheduled, and deleting it removes all its submaps before it counts as deleted."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *
from pgraph import *

D = 'this.data_.'
ST = D + 'trajectories_state'
ME = ST + '[trajectory_id].'
KNOWN = 'trajectory_id in ' + ST
CON = D + 'trajectory_connectivity_state'


def check(ctx):
    for d in (2, 3):
        g = Graph(ctx, d)
        states(ctx, g)
        delete(ctx, g)
        finish(ctx, g)
        freeze(ctx, g)
        writers(ctx, g)


def states(ctx, g):
    R = 'states-decide'
    for fn, st in (('IsTrajectoryFinished', 'FINISHED'), ('IsTrajectoryFrozen', 'FROZEN')):
        s = g.s(fn)
        accepts(ctx, R, s, '%s && %sstate == %s' % (KNOWN, ME, st))
        ctx.ob(R, s.fn['sqn'], not [e for e in s.effects if e.kind in ('write', 'append', 'mutate', 'fatal', 'assert') and (e.obj is None or state()(e))], 'asking changes the state or may abort')
    # refused (aborting or answering no) once finished, deleted or being deleted; accepted otherwise
    s = g.s('CanAddWorkItemModifying')
    accepts(ctx, R, s, '!(%s) || %sstate != FINISHED && %sstate != DELETED && %sdeletion_state == NORMAL' % (KNOWN, ME, ME, ME))
    ctx.ob(R, s.fn['sqn'], not [e for e in s.effects if e.kind in ('write', 'append', 'mutate') and state()(e)], 'asking changes the state')
    s = g.s('AddTrajectoryIfNeeded')
    ctx.refuses(R, s, '%sstate != FINISHED && %sstate != DELETED && %sdeletion_state == NORMAL' % (ME, ME, ME), 'a finished or deleted trajectory is added to')


def accepts(ctx, rule, s, cond):
    """The function answers yes exactly under the condition; otherwise it answers no or aborts."""
    m = E('assert')
    rets = [e for e in s.effects if e.kind == 'return']
    ends = [m.st(f) for f in completed(s).facts]
    yes = or_(*[and_(*[m.st(x) for x in v.guard], m.st(v.val)) for e in rets for v in views(e)])
    cand = set()
    for t in ends + [yes]:
        atoms(t, cand)
    want, _ = resolve(build(pat(cond), {}, ctx.names(s)), {}, sorted(cand, key=lambda x: x.id))
    where = '%s (%s:%d)' % (s.fn['sqn'], s.fn.get('file'), s.fn['l'])
    ctx.ob(rule, where, entails(ends + [yes], want), 'accepted although not: ' + cond)
    ctx.ob(rule, where, entails([want], and_(yes, *ends)), 'refused although: ' + cond)


def item(ctx, g, rule, s, want, ret, asserts=()):
    its = g.items(s, rule)
    fn = s.fn['sqn']
    ctx.ob(rule, fn, len(its) == 1, 'not one work item')
    if len(its) != 1:
        return
    e, c = its[0]
    c = relative(s, c, e)
    ctx.match(rule, c, state(), want, where=fn + ' (item)')
    ctx.match(rule, c, of_kind('return'), [E('return', val=ret, guard='true')], where=fn + ' (item)')
    for a, msg in asserts:
        ctx.refuses(rule, c, a, msg)


def delete(ctx, g):
    R = 'deletion-in-two-steps'
    s = g.s('DeleteTrajectory')
    ctx.match(R, s, any_of(state(), calls('AddWorkItem')), [
        E('write', ME + 'deletion_state', 'SCHEDULED_FOR_DELETION', guard=KNOWN, locks=M),
        E('call', 'this', name='AddWorkItem', guard=KNOWN)])
    item(ctx, g, R, s, [E('write', ME + 'deletion_state', 'WAIT_FOR_DELETION', guard='true', locks=M)], 'kDoNotRunOptimization', asserts=[
        ('%sstate != ACTIVE && %sstate != DELETED && %sdeletion_state == SCHEDULED_FOR_DELETION' % (ME, ME, ME), 'a trajectory is deleted that is active, deleted before or not scheduled for deletion')])
    s = g.s('DeleteTrajectoriesIfNeeded')
    it = ST + '[$i]'
    h = [e for e in s.effects if e.kind == 'call' and e.name.endswith('TrimmingHandle::TrimSubmap')]
    ctx.ob(R, s.fn['sqn'], len(h) == 1, 'the submaps of a deleted trajectory are not trimmed at one place')
    if len(h) != 1:
        return
    r = renamed(s, {'handle': target(h[0].obj)})
    w = it + '.second.deletion_state == WAIT_FOR_DELETION'
    ctx.spec_on(R, r, [
        E('call', 'handle', name='TrimSubmap', args=['handle.GetSubmapIds(%s.first)[$j]' % it], guard=w, each=[ST, 'handle.GetSubmapIds(%s.first)' % it], locks=M, tag='trim'),
        E('write', it + '.second.state', 'DELETED', guard=w, each=[ST], locks=M, tag='state', stale_ok=True),
        E('write', it + '.second.deletion_state', 'NORMAL', guard=w, each=[ST], locks=M, tag='normal', stale_ok=True),
        E('write', 'handle.parent_', 'this', guard='true')],
        rel=any_of(state(), calls('TrimSubmap', 'SetTrajectoryState')), order=['trim<state'])


def finish(ctx, g):
    R = 'finished-once'
    s = g.s('FinishTrajectory')
    ctx.match(R, s, any_of(state(), calls('AddWorkItem')), [E('call', 'this', name='AddWorkItem', guard='true')])
    T = 'traj(%ssubmap_data, trajectory_id)' % D
    item(ctx, g, R, s, [
        E('write', ME + 'state', 'FINISHED', guard='true', locks=M),
        E('write', D + 'submap_data[%s[$i].id].state' % T, 'kFinished', guard='true', each=[T], locks=M)], 'kRunOptimization',
        asserts=[('!this.IsTrajectoryFinished(trajectory_id)', 'a trajectory is finished twice')])


def freeze(ctx, g):
    R = 'frozen-once'
    s = g.s('FreezeTrajectory')
    ctx.match(R, s, any_of(state(), calls('AddWorkItem')), [E('call', 'this', name='AddWorkItem', guard='true'), E('call', CON, name='Add', args=['trajectory_id'], guard='true', locks=M)])
    other = ST + '[$i].first'
    item(ctx, g, R, s, [
        E('write', ME + 'state', 'FROZEN', guard='true', locks=M),
        E('call', CON, name='Connect', args=['trajectory_id', other, 'FromUniversal(0)'], each=[ST], locks=M,
          guard='this.IsTrajectoryFrozen(%s) && !%s.TransitivelyConnected(trajectory_id, %s)' % (other, CON, other))], 'kDoNotRunOptimization',
        asserts=[('!this.IsTrajectoryFrozen(trajectory_id)', 'a trajectory is frozen twice')])


ALLOWED = {'DeleteTrajectory', 'DeleteTrajectoriesIfNeeded', 'FinishTrajectory', 'FreezeTrajectory', 'SetTrajectoryState', 'AddTrajectoryIfNeeded'}


def writers(ctx, g):
    """Nobody else changes the state of a trajectory."""
    R = 'states-change-here-only'
    ms = [(m, g.cls) for m in g.p.methods_of(g.cls)] + [(m, g.cls + '::TrimmingHandle') for m in g.p.methods_of(g.cls + '::TrimmingHandle')]
    for m, c in ms:
        if m.get('implicit') or m.get('ctor'):
            continue
        x = g.s(m, cls=c)
        n = 0
        for s_ in [x] + [ctx.closure(x, mk('lam', u)) for u in list(x.it.lams)]:
            for e in s_.effects:
                if e.kind in ('write', 'append', 'mutate') and on_fields('trajectories_state')(e) and state()(e):
                    n += 1
                    if m['n'] not in ALLOWED:
                        ctx.ob(R, '%s (%s:%d)' % (m['sqn'], e.file, e.line), False, 'changes the state of a trajectory: ' + brief(e)[:200])
        ctx.ob(R, m['sqn'], True, '')
    H = g.cls + '::TrimmingHandle'
    s = g.s('SetTrajectoryState', cls=H)
    ctx.match(R, s, DATA, [E('write', 'this.parent_.data_.trajectories_state[trajectory_id].state', 'state', guard='true')])


if __name__ == '__main__':
    main('P26', check, 'typestate and effect summaries of the trajectory life cycle', 'state changes of a trajectory and what they refuse, for every history', tus=TUS)
