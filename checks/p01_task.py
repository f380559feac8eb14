#!/usr/bin/env python3
"""Task protocol: work runs once, after all dependencies, dependents notified once."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

STATE_FIELDS = ('state_', 'uncompleted_dependencies_', 'dependent_tasks_', 'work_item_', 'thread_pool_to_notify_')


def rel(e):
    if e.kind in ('write', 'append', 'mutate'):
        return any(t.op == 'f' and t.a[1] in STATE_FIELDS for t in subterms(strip(e.obj)))
    if e.kind == 'invoke':
        return True
    return e.kind == 'call' and (name_match(e.name, 'NotifyDependenciesCompleted') or 'Task::' in e.name)


def check(ctx):
    p = ctx.program('common/task.cc', 'common/thread_pool.cc')
    T = 'common::Task::'
    L = ['this.mutex_']
    # SetWorkItem: only before the task is handed over
    s = ctx.summarise(p, p.fn(T + 'SetWorkItem'))
    ctx.match('work-item-set-only-while-new', s, rel, [
        E('write', 'this.work_item_', 'work_item', guard='true', locks=L, facts=['this.state_ == NEW'])])
    # AddDependency
    s = ctx.summarise(p, p.fn(T + 'AddDependency'))
    D = 'dependency != null'
    ctx.match('dependency-registered-before-it-can-complete', s, rel, [
        E('write', 'this.uncompleted_dependencies_', 'this.uncompleted_dependencies_ + 1', guard=D, locks=L,
          facts=['this.state_ == NEW']),
        E('write', 'this.uncompleted_dependencies_', 'this.uncompleted_dependencies_ - 1',
          guard=D + ' && dependency.state_ == COMPLETED', locks=['dependency.mutex_', 'this.mutex_']),
        E('write', 'this.state_', 'DEPENDENCIES_COMPLETED',
          guard=D + ' && dependency.state_ == COMPLETED && this.state_ == DISPATCHED && '
          'this.uncompleted_dependencies_ - 1 == 0', locks=['this.mutex_']),
        E('call', 'this.thread_pool_to_notify_', name='NotifyDependenciesCompleted', args=['this'],
          guard=D + ' && dependency.state_ == COMPLETED && this.state_ == DISPATCHED && '
          'this.uncompleted_dependencies_ - 1 == 0'),
        E('append', 'dependency.dependent_tasks_', 'this', guard=D + ' && dependency.state_ != COMPLETED',
          locks=['dependency.mutex_'])])
    # the count is raised before the dependency is told about us
    inc = [e for e in s.effects if e.kind == 'write' and rel(e) and unify(pat('this.uncompleted_dependencies_ + 1'),
                                                                        strip(e.val), {}) is not None]
    oth = [e for e in s.effects if rel(e) and e not in inc]
    for o in oth:
        ctx.ob('count-raised-before-dependency-is-told', o.where(), any(i.seq < o.seq for i in inc),
               'dependency is informed before the uncompleted count is raised: %s' % brief(o))
    # the completed test and the registration happen in one critical section of the dependency
    for e in s.effects:
        if e.kind == 'append' and rel(e):
            ctx.ob('registration-atomic-with-state-test', e.where(), same_section(e, 'dependency', s),
                   'the dependency may complete between the test of its state and the registration')
    # SetThreadPool (dispatch)
    s = ctx.summarise(p, p.fn(T + 'SetThreadPool'))
    Z = 'this.uncompleted_dependencies_ == 0'
    ctx.final('dispatch-protocol', p, None, {'this.state_': {Z: 'DEPENDENCIES_COMPLETED', '!(%s)' % Z: 'DISPATCHED'},
                                             'this.thread_pool_to_notify_': 'thread_pool'}, s=s)
    ctx.match('dispatch-notifies-the-pool', s, lambda e: rel(e) and e.kind != 'write', [
        E('call', 'thread_pool', name='NotifyDependenciesCompleted', args=['this'], guard=Z)])
    for e in s.effects:
        if rel(e) and e.kind == 'write':
            ctx.ob('dispatch-writes-only-its-state', e.where(), str(strip(e.obj)) in ('this.state_', 'this.thread_pool_to_notify_') and
                   any(str(strip(m)) == 'this.mutex_' for m in e.locks),
                   'dispatching writes %s' % brief(e))
    ctx.refuses('dispatched-only-once', s, 'this.state_ == NEW', 'a task can be dispatched twice')
    one_section(ctx, s, 'dispatch-is-one-critical-section')
    # Execute
    s = ctx.summarise(p, p.fn(T + 'Execute'))
    d = '$d'
    ctx.match('execute-once-then-notify', s, rel, [
        E('write', 'this.state_', 'RUNNING', guard='true', locks=L, facts=['this.state_ == DEPENDENCIES_COMPLETED']),
        E('invoke', 'this.work_item_', args=[], guard='this.work_item_ != null', each=[], nolocks=True),
        E('write', 'this.state_', 'COMPLETED', guard='true', locks=L, each=[]),
        E('write', 'this.dependent_tasks_[$i].uncompleted_dependencies_',
          'this.dependent_tasks_[$i].uncompleted_dependencies_ - 1', guard='true', each=['this.dependent_tasks_'],
          locks=['this.mutex_', 'this.dependent_tasks_[$i].mutex_']),
        E('write', 'this.dependent_tasks_[$i].state_', 'DEPENDENCIES_COMPLETED',
          guard='this.dependent_tasks_[$i].state_ == DISPATCHED && '
          'this.dependent_tasks_[$i].uncompleted_dependencies_ - 1 == 0', each=['this.dependent_tasks_']),
        E('call', 'this.dependent_tasks_[$i].thread_pool_to_notify_', name='NotifyDependenciesCompleted',
          args=['this.dependent_tasks_[$i]'],
          guard='this.dependent_tasks_[$i].state_ == DISPATCHED && '
          'this.dependent_tasks_[$i].uncompleted_dependencies_ - 1 == 0', each=['this.dependent_tasks_'])])
    order(ctx, s, 'this.state_', ['RUNNING', 'COMPLETED'])
    inv = [e for e in s.effects if e.kind == 'invoke']
    run = [e for e in s.effects if e.kind == 'write' and str(strip(e.obj)) == 'this.state_']
    ctx.need(inv and len(run) >= 2, 'Task::Execute state transitions')
    ctx.ob('work-runs-between-running-and-completed', inv[0].where(),
           run[0].seq < inv[0].seq < run[-1].seq, 'the work item does not run between RUNNING and COMPLETED')
    comp = run[-1]
    notify = [e for e in s.effects if e.kind == 'write' and e.loops]
    for e in notify:
        ctx.ob('completed-before-dependents-notified', e.where(),
               comp.seq < e.seq and set(comp.region) & set(e.region),
               'state COMPLETED and the notification are not one critical section: %s' % brief(e))
    # no other member function touches the protocol state
    known = {'SetWorkItem', 'AddDependency', 'SetThreadPool', 'Execute', 'GetState', '~Task', 'Task'}
    entered = set()
    for m in p.methods_of('common::Task'):
        if m['n'] in known or m.get('implicit') or m.get('priv'):
            continue
        s = ctx.summarise(p, m)
        for e in s.effects:
            if rel(e):
                ctx.ob('protocol-state-only-changed-by-protocol', e.where(), False, 'unexpected: %s' % brief(e))
        entered.add(m['n'])
    g = ctx.summarise(p, p.fn(T + 'GetState'))
    ctx.ob('state-query-returns-state', '%s:%d' % (g.fn['file'], g.fn['l']), strip(g.ret) is F(mk('this'), 'state_'),
           'GetState returns %s' % g.ret)
    r = p.rec('common::Task')
    for f in r['fields']:
        if f['n'] in ('state_', 'uncompleted_dependencies_', 'thread_pool_to_notify_'):
            ctx.ob('initial-state', '%s:%d' % (r['file'], f['l']), f['dinit'], '%s has no initial value' % f['n'])
    # forwarders used by every thread pool
    s = ctx.summarise(p, p.fn('common::ThreadPoolInterface::Execute'), opaque=[r'^common::Task::'])
    ctx.match('pool-forwards-execute', s, rel, [E('call', 'task', name='Task::Execute', guard='true')])
    s = ctx.summarise(p, p.fn('common::ThreadPoolInterface::SetThreadPool'), opaque=[r'^common::Task::'])
    ctx.match('pool-forwards-dispatch', s, rel, [E('call', 'task', name='Task::SetThreadPool', args=['this'], guard='true')])


def same_section(e, owner, s):
    """Every condition on the owner's state guarding e was read in the critical section e runs in."""
    for m, r in e.region:
        if str(m) == owner + '.mutex_':
            locks = [x for x in s.effects if x.kind == 'lock' and strip(x.obj) is m and x.seq < e.seq]
            unl = [x for x in s.effects if x.kind == 'unlock' and strip(x.obj) is m and x.seq < e.seq]
            n_if = [x for x in locks if any(strip(f).op in ('eq', 'not') and 'state_' in str(f) and owner in str(f)
                                            for f in x.guard)]
            # lock must be taken before the state was tested
            return not n_if
    return False


def order(ctx, s, field, vals):
    seqs = []
    for e in s.effects:
        if e.kind == 'write' and str(strip(e.obj)) == field:
            seqs.append(strip(e.val).a[0].split('::')[-1] if strip(e.val).op == 'enum' else str(e.val))
    ctx.ob('state-order', s.fn['sqn'], [v for v in seqs] == vals, 'state sequence %s, expected %s' % (seqs, vals))


def one_section(ctx, s, rule):
    regs = set()
    for e in s.effects:
        if rel(e):
            regs.add(frozenset(e.region))
    ctx.ob(rule, s.fn['sqn'], len(regs) == 1, 'effects are spread over %d critical sections' % len(regs))


main('P01', check, 'guarded-effect summaries of the task state machine (AST dataflow)',
     'every write to task state, its guard, lock and order must be the transitions of the protocol')
