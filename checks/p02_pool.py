#!/usr/bin/env python3
"""Thread pool and blocking queue: no lost work, no missed wake-up, drain before exit."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

L = ['this.mutex_']


def pool(ctx):
    p = ctx.program('common/thread_pool.cc', 'common/task.cc')
    T = 'common::ThreadPool::'
    opq = [r'^common::Task::']
    fields = on_fields('running_', 'pool_', 'task_queue_', 'tasks_not_ready_', base='this')
    init = lambda e: fields(e) and not (e.kind == 'write' and strip(e.val).op == 'obj')
    task_calls = any_of(calls('Task::Execute', 'Task::SetThreadPool'), lambda e: e.kind == 'call' and 'std::thread' in e.name)

    s = ctx.summarise(p, p.fn(T + 'ThreadPool'), opaque=opq)
    ctx.match('constructor-starts-all-workers', s, any_of(init, task_calls), [
        E('write', 'this.running_', 'true', guard='true', each=[]),
        E('append', 'this.pool_', '$w', guard='true')])
    start = one([e for e in s.effects if e.kind == 'append' and init(e)], 'worker start in the thread pool constructor')
    l = start.loops
    ok = len(l) == 1 and l[0].full() and l[0].lo is not None and strip(l[0].lo) is I(0) and \
        strip(l[0].hi).op == 'param' and l[0].step == 1
    ctx.ob('constructor-starts-requested-number-of-workers', start.where(), ok,
           'workers are not started once for each of the requested threads')
    v = strip(start.val)
    ref = [x for x in subterms(v) if x.op in ('fnref', 'mfn', 'fref') and 'ThreadPool::' in str(x)]
    ctx.ob('worker-threads-run-the-worker-loop', start.where(), v.op == 'lam' or len(ref) == 1 and mk('this') in list(subterms(v)),
           'thread runs %s' % start.val)
    if v.op == 'lam' or ref:
        w = ctx.closure(s, v) if v.op == 'lam' else ctx.summarise(p, p.fn(ref[0].a[0]), opaque=opq)
        ctx.match('worker-loop', w, any_of(init, task_calls, of_kind('await', 'invoke')), [
            E('await', val='|this.task_queue_| != 0 || !this.running_', locks=L, guard='true'),
            E('mutate', 'this.task_queue_', name='pop_front', locks=L, guard='|this.task_queue_| != 0',
              facts=['|this.task_queue_| != 0']),
            E('call', 'this.task_queue_[0]', name='Task::Execute', nolocks=True, guard='|this.task_queue_| != 0')])
        aw = [e for e in w.effects if e.kind == 'await']
        pops = [e for e in w.effects if e.kind == 'mutate' and init(e)]
        ex = [e for e in w.effects if e.kind == 'call' and name_match(e.name, 'Task::Execute')]
        for e in pops:
            ctx.ob('pop-in-the-critical-section-of-the-wait', e.where(),
                   aw and set(aw[0].region) & set(e.region), 'the queue is released between the wait and the pop')
        for e in ex:
            ctx.ob('one-execution-per-pop', e.where(), len(pops) == 1 and len(ex) == 1 and pops[0].seq < e.seq and
                   pops[0].loops == e.loops, 'task execution is not paired with the removal from the queue')
        loops = (aw[0].loops[1:] if v.op == 'lam' else aw[0].loops) if aw else []
        ctx.ob('worker-loops', w.fn['sqn'] if w.fn else 'worker', len(loops) == 1, 'the worker is not one endless loop')
        # leaving the loop needs: queue empty and shutting down, in the wait's critical section
        d = w
        ends = [e for e in d.effects if e.kind in ('return', 'fatal')]
        ctx.need(ends, 'way out of the worker loop')
        for e in ends:
            fs = [strip(f) for f in e.facts]
            ctx.ob('worker-leaves-only-when-drained-and-stopping', e.where(),
                   entails(fs, build(pat('|this.task_queue_| == 0 && !this.running_'), {}, {})),
                   'a worker can leave although the queue may hold tasks or the pool still runs (known: %s)' % fs)

    s = ctx.summarise(p, p.fn(T + '~ThreadPool'), opaque=opq)
    ctx.match('destructor-stops-and-joins', s, any_of(init, task_calls), [
        E('write', 'this.running_', 'false', guard='true', locks=L, each=[]),
        E('call', 'this.pool_[$i]', name='std::thread::join', each=['this.pool_'], nolocks=True, guard='true')])
    seq = [e.seq for e in s.effects if e.kind == 'write' and init(e)] + [e.seq for e in s.effects if e.kind == 'call' and task_calls(e)]
    ctx.ob('stop-flag-set-before-join', where(s.fn), seq == sorted(seq), 'joins before the stop flag is set')

    s = ctx.summarise(p, p.fn(T + 'NotifyDependenciesCompleted'), opaque=opq)
    ctx.match('ready-task-moves-to-the-queue', s, any_of(init, task_calls), [
        E('append', 'this.task_queue_', 'this.tasks_not_ready_[task]', guard='true', locks=L,
          facts=['task in this.tasks_not_ready_']),
        E('mutate', 'this.tasks_not_ready_', name='erase', guard='true', locks=L)])
    for e in s.effects:
        if e.kind == 'mutate' and init(e):
            a = [strip(x) for x in e.args]
            ctx.ob('exactly-the-ready-task-is-forgotten', e.where(), len(a) == 1 and
                   (unify(pat('find(this.tasks_not_ready_, task)'), a[0], {}) is not None or
                    unify(pat('task'), a[0], {}) is not None), 'erases %s' % a)
            app = [x for x in s.effects if x.kind == 'append' and init(x)]
            ctx.ob('queued-before-forgotten', e.where(), app and set(app[0].region) == set(e.region),
                   'the task is not queued in the critical section that forgets it')

    s = ctx.summarise(p, p.fn(T + 'Schedule'), opaque=opq)
    ctx.match('scheduled-task-is-registered-then-dispatched', s, any_of(init, task_calls), [
        E('append', 'this.tasks_not_ready_', 'task', guard='true', locks=L),
        E('call', 'task', name='Task::SetThreadPool', args=['this'], guard='true', nolocks=True,
          facts=['!(task in this.tasks_not_ready_)'])])
    reg = [e.seq for e in s.effects if e.kind == 'append' and init(e)]
    for e in s.effects:
        if e.kind == 'call' and task_calls(e):
            ctx.ob('registered-before-dispatch', e.where(), reg and reg[0] < e.seq, 'dispatched before it is registered')
    for e in s.effects:
        if e.kind == 'return' and e.val is not VOID:
            for v in views(e):
                ctx.ob('schedule-returns-the-task', e.where(), strip(v.val).op == 'param', 'returns %s' % v.val)
    ctx.frame('pool-state-only-changed-by-protocol', p, 'common::ThreadPool',
              ('running_', 'pool_', 'task_queue_', 'tasks_not_ready_'),
              {'Schedule', 'NotifyDependenciesCompleted', 'DoWork'}, opaque=opq)


def queue(ctx):
    p = ctx.program('aux:containers.cc')
    T = 'common::BlockingQueue::'
    rel = any_of(on_fields('deque_', 'queue_size_', base='this'), of_kind('await', 'return'))
    NF = 'this.queue_size_ == 0 || |this.deque_| < this.queue_size_'
    NE = '|this.deque_| != 0'

    def m(name, exp, ret=None):
        fs = [f for f in p.overloads(T + name)]
        ctx.need(fs, 'BlockingQueue::' + name)
        for f in fs:
            s = ctx.summarise(p, f)
            ctx.match('blocking-queue-%s' % name, s, lambda e: rel(e) and not (e.kind == 'return' and e.val is VOID), exp)
            regs = [set(e.region) for e in s.effects if rel(e) and e.kind != 'return']
            ctx.ob('blocking-queue-one-critical-section', where(f), all(r == regs[0] for r in regs), 'released in between')
            if not regs:
                continue
            aw = [e for e in s.effects if e.kind == 'await']
            mu = [e for e in s.effects if e.kind in ('append', 'mutate', 'write') and rel(e)]
            ctx.ob('blocking-queue-waits-first', where(f), all(a.seq < x.seq for a in aw for x in mu), 'changes before waiting')
        return s
    m('Push', [E('await', val=NF, guard='true', locks=L), E('append', 'this.deque_', 't', guard='true', locks=L)])
    m('PushWithTimeout', [E('await', val=NF, guard='true', locks=L), E('append', 'this.deque_', 't', guard=NF, locks=L),
                          E('return', val='false', guard='!(%s)' % NF), E('return', val='true', guard=NF)])
    m('Pop', [E('await', val=NE, guard='true', locks=L),
              E('mutate', 'this.deque_', name='pop_front', guard='true', locks=L), E('return', val='this.deque_[0]', guard='true')])
    m('PopWithTimeout', [E('await', val=NE, guard='true', locks=L),
                         E('mutate', 'this.deque_', name='pop_front', guard=NE, locks=L),
                         E('return', val='this.deque_[0]', guard=NE), E('return', val='null', guard='!(%s)' % NE)])
    m('PeekWithTimeout', [E('await', val=NE, guard='true', locks=L),
                          E('return', val='this.deque_[0]', guard=NE), E('return', val='null', guard='!(%s)' % NE)])
    m('Peek', [E('return', val='this.deque_[0]', guard=NE, locks=L), E('return', val='null', guard='!(%s)' % NE)])
    m('Size', [E('return', val='|this.deque_|', guard='true', locks=L)])
    m('WaitUntilEmpty', [E('await', val='|this.deque_| == 0', guard='true', locks=L)])
    for f in p.overloads(T + 'BlockingQueue'):
        s = ctx.summarise(p, f)
        w = [e for e in s.effects if e.kind == 'write' and on_fields('queue_size_', base='this')(e)]
        want = 'queue_size' if f['params'] else '0'
        ctx.ob('blocking-queue-capacity', where(f), len(w) == 1 and unify(pat(want), stripcast(w[0].val), {}) is not None,
               'capacity is %s' % [str(x.val) for x in w])


def check(ctx):
    pool(ctx)
    queue(ctx)


main('P02', check, 'guarded-effect summaries of the scheduler and queue (AST dataflow, lock regions, wait predicates)',
     'every operation must have exactly the specified effects under the specified guards, locks and wait predicates')
