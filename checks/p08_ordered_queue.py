#!/usr/bin/env python3
"""Sensor data of all queues is handed out in time order, nothing lost, duplicated or misrouted."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

OPQ = ['BlockingQueue::', 'GetCommonStartTime', 'CannotMakeProgress', 'Data::GetTime']
PK = 'this.queues_[$i].second.queue.Peek()'
FIN = 'this.queues_[$i].second.finished'


def selects_earliest(ctx, w, t, result, acc=None):
    """t is a fold over all queues keeping the earliest head; result: what is kept."""
    if t.op != 'fold' or unify(pat('this.queues_'), t.a[0], {}) is None:
        ctx.ob('earliest-head-over-all-queues', w, False, 'selected by %s' % t)
        return
    body, idx = t.a[3], t.a[1]
    heads = [x for x in subterms(body) if unify(pat(PK), x, {'i': idx}) is not None]
    ctx.need(heads, 'queue head in ' + w)
    pk = heads[0]
    a = acc(body) if acc else mk('acc')
    fin = canon(build(pat(FIN), {'i': idx}, {}))
    gt = [x for x in subterms(body) if x.op == 'call' and str(x.a[0]).endswith('GetTime')]
    tp = [x for x in gt if x.a[1] is pk]
    ta = [x for x in gt if x.a[1] is a]
    nl = lambda x: eq(x, NULL)
    ctx.need(tp and ta, 'times compared in ' + w)
    early, late = lt(tp[0], ta[0]), lt(ta[0], tp[0])
    cases = [([nl(pk), fin], mk('acc'), 'an exhausted finished queue is skipped'),
             ([not_(nl(pk)), nl(a)], None, 'the first head is taken'),
             ([not_(nl(pk)), not_(nl(a)), early], None, 'an earlier head is taken'),
             ([not_(nl(pk)), not_(nl(a)), late], mk('acc'), 'a later head is not taken')]
    for facts, want, what in cases:
        v = under(body, [canon(f) for f in facts])
        ok = v is want if want is not None else unify(pat(result), v, {'i': idx}) is not None
        ctx.ob('earliest-head-over-all-queues', '%s: %s' % (w, what), ok, 'keeps %s' % v)


def check(ctx):
    p = ctx.program('sensor/internal/ordered_multi_queue.cc')
    s = ctx.summarise(p, p.fn('sensor::OrderedMultiQueue::Dispatch'), opaque=OPQ)
    w = s.fn['sqn']
    inv = [v for e in s.effects if e.kind == 'invoke' for v in [e]]
    ctx.need(inv, 'callback invocation in ' + w)
    b = unify(pat('$q.callback'), canon(inv[0].obj), {})
    ctx.need(b, 'callback of a queue')
    q = b['q']
    ld = [e for e in s.effects if on_fields('last_dispatched_time_', base='this')(e)]
    ctx.ob('last-time-recorded', w, bool(ld), 'the time of dispatched data is not recorded')
    ds = set()
    taken = [e for e in s.effects if calls('BlockingQueue::Pop')(e) and canon(e.obj) is F(q, 'queue')]
    for e in ld:
        m = unify(pat('$d.GetTime()'), canon(e.val), {})
        ctx.ob('last-time-is-time-of-dispatched-data', e.where(), m is not None, 'records %s' % e.val)
        if m:
            x = m['d']
            if x.op in ('call', 'callx') and x.a[1] is F(q, 'queue') and (
                    str(x.a[0]).endswith('BlockingQueue::Pop') or str(x.a[0]).endswith('BlockingQueue::Peek') and not any(
                        y.seq < e.seq and not entails([canon(f) for f in e.guard], not_(and_(*[canon(f) for f in y.guard]))) for y in taken)):
                continue        # the head of the chosen queue, looked at again or just taken out
            ds.add(x)
    if not ds:
        ds = {x.a[1] for e in inv for f in e.facts for x in subterms(canon(f)) if x.op == 'call' and str(x.a[0]).endswith('GetTime')
              and x.a[1].op == 'fold'}
    ctx.need(len(ds) == 1, 'one dispatched item')
    d = ds.pop()
    selects_earliest(ctx, w, d, PK)
    def other(body):
        it = [x for x in subterms(body) if x.op == 'iter']
        return it[0] if it else mk('acc')
    if q.op == 'fold':
        its = [x for x in subterms(q.a[3]) if x.op == 'iter']
        same = all(canon(x.a[2]) is canon(rewrite(d.a[3], lambda y: x.a[0] if y is d.a[1] else None, {})) for x in its) if its else False
        ctx.ob('queue-of-the-earliest-head', w, bool(its) and same, 'the queue is not chosen together with the data')
        if its:
            selects_earliest(ctx, w + ' (queue)', q, 'this.queues_[$i].second', lambda body: its[0])
    else:
        ctx.ob('queue-of-the-earliest-head', w, False, 'queue chosen by %s' % q)
    td = [x for e in inv for f in e.facts for x in subterms(canon(f)) if x.op == 'call' and str(x.a[0]).endswith('GetTime') and x.a[1] is d]
    ctx.need(td, 'time of the selected data')
    td = td[0]
    cs = set()
    for e in inv:
        for f in e.facts:
            for x in subterms(canon(f)):
                if x.op == 'lt' and x.a[0] is td:
                    cs.add(x.a[1])
                elif x.op == 'lt' and x.a[1] is td:
                    cs.add(x.a[0])
    cs = [c for c in cs if 'last_dispatched' not in str(c)]
    ctx.need(len(cs) == 1, 'comparison with the common start time')
    c = cs[0]
    ctx.ob('common-start-time-of-the-right-trajectory', w, 'GetCommonStartTime' not in str(c) or
           unify(pat('this.GetCommonStartTime($k.trajectory_id)'), c, {}) is not None, str(c))
    # conditions
    def find(name):
        xs = [x for e in s.effects for f in list(e.facts) for x in subterms(canon(f)) if x.op in ('call', 'callx') and
              str(x.a[0]).endswith(name) and x.a[1].op == 'f' and x.a[1].a[0] is q]
        return xs[0] if xs else None
    sz, pk2 = find('BlockingQueue::Size'), find('BlockingQueue::Peek')
    ctx.need(sz is not None and pk2 is not None, 'look-ahead in ' + w)
    tpk = [x for e in s.effects for f in e.facts for x in subterms(canon(f)) if x.op == 'call' and str(x.a[0]).endswith('GetTime') and x.a[1] is pk2]
    ctx.need(tpk, 'time of the data after next')
    two = lt(sz, I(2))
    fin = F(q, 'finished')
    have = not_(eq(d, NULL))
    beyond = not_(lt(td, c))
    nxt = lt(c, tpk[0])
    want = and_(have, or_(beyond, and_(not_(beyond), two, fin), and_(not_(beyond), not_(two), nxt)))
    g = lambda es: or_(*[and_(*[canon(f) for f in e.guard]) for e in es])
    eqv = lambda a, b: entails([a], b) and entails([b], a)
    ctx.ob('dispatched-from-common-start-on', w, eqv(g(inv), want), 'dispatched when %s' % g(inv))
    ctx.ob('time-recorded-with-every-dispatch', w, eqv(g(ld), want), 'recorded when %s' % g(ld))
    for e in inv:
        prev = [x for x in ld if x.seq < e.seq and eqv(g([x]), g([e]))]
        ctx.ob('time-recorded-before-dispatch', e.where(), bool(prev), 'dispatched before its time is recorded')
        a = canon(e.args[0])
        ctx.ob('dispatches-the-popped-data', e.where(), a.op == 'callx' and a.a[0].endswith('BlockingQueue::Pop') and
               a.a[1] is F(q, 'queue') and canon(e.obj) is F(q, 'callback'), 'dispatches %s to %s' % (a, e.obj))
    pops = [e for e in s.effects if calls('BlockingQueue::Pop')(e)]
    popw = and_(have, or_(beyond, two.op and fin, not_(two)))
    popw = and_(have, or_(beyond, and_(not_(beyond), or_(not_(two), fin))))
    ctx.ob('popped-at-most-once-and-only-when-decided', w, eqv(g(pops), popw) and all(
        x is y or entails([g([x])], not_(g([y]))) for x in pops for y in pops), 'popped when %s' % g(pops))
    for e in s.effects:
        if calls('BlockingQueue::Peek')(e) and canon(e.obj) is F(q, 'queue') and not entails([g([e])], or_(beyond, two)):
            ctx.ob('look-ahead-after-pop', e.where(), any(x.seq < e.seq and eqv(g([x]), and_(have, not_(beyond), not_(two))) for x in pops),
                   'looks at the wrong element')
    # waiting: a queue without data that may still get some blocks everything
    er = [e for e in s.effects if e.kind == 'mutate' and e.name == 'erase']
    ctx.match('only-exhausted-finished-queues-removed', s, lambda e: e.kind == 'mutate' and on_fields('queues_', base='this')(e) and
              e.name in ('erase', 'clear'), [
        E('mutate', 'this.queues_', name='erase', args=['this.queues_[$i]'], guard='%s == null && %s' % (PK, FIN))])
    inner = [e for e in s.effects if calls('CannotMakeProgress')(e) or on_fields('blocker_', base='this')(e)]
    loops = [l for e in er for l in e.loops]
    blocked = [x for l in loops for x in l.exits if x[0] == 'return']
    pk1 = [x for e in er for f in e.facts for x in subterms(canon(f)) if x.op == 'callx' and str(x.a[0]).endswith('BlockingQueue::Peek')]
    ok = False
    if er and pk1 and blocked:
        idx = er[0].loops[-1].idx
        stop = or_(*[and_(*[canon(f) for f, t in x[1] if t == 'if']) for x in er[0].loops[-1].exits if x[0] == 'return'])
        ok = eqv(stop, and_(eq(pk1[0], NULL), not_(canon(build(pat(FIN), {'i': idx}, {})))))
    ctx.ob('waits-for-every-unfinished-queue', w, ok, 'an unfinished queue without data does not hold back the others')
    asserts = [e for e in s.effects if e.kind == 'assert']
    ok = any(unify(pat('this.last_dispatched_time_ <= $x.GetTime()'), canon(v.val), {}) is not None for e in asserts for v in views(e))
    ctx.ob('unsorted-data-refused', w, ok, 'data older than what was dispatched is not refused')
    # public operations
    ctx.spec('data-goes-to-its-queue', p, 'sensor::OrderedMultiQueue::Add', [
        E('call', 'this.queues_[queue_key].queue', name='BlockingQueue::Push', args=['data'], guard='queue_key in this.queues_', each=[], tag='push'),
        E('call', 'this', name='Dispatch', args=[], guard='queue_key in this.queues_', each=[], tag='dispatch')],
        opaque=['BlockingQueue::', 'OrderedMultiQueue::Dispatch'], order=['push<dispatch'])
    s = ctx.spec('finishing-a-queue', p, 'sensor::OrderedMultiQueue::MarkQueueAsFinished', [
        E('write', 'this.queues_[queue_key].finished', 'true', guard='true', each=[], tag='mark',
          facts=['queue_key in this.queues_', '!this.queues_[queue_key].finished']),
        E('call', 'this', name='Dispatch', args=[], guard='true', each=[], tag='dispatch')],
        opaque=['OrderedMultiQueue::Dispatch'], order=['mark<dispatch'])
    s = ctx.summarise(p, p.fn('sensor::OrderedMultiQueue::Flush'), opaque=['OrderedMultiQueue::Dispatch', 'MarkQueueAsFinished'])
    mk_ = [e for e in s.effects if calls('MarkQueueAsFinished')(e)]
    ap = [e for e in s.effects if e.kind == 'append']
    if mk_ and ap:
        ctx.match('flush-finishes-all-unfinished', s, lambda e: e in mk_ or e in ap, [
            E('append', '$o', 'this.queues_[$i].first', guard='!this.queues_[$i].second.finished', each=['this.queues_']),
            E('call', 'this', name='MarkQueueAsFinished', args=['$o[$j]'], guard='true', each=['$o'])])
    else:
        ctx.ob('flush-finishes-all-unfinished', s.fn['sqn'], False, 'flush does not finish the unfinished queues')
    ctx.spec('queue-added-once', p, 'sensor::OrderedMultiQueue::AddQueue', [
        E('write', 'this.queues_[queue_key].callback', 'callback', guard='true', each=[], facts=['!(queue_key in this.queues_)'])])
    M = 'this.common_start_time_per_trajectory_'
    f = p.fn('sensor::OrderedMultiQueue::GetCommonStartTime', optional=True)
    if f is not None:
        s = ctx.summarise(p, f, opaque=['BlockingQueue::'])
        sel = on_fields('common_start_time_per_trajectory_', base='this')
        latest = [canon(e.val) for e in s.effects if sel(e) and e.kind == 'write' and canon(e.val).op == 'fold']
        if latest:
            t = latest[0]
            cond = canon(build(pat('trajectory_id == this.queues_[$i].first.trajectory_id'), {'i': t.a[1]}, ctx.names(s)))
            yes, no = under(t.a[3], [cond]), under(t.a[3], [not_(cond)])
            ctx.ob('common-start-is-latest-first-time', s.fn['sqn'], unify(pat('this.queues_'), t.a[0], {}) is not None and
                   yes.op == 'op' and yes.a[0] == 'max' and mk('acc') in yes.a and any(
                       unify(pat(PK + '.GetTime()'), y, {'i': t.a[1]}) is not None for y in yes.a[1:]) and no is mk('acc') and
                   str(t.a[2]).endswith('time_point::min()'), str(t))
            ctx.match('common-start-is-latest-first-time', s, sel, [
                E('write', M + '[trajectory_id]', None, guard='!(trajectory_id in %s)' % M, each=[])])
        else:
            ctx.match('common-start-is-latest-first-time', s, sel, [
                E('append', M, None),
                E('write', M + '[trajectory_id]', 'max(%s[trajectory_id], %s.GetTime())' % (M, PK), each=['this.queues_'],
                  guard='!(trajectory_id in %s) && trajectory_id == this.queues_[$i].first.trajectory_id' % M)])
        for e in s.effects:
            if e.kind == 'return' and e.val is not VOID:
                for v in views(e):
                    ctx.ob('common-start-returned', v.where(), unify(pat(M + '[trajectory_id]'), canon(v.val), {}) is not None
                           or canon(v.val) in latest, str(v.val))
    d_ = ctx.summarise(p, p.fn('sensor::OrderedMultiQueue::~OrderedMultiQueue'))
    ctx.ob('no-data-dropped-at-exit', d_.fn['sqn'], any(
        e.kind == 'assert' and unify(pat('this.queues_[$i].second.finished'), canon(e.val), {}) is not None and e.loops and e.loops[-1].full()
        for e in d_.effects), 'unfinished queues are not detected')
    # key order and time order
    k = p.fn('sensor::QueueKey::operator<', optional=True)
    if k is not None:
        s = ctx.summarise(p, k)
        # lexicographic over both parts: irreflexive comparison using trajectory and sensor
        txt = ' '.join(str(canon(e.val)) for e in s.effects if e.kind == 'return' and e.val is not VOID)
        ctx.ob('queue-key-identifies-trajectory-and-sensor', s.fn['sqn'], 'trajectory_id' in txt and 'sensor_id' in txt, txt)
    # collators
    p = ctx.program('sensor/internal/collator.cc')
    KEY = '{trajectory_id=trajectory_id, sensor_id=%s}'
    def collator(p, cls, Q, K, own):
        s = ctx.summarise(p, p.fn('sensor::%s::AddTrajectory' % cls), opaque=['OrderedMultiQueue::'])
        ctx.match('queue-per-expected-sensor', s, any_of(calls('AddQueue'), on_fields(K.split('.')[1], base='this')), [
            E('call', Q, name='AddQueue', args=[KEY % 'expected_sensor_ids[$i]', '$f'], guard='true', each=['expected_sensor_ids']),
            E('append', K + '[trajectory_id]', KEY % 'expected_sensor_ids[$i]', guard='true', each=['expected_sensor_ids'])])
        for e in s.effects:
            if calls('AddQueue')(e):
                cl = ctx.closure(s, e.args[1])
                iv = [x for x in cl.effects if x.kind == 'invoke']
                x = one(iv, 'callback forwarded in ' + cls)
                ok = unify(pat('expected_sensor_ids[$i]'), canon(x.args[0]), {}) is not None and canon(x.args[1]) is canon(cl.params[0]) \
                    and unify(pat('callback'), canon(x.obj), {}) is not None and not x.guard
                ctx.ob('callback-gets-sensor-and-data', cl.fn['sqn'] if hasattr(cl, 'fn') else cls, ok, 'invoked with %s' % (x.args,))
        ctx.spec('finish-all-queues-of-trajectory', p, 'sensor::%s::FinishTrajectory' % cls, [
            E('call', Q, name='MarkQueueAsFinished', args=[K + '[trajectory_id][$i]'], guard='true', each=[K + '[trajectory_id]'])],
            opaque=['OrderedMultiQueue::'])
        s = ctx.summarise(p, p.fn('sensor::%s::AddSensorData' % cls), opaque=['OrderedMultiQueue::'])
        ctx.match('data-keyed-by-its-sensor', s, calls('OrderedMultiQueue::Add'), [
            E('call', Q, name='OrderedMultiQueue::Add', args=[KEY % 'data.sensor_id_', 'data'], guard='true', each=[])])
    collator(p, 'Collator', 'this.queue_', 'this.queue_keys_', False)
    ctx.spec('flush-forwarded', p, 'sensor::Collator::Flush', [
        E('call', 'this.queue_', name='Flush', args=[], guard='true', each=[])], opaque=['OrderedMultiQueue::'])
    ctx.spec('blocker-reported', p, 'sensor::Collator::GetBlockingTrajectoryId', [
        E('return', val='this.queue_.GetBlocker().trajectory_id', guard='true')], opaque=['OrderedMultiQueue::'])
    p = ctx.program('sensor/internal/trajectory_collator.cc')
    T = 'this.trajectory_to_queue_'
    collator(p, 'TrajectoryCollator', T + '[trajectory_id]', 'this.trajectory_to_queue_keys_', True)
    ctx.spec('flush-forwarded', p, 'sensor::TrajectoryCollator::Flush', [
        E('call', T + '[$i].second', name='Flush', args=[], guard='true', each=[T])], opaque=['OrderedMultiQueue::'])
    ctx.ob('trajectory-added-once', 'sensor::TrajectoryCollator::AddTrajectory', enforced(
        ctx.summarise(p, p.fn('sensor::TrajectoryCollator::AddTrajectory'), opaque=['OrderedMultiQueue::']),
        '!(trajectory_id in %s)' % T), 'a trajectory may be added twice')


main('P08', check, 'guarded-effect summaries of the ordered queue and the collators; loop accumulators as folds',
     'every dispatched item is the earliest head over all queues, its queue pops it once, every queue with pending data blocks',
     tus=['sensor/internal/ordered_multi_queue.cc', 'sensor/internal/collator.cc', 'sensor/internal/trajectory_collator.cc'])
