#!/usr/bin/env python3
"""Time-ordered histories: nothing out of order gets in, lookups interpolate the neighbours, trimming keeps what is needed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *


def check(ctx):
    B = 'this.timestamped_transforms_'
    p = ctx.program('transform/transform_interpolation_buffer.cc', 'transform/timestamped_transform.cc')
    K = 'transform::TransformInterpolationBuffer::'
    push = lambda t, x, each, **kw: E('append', B, '{time=%s, transform=%s}' % (t, x), guard='true', each=each, tag='push',
                                      facts=['|%s| == 0 || last(%s).time <= %s' % (B, B, t)], **kw)
    drop = lambda lim, each: E('mutate', B, name='pop_front', args=[], guard='%s < |%s|' % (lim, B), each=each, tag='drop', optional=False)
    # pushing
    s = ctx.summarise(p, p.fn(K + 'Push'))
    ctx.match('appended-in-time-order', s, lambda e: e.kind == 'append', [push('time', 'transform', [])])
    ctx.spec_on('oldest-dropped-beyond-the-limit', s, [push('time', 'transform', []), drop('this.buffer_size_limit_', None)], order=['push<drop'])
    s = ctx.summarise(p, p.fn(K + 'SetSizeLimit'))
    ctx.spec_on('oldest-dropped-beyond-the-limit', s, [
        E('write', 'this.buffer_size_limit_', 'buffer_size_limit', guard='true', each=[], tag='set'), drop('buffer_size_limit', None)], order=['set<drop'])
    for f in p.overloads(K + 'TransformInterpolationBuffer'):
        if len(f['params']) != 1 or 'Trajectory' not in p.ptypes(f)[0]:
            continue
        s = ctx.summarise(p, f, opaque=['FromUniversal', 'ToRigid3'])
        ctx.match('built-from-every-node', s, lambda e: e.kind == 'append', [
            push('FromUniversal(trajectory.node[$i].timestamp)', 'ToRigid3(trajectory.node[$i].pose)', ['trajectory.node'])])
    # what may be looked up
    has = '|%s| != 0 && %s[0].time <= time && time <= last(%s).time' % (B, B, B)
    ctx.truth('covers-exactly-its-time-span', p, K + 'Has', has)
    s = ctx.summarise(p, p.fn(K + 'Lookup'), opaque=['Interpolate$'])
    ctx.ob('lookup-refuses-times-outside', s.fn['sqn'], enforced(s, has), 'a time outside the buffered span is looked up')
    N = 'first(%s, time <= elem().time)' % B
    ctx.spec_on('lookup-interpolates-the-neighbours', s, [
        E('return', val=N + '.transform', guard=N + '.time == time'),
        E('return', val='Interpolate(-1 + %s, %s, time).transform' % (N, N), guard=N + '.time != time')],
        rel=lambda e: e.kind == 'return')
    for m, v, c in (('earliest_time', B + '[0].time', True), ('latest_time', 'last(%s).time' % B, True), ('size', '|%s|' % B, False),
                    ('empty', '|%s| == 0' % B, False), ('size_limit', 'this.buffer_size_limit_', False)):
        ctx.value('accessors', p, K + m, v)
        if c:
            ctx.ob('no-time-of-an-empty-buffer', K + m, enforced(ctx.summarise(p, p.fn(K + m)), '|%s| != 0' % B), 'empty buffer not refused')
    ctx.spec('clear-empties', p, K + 'Clear', [E('mutate', B, name='clear', args=[], guard='true', each=[])])
    ctx.frame('only-push-and-limits-change-the-buffer', p, K[:-2], ['timestamped_transforms_', 'buffer_size_limit_'], ['Push', 'SetSizeLimit', 'Clear'])
    # interpolation
    F_ = '(ToSeconds(time - start.time) / ToSeconds(end.time - start.time))'
    s = ctx.result('linear-and-spherical-interpolation', p, 'transform::Interpolate', {
        'time': 'time',
        'transform': 'Rigid3(start.transform.translation() + (end.transform.translation() - start.transform.translation()) * %s, '
                     'start.transform.rotation().slerp(%s, end.transform.rotation()))' % (F_, F_)}, opaque=['ToSeconds'])
    for c in ('start.time <= time', 'time <= end.time'):
        ctx.ob('no-extrapolation', s.fn['sqn'], enforced(s, c), 'not enforced: ' + c)
    # the times themselves
    p = ctx.program('common/time.cc')
    ctx.value('ticks', p, 'common::FromUniversal', 'ticks')
    ctx.value('ticks', p, 'common::ToUniversal', 'time.time_since_epoch().count()')
    # data by time
    p = ctx.program('aux:map_by_time.cc')
    K = 'sensor::MapByTime::'
    D = 'this.data_'
    s = ctx.spec('data-appended-in-time-order', p, K + 'Append', [
        E('append', D + '[trajectory_id]', 'data', args=['data.time'], guard='true', each=[], facts=[
            '|{0}[trajectory_id]| == 0 || last({0}[trajectory_id]).first < data.time'.format(D), '-1 < trajectory_id'])],
        rel=lambda e: e.kind in ('write', 'append', 'mutate'))
    T = D + '[node_id.trajectory_id]'
    nd, bg, en = 'find(nodes, node_id)', 'begin(traj(nodes, node_id.trajectory_id))', 'end(traj(nodes, node_id.trajectory_id))'
    gs = '(%s == %s ? time_point::min() : (-1 + %s).data.time)' % (nd, bg, nd)
    ge = '(%s == 1 + %s ? time_point::max() : (1 + %s).data.time)' % (en, nd, nd)
    lo, up = '%s.lower_bound(%s)' % (T, gs), '%s.upper_bound(%s)' % (T, ge)
    first = '(time_point::min() == %s ? %s : 1 + %s)' % (gs, lo, lo)
    last = '(time_point::max() == %s ? %s : -1 + %s)' % (ge, up, up)
    some = 'node_id.trajectory_id in {D} && {lo} != {up} && (time_point::max() == {ge} || 1 + {lo} != {up})'.format(D=D, lo=lo, up=up, ge=ge)
    s = ctx.summarise(p, p.fn(K + 'Trim'))
    er = [e for e in s.effects if e.kind == 'mutate' and strip(e.obj) is build(pat(T), {}, ctx.names(s))]
    w = s.fn['sqn']
    ctx.match('trim-removes-only-data-between-neighbours', s, lambda e: e in er, [
        E('mutate', T, name='erase', args=[first, last], guard=some, each=[])])
    ctx.match('trajectory-without-data-removed', s, lambda e: e.kind in ('mutate', 'write', 'append') and e not in er, [
        E('mutate', D, name='erase', args=['node_id.trajectory_id'], guard='%s && |%s| == 0' % (some, T), each=[])])
    ctx.ob('trimmed-node-must-exist', w, enforced(s, '!(node_id.trajectory_id in %s) || node_id in nodes' % D), 'an unknown node is accepted')
    ctx.value('accessors', p, K + 'HasTrajectory', 'trajectory_id in ' + D)
    I_ = K + 'ConstIterator::'
    ctx.value('iteration', p, I_ + 'operator*', 'this.iterator_.second')
    ctx.value('iteration', p, I_ + 'operator->', 'this.iterator_.second')
    ctx.value('iteration', p, I_ + 'operator==', 'this.iterator_ == it.iterator_')
    ctx.value('iteration', p, I_ + 'operator!=', 'this.iterator_ != it.iterator_')
    for op, d in (('++', 1), ('--', -1)):
        ctx.spec('iteration', p, I_ + 'operator' + op, [E('write', 'this.iterator_', '%d + this.iterator_' % d, guard='true', each=[])])
        ctx.spec('iteration', p, K + 'ConstTrajectoryIterator::operator' + op, [
            E('write', 'this.current_trajectory_', '%d + this.current_trajectory_' % d, guard='true', each=[])])
    ctx.value('iteration', p, K + 'ConstTrajectoryIterator::operator*', 'this.current_trajectory_.first')
    ctx.value('iteration', p, K + 'ConstTrajectoryIterator::operator==', 'this.current_trajectory_ == it.current_trajectory_')
    ctx.value('iteration', p, K + 'ConstTrajectoryIterator::operator!=', 'this.current_trajectory_ != it.current_trajectory_')
    for m, v in (('BeginOfTrajectory', 'begin(%s[trajectory_id])' % D), ('EndOfTrajectory', 'end(%s[trajectory_id])' % D),
                 ('lower_bound', '%s[trajectory_id].lower_bound(time)' % D)):
        ctx.result('iteration', p, K + m, {'iterator_': v})
    ctx.value('iteration', p, K + 'trajectory', 'Range({iterator_=begin(%s[trajectory_id])}, {iterator_=end(%s[trajectory_id])})' % (D, D))
    ctx.value('iteration', p, K + 'trajectory_ids', 'Range({current_trajectory_=begin(%s)}, {current_trajectory_=end(%s)})' % (D, D))
    ctx.frame('only-append-and-trim-change-the-data', p, K[:-2], ['data_'], ['Append', 'Trim'])


main('P10', check, 'guarded-effect summaries of the time-indexed containers (AST dataflow)',
     'every insertion is dominated by a time-order check; lookups evaluate to the interpolation of the two neighbours; trimming erases the inner range',
     tus=['transform/transform_interpolation_buffer.cc', 'transform/timestamped_transform.cc', 'common/time.cc', 'aux:map_by_time.cc'])
