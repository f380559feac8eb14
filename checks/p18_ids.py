#!/usr/bin/env python3
"""Nodes and submaps by id: identity and order of ids, and the container that keeps data by trajectory and index."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *


def check(ctx):
    p = ctx.program('aux:map_by_id.cc')
    for cls, ix in (('NodeId', 'node_index'), ('SubmapId', 'submap_index')):
        k = 'mapping::%s::' % cls
        for f in p.overloads(k + cls):
            if not f.get('implicit') and len(f['params']) == 2:
                ctx.final('ids-identify', p, f, {'this.trajectory_id': 'trajectory_id', 'this.' + ix: ix})
        a, b, c, d = 'this.trajectory_id', 'other.trajectory_id', 'this.' + ix, 'other.' + ix
        ctx.truth('ids-identify', p, k + 'operator==', '%s == %s && %s == %s' % (a, b, c, d))
        ctx.truth('ids-identify', p, k + 'operator!=', '!(%s == %s && %s == %s)' % (a, b, c, d))
        ctx.truth('ids-ordered-by-trajectory-then-index', p, k + 'operator<', '%s < %s || %s == %s && %s < %s' % (a, b, a, b, c, d))
        ctx.spec('ids-identify', p, k + 'ToProto', [E('write', 'proto.trajectory_id', a, guard='true'), E('write', 'proto.' + ix, c, guard='true')], rel=of_kind('write'))
    M = 'mapping::MapById::'
    for f in p.overloads(M + 'GetIndex'):
        ctx.value('index-of-an-id', p, f, 'id.node_index' if 'NodeId' in p.ptypes(f)[0] else 'id.submap_index')
    T, X = 'this.trajectories_[id.trajectory_id]', 'GetIndex(id)'
    D = T + '.data_'
    for f in p.overloads(M + 'Append'):
        s = ctx.summarise(p, f)
        t = 'this.trajectories_[trajectory_id]'
        e0, e1 = '|%s.data_| == 0' % t, '|%s.data_| != 0' % t
        nxt = '1 + rbegin(%s.data_).first' % t
        ctx.refuses('append-continues-the-trajectory', s, '-1 < trajectory_id && %s.can_append_' % t, 'a negative trajectory, or one data was inserted in or trimmed from, is appended to')
        ctx.match('append-continues-the-trajectory', s, of_kind('append', 'mutate', 'write'), [
            E('append', t + '.data_', 'data', args=['0'], guard=e0), E('append', t + '.data_', 'data', args=[nxt], guard=e1)])
        ix = 'node_index' if any('node_index' in show(e.obj) for e in result_effects(s)) else 'submap_index'
        ctx.result('append-continues-the-trajectory', p, f, {'trajectory_id': 'trajectory_id', ix: [E('write', val='0', guard=e0), E('write', val=nxt, guard=e1)]})
    for f in p.overloads(M + 'Insert'):
        s = ctx.summarise(p, f)
        ctx.refuses('insert-once', s, '-1 < id.trajectory_id && -1 < %s && !(%s in %s)' % (X, X, D), 'an invalid or existing id is accepted')
        ctx.match('insert-once', s, of_kind('append', 'mutate', 'write'), [E('write', T + '.can_append_', 'false', guard='true'), E('append', D, 'data', args=[X], guard='true')])
    for f in p.overloads(M + 'Trim'):
        s = ctx.summarise(p, f)
        it = 'find(%s, %s)' % (D, X)
        ctx.refuses('trim-removes-one', s, '%s in %s' % (X, D), 'an id without data is accepted')
        ctx.spec_on('trim-removes-one', s, [
            E('write', T + '.can_append_', 'false', guard='end(%s) == 1 + %s' % (D, it), tag='last'), E('mutate', D, name='erase', args=[it], guard='true', tag='rm'),
            E('mutate', 'this.trajectories_', name='erase', args=['id.trajectory_id'], guard='|%s| == 0' % D, tag='drop')], order=['rm<drop'], rel=of_kind('append', 'mutate', 'write'))
    for f in p.overloads(M + 'Contains'):
        ctx.truth('lookup', p, f, 'id.trajectory_id in this.trajectories_ && %s in %s' % (X, D))
    for f in p.overloads(M + 'at'):
        ctx.value('lookup', p, f, '%s[%s]' % (D, X))
    for f in p.overloads(M + 'SizeOfTrajectoryOrZero'):
        ctx.value('sizes', p, f, {'trajectory_id in this.trajectories_': '|this.trajectories_[trajectory_id].data_|', '!(trajectory_id in this.trajectories_)': '0'})
    for f in p.overloads(M + 'size'):
        ctx.value('sizes', p, f, 'fold(this.trajectories_, $i, 0, |this.trajectories_[$i].second.data_| + acc())')
    for f in p.overloads(M + 'find'):
        ctx.value('lookup', p, f, 'ConstIterator(this, id)')
    for f in p.overloads(M + 'BeginOfTrajectory'):
        ctx.value('ranges', p, f, 'ConstIterator(this, trajectory_id)')
    for m, v in (('EndOfTrajectory', 'begin(traj(this, 1 + trajectory_id))'), ('begin', 'begin(traj(this, 0))'), ('end', 'begin(traj(this, $max))'),
                 ('trajectory_ids', 'Range(ConstTrajectoryIterator(begin(this.trajectories_)), ConstTrajectoryIterator(end(this.trajectories_)))')):
        for f in p.overloads(M + m):
            ctx.value('ranges', p, f, v)
            if m == 'end':
                r = [e for e in ctx.summarise(p, f).effects if e.kind == 'return']
                ctx.ob('ranges', f['sqn'], len(r) == 1 and (any(x.op == 'lim' and 'max' in str(x.a) for x in subterms(r[0].val)) or '2147483647' in show(r[0].val)), 'the end is not past every trajectory: ' + '; '.join(map(brief, r)))
    for f in p.overloads(M + 'trajectory'):
        r = [pshow(E('return').st(e.val)) for e in ctx.summarise(p, f).effects if e.kind == 'return']
        ctx.ob('ranges', f['sqn'], len(r) == 1 and r[0].replace('mk(mapping::Range, ', 'Range(').endswith('(begin(traj(this, trajectory_id)), end(traj(this, trajectory_id)))') or
               len(r) == 1 and 'begin(traj(this, trajectory_id)), end(traj(this, trajectory_id))' in r[0], 'not the range of the trajectory: %s' % r)
    for f in p.overloads(M + 'empty'):
        ctx.truth('sizes', p, f, '|this| == 0')
    for f in p.overloads('mapping::Range::Range'):
        if not f.get('implicit') and len(f['params']) == 2:
            ctx.final('ranges', p, f, {'this.begin_': 'begin', 'this.end_': 'end'})
    for m in ('begin', 'end'):
        for f in p.overloads('mapping::Range::' + m):
            ctx.value('ranges', p, f, 'this.%s_' % m)
    iterators(ctx, p, M + 'ConstIterator::')
    K = M + 'ConstTrajectoryIterator::'
    cur = 'this.current_trajectory_'
    for f in p.overloads(K + 'ConstTrajectoryIterator'):
        if not f.get('implicit'):
            ctx.final('iteration', p, f, {cur: 'current_trajectory'})
    for m, v in (('operator++', '1 + ' + cur), ('operator--', '-1 + ' + cur)):
        for f in p.overloads(K + m):
            ctx.final('iteration', p, f, {cur: v})
    for f in p.overloads(K + 'operator*'):
        ctx.value('iteration', p, f, cur + '.first')
    for f in p.overloads(K + 'operator=='):
        ctx.truth('iteration', p, f, cur + ' == it.current_trajectory_')
    for f in p.overloads(K + 'operator!='):
        s = ctx.summarise(p, f)
        r = [strip(e.val) for e in s.effects if e.kind == 'return']
        ctx.ob('iteration', s.fn['sqn'], len(r) == 1 and (r[0].op == 'not' or show(r[0]).startswith('!') or '!=' in show(r[0])), 'not the negation of ==')


def iterators(ctx, p, K):
    cur, end, dat = 'this.current_trajectory_', 'this.end_trajectory_', 'this.current_data_'
    D = cur + '.second.data_'
    for f in p.overloads(K + 'ConstIterator'):
        if f.get('implicit') or len(f['params']) != 2:
            continue
        s = ctx.summarise(p, f)
        w = lambda e: e.kind == 'write' and strip(e.val).op != 'null'
        if 'int' in p.ptypes(f)[1]:
            c = 'map_by_id.trajectories_.lower_bound(trajectory_id)'
            g = '%s != end(map_by_id.trajectories_)' % c
            ctx.spec_on('iteration', s, [E('write', cur, c, guard='true'), E('write', end, 'end(map_by_id.trajectories_)', guard='true'), E('write', dat, 'begin(%s.second.data_)' % c, guard=g, tag='d'),
                                         E('call', 'this', name='AdvanceToValidDataIterator', guard=g, tag='adv')], order=['d<adv'], rel=lambda e: w(e) or e.kind == 'call')
        else:
            g = 'id.trajectory_id in map_by_id.trajectories_'
            D0 = 'map_by_id.trajectories_[id.trajectory_id].data_'
            fd = 'find(%s, GetIndex(id))' % D0
            ctx.spec_on('iteration', s, [
                E('write', cur, 'find(map_by_id.trajectories_, id.trajectory_id)', guard='true', tag='c'), E('write', end, 'end(map_by_id.trajectories_)', guard='true'),
                E('write', dat, fd, guard=g, tag='d'),
                E('write', cur, 'end(map_by_id.trajectories_)', guard=g + ' && !(GetIndex(id) in %s)' % D0, tag='miss')], rel=w)
    for f in p.overloads(K + 'operator*'):
        s = ctx.summarise(p, f)
        ctx.refuses('iteration', s, '%s != %s' % (cur, end), 'the end is dereferenced')
        r = [E('return').st(e.val) for e in s.effects if e.kind == 'return']
        ctx.ob('iteration', s.fn['sqn'], len(r) == 1 and any(unify(pat('{data=%s.second, id={%s=%s.first, trajectory_id=%s.first}}' % (dat, i, dat, cur)), r[0], {}) is not None for i in ('node_index', 'submap_index')),
               'not the id and data of the element')
    for f in p.overloads(K + 'operator++'):
        s = ctx.summarise(p, f)
        ctx.refuses('iteration', s, '%s != %s' % (cur, end), 'the end is advanced')
        ctx.spec_on('iteration', s, [E('write', dat, '1 + ' + dat, guard='true', tag='n'), E('call', 'this', name='AdvanceToValidDataIterator', guard='true', tag='adv')], order=['n<adv'],
                    rel=of_kind('write', 'call'))
    for f in p.overloads(K + 'operator--'):
        s = ctx.summarise(p, f)
        stay = '%s == %s || %s == begin(%s)' % (cur, end, dat, D)
        ctx.spec_on('iteration', s, [E('write', cur, '-1 + ' + cur, guard=stay, tag='t'), E('write', dat, 'end((-1 + %s).second.data_)' % cur, guard=stay, tag='e'), E('write', dat, '-1 + ' + dat, guard='true', tag='b')],
                    order=['e<b'], rel=of_kind('write'))
        ws = [e for e in s.effects if e.kind == 'write']
        ctx.ob('iteration', s.fn['sqn'], len(ws) == 3 and [len(e.loops) for e in ws] == [1, 1, 0], 'the previous trajectories are not searched until one has data')
    for f in p.overloads(K + 'operator=='):
        s = ctx.summarise(p, f)
        at_end = '%s == %s || it.current_trajectory_ == it.end_trajectory_' % (cur, end)
        same = '%s == it.current_trajectory_' % cur
        ctx.value('iteration', p, f, {at_end: same, '!(%s)' % at_end: '%s && %s == it.current_data_' % (same, dat)})
    for f in p.overloads(K + 'operator!='):
        s = ctx.summarise(p, f)
        r = [strip(e.val) for e in s.effects if e.kind == 'return']
        ctx.ob('iteration', s.fn['sqn'], len(r) == 1 and show(r[0]).startswith('!') and 'operator==' in show(r[0]), 'not the negation of ==')
    for f in p.overloads(K + 'AdvanceToValidDataIterator'):
        s = ctx.summarise(p, f)
        g = '%s == end(%s)' % (dat, D)
        ctx.spec_on('iteration', s, [E('write', cur, '1 + ' + cur, guard=g, tag='t'), E('write', dat, 'begin((1 + %s).second.data_)' % cur, guard=g + ' && %s != 1 + %s' % (end, cur), tag='d')], rel=of_kind('write'))
        ctx.ob('iteration', s.fn['sqn'], all(len(e.loops) == 1 for e in s.effects if e.kind == 'write'), 'the following trajectories are not searched until one has data')


if __name__ == '__main__':
    main('P18', check, 'value-flow summaries of the instantiated container templates', 'ids identify and order their elements; the container appends, inserts, trims, finds and iterates by id', tus=['aux:map_by_id.cc'])
