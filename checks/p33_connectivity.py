#!/usr/bin/env python3
"""Trajectory connectivity: connected means connected by a chain of connections; connection times are the newest."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

C = 'mapping::ConnectedComponents::'
S = 'mapping::TrajectoryConnectivityState::'
A, B = 'trajectory_id_a', 'trajectory_id_b'
PAIR = '{first=min(%s, %s), second=max(%s, %s)}'
AB = PAIR % (A, B, A, B)
L = ['this.lock_']


def components(ctx):
    p = ctx.program('mapping/internal/connected_components.cc')
    one = lambda n, **k: [ctx.summarise(p, f, **k) for f in p.overloads(C + n)]
    op = ['FindSet']
    for s in one('Add'):
        ctx.spec_on('trajectory-starts-alone', s, [E('append', 'this.forest_', 'trajectory_id', args=['trajectory_id'], guard='true', each=[], locks=L)], rel=of_kind('write', 'append', 'mutate'))
    for s in one('Connect', opaque=op):
        a, b = 'this.FindSet(%s)' % A, 'this.FindSet(%s)' % B
        ctx.trial(lambda alt: ctx.spec_on('connecting-joins-components', s, [
            E('append', 'this.forest_', A, args=[A], guard='true', each=[], locks=L, tag='a'),
            E('append', 'this.forest_', B, args=[B], guard='true', each=[], locks=L, tag='b'),
            E('write', 'this.forest_[%s]' % alt((a, b, 'true'))[0], alt((a, b, 'true'))[1], guard=alt((a, b, 'true'))[2], each=[], locks=L, tag='join'),
            E('write', 'this.connection_map_[%s]' % AB, '1 + this.connection_map_[%s]' % AB, guard='true', each=[], locks=L)],
            rel=of_kind('write', 'append', 'mutate'), order=['a<join', 'b<join']) or True,
            lambda x: (b, a, 'true'), lambda x: (a, b, '%s != %s' % (a, b)), lambda x: (b, a, '%s != %s' % (a, b)))
    for s in one('FindSet'):
        f = 'this.forest_[trajectory_id]'
        up = 'this.FindSet(%s)' % f
        ctx.refuses('representative-is-the-root', s, 'trajectory_id in this.forest_', 'an unknown trajectory is not refused')
        root = 'trajectory_id == ' + f
        ctx.match('representative-is-the-root', s, of_kind('write', 'append', 'mutate'), [E('write', f, up, guard='trajectory_id != ' + f, each=[], optional=True)])
        got = [v for e in s.effects if e.kind == 'return' for v in views(e)]
        ctx.ob('representative-is-the-root', s.fn['sqn'], bool(got), 'returns nothing')
        ctx.trial(lambda alt: ctx.match('representative-is-the-root', s, of_kind('return'), alt([E('return', val=f, guard=root), E('return', val=up, guard='trajectory_id != ' + f)])) or True,
                  lambda _: [E('return', val='trajectory_id', guard=root), E('return', val=up, guard='trajectory_id != ' + f)])
    for f in p.overloads(C + 'TransitivelyConnected'):
        ctx.truth('same-component-means-connected', p, f, '{a} == {b} || ({a} in this.forest_ && {b} in this.forest_ && this.FindSet({a}) == this.FindSet({b}))'.format(a=A, b=B), opaque=op)
    for s in one('Components', opaque=op):
        ctx.spec_on('components-are-all-groups', s, [
            E('append', '$m[this.FindSet(this.forest_[$i].first)]', 'this.forest_[$i].first', guard='true', each=['this.forest_'], locks=L),
            E('append', '$r', '$m[$j].second', guard='true', each=['$m']),
            E('return', val='$r', guard='true', each=[])], rel=of_kind('write', 'append', 'mutate', 'return'))
    for s in one('GetComponent', opaque=op):
        ctx.spec_on('component-holds-its-members', s, [
            E('append', '$r', 'this.forest_[$i].first', guard='this.FindSet(trajectory_id) == this.FindSet(this.forest_[$i].first)', each=['this.forest_'], locks=L),
            E('return', val='$r', guard='true', each=[])], rel=of_kind('write', 'append', 'mutate', 'return'))
    for s in one('ConnectionCount'):
        m = 'this.connection_map_[%s]' % AB
        ctx.match('connections-counted', s, of_kind('return'), [E('return', val=m, guard='%s in this.connection_map_' % AB, locks=L), E('return', val='0', guard='!(%s in this.connection_map_)' % AB)])
    for f in p.overloads('mapping::ToProto'):
        if len(f['params']) != 1:
            continue
        s = ctx.summarise(p, f)
        c = 'connected_components'
        ctx.spec_on('components-reported', s, [
            E('call', c + '[$i]', name='sort', args=['begin(%s[$i])' % c, 'end(%s[$i])' % c], guard='true', each=[c], tag='inner'),
            E('call', c, name='sort', args=['begin(%s)' % c, 'end(%s)' % c], guard='true', each=[], tag='outer'),
            E('append', '$o.connected_component', '$e', guard='true', each=[c], tag='group'),
            E('append', '$e.trajectory_id', c + '[$j][$k]', guard='true', each=[c, c + '[$j]']),
            E('return', val='$o', guard='true', each=[])], rel=lambda e: e.kind in ('write', 'append', 'mutate', 'return') or calls('sort')(e), order=['inner<outer', 'outer<group'])


def state(ctx):
    p = ctx.program('mapping/internal/trajectory_connectivity_state.cc')
    op = ['ConnectedComponents::']
    cc = 'this.connected_components_'
    con = cc + '.TransitivelyConnected(%s, %s)' % (A, B)
    t = 'this.last_connection_time_map_'
    one = lambda n: [ctx.summarise(p, f, opaque=op) for f in p.overloads(S + n)]
    for s in one('Add'):
        ctx.match('trajectory-starts-alone', s, of_kind('call', 'write', 'append', 'mutate'), [E('call', cc, name='Add', args=['trajectory_id'], guard='true', each=[])])
    for s in one('Connect'):
        x, y = cc + '.GetComponent(%s)' % A, cc + '.GetComponent(%s)' % B
        xy = PAIR % ((x + '[$i]', y + '[$j]') * 2)
        new = E('write', '%s[%s]' % (t, AB), 'time', guard='%s && %s[%s] < time' % (con, t, AB), each=[], tag='again')
        most = E('write', '%s[%s]' % (t, AB), 'max(%s[%s], time)' % (t, AB), guard=con, each=[], tag='again')
        ctx.trial(lambda alt: ctx.spec_on('connection-times', s, [
            E('call', cc, name='TransitivelyConnected', args=[A, B], guard='true', each=[], tag='asked'),
            E('call', cc, name='GetComponent', args=[A], guard='!' + con, each=[], tag='a'),
            E('call', cc, name='GetComponent', args=[B], guard='!' + con, each=[], tag='b'),
            E('write', '%s[%s]' % (t, xy), 'time', guard='!' + con, each=alt((new, [x, y]))[1]),
            alt((new, []))[0],
            E('call', cc, name='Connect', args=[A, B], guard='true', each=[], tag='joined')],
            rel=lambda e: e.kind in ('write', 'append', 'mutate') or calls('TransitivelyConnected', 'GetComponent', 'ConnectedComponents::Connect', 'ConnectedComponents::Add')(e), order=['asked<joined', 'a<joined', 'b<joined']) or True,
            lambda _: (new, [y, x]), lambda _: (most, [x, y]), lambda _: (most, [y, x]))
    ctx.value('connectivity-asked', p, S + 'TransitivelyConnected', con, opaque=op)
    ctx.value('connectivity-asked', p, S + 'Components', cc + '.Components()', opaque=op)
    ctx.value('connection-times', p, S + 'LastConnectionTime', '%s[%s]' % (t, AB), opaque=op)


def check(ctx):
    components(ctx)
    state(ctx)


main('P33', check, 'union-find-dataflow', 'per operation of the connectivity state: the union-find forest updates and queries, the order of component look-ups and joins, and the connection time kept for every pair', tus=['mapping/internal/connected_components.cc', 'mapping/internal/trajectory_connectivity_state.cc'])
