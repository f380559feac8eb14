#!/usr/bin/env python3
"""Shared state is touched only under its lock; no lock is taken twice or in opposite orders; nothing guarded leaks out."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *
import locks
from ir import short

TUS = ['common/task.cc', 'common/thread_pool.cc', 'mapping/internal/connected_components.cc', 'mapping/internal/trajectory_connectivity_state.cc',
       'mapping/internal/constraints/constraint_builder_2d.cc', 'mapping/internal/constraints/constraint_builder_3d.cc', 'mapping/internal/2d/pose_graph_2d.cc', 'mapping/internal/3d/pose_graph_3d.cc',
       'mapping/pose_graph_trimmer.cc', 'mapping/internal/2d/overlapping_submaps_trimmer_2d.cc', 'sensor/internal/ordered_multi_queue.cc', 'aux:containers.cc']
CB = dict.fromkeys(('when_done_', 'num_started_nodes_', 'num_finished_nodes_', 'finish_node_task_', 'when_done_task_', 'constraints_', 'submap_scan_matchers_', 'score_histogram_'), 'mutex_')
PG = dict.fromkeys(('global_localization_samplers_', 'num_nodes_since_last_loop_closure_', 'trimmers_', 'data_', 'optimization_problem_'), 'mutex_')
GUARDED = {
    'common::ThreadPool': dict.fromkeys(('running_', 'pool_', 'task_queue_', 'tasks_not_ready_'), 'mutex_'),
    'common::Task': dict.fromkeys(('work_item_', 'thread_pool_to_notify_', 'state_', 'uncompleted_dependencies_', 'dependent_tasks_'), 'mutex_'),
    'common::BlockingQueue': dict.fromkeys(('deque_', 'queue_size_'), 'mutex_'),
    'mapping::ConnectedComponents': dict.fromkeys(('forest_', 'connection_map_'), 'lock_'),
    'mapping::constraints::ConstraintBuilder2D': CB,
    'mapping::constraints::ConstraintBuilder3D': dict(CB, rotational_score_histogram_='mutex_', low_resolution_score_histogram_='mutex_'),
    'mapping::PoseGraph2D': dict(PG, work_queue_='work_queue_mutex_'),
    'mapping::PoseGraph3D': dict(PG, work_queue_='work_queue_mutex_'),
}
# Objects that stand for the locked pose graph: they may only be made while its lock is held.
VIEWS = {'mapping::PoseGraph%s::TrimmingHandle' % d: [('mapping::PoseGraph' + d, 'mutex_')] for d in ('2D', '3D')}

# At the end of their object's life these are no longer shared: no thread uses a task that is destroyed, and the list of threads only ever belongs to the pool itself.
UNSHARED = {('common::ThreadPool', 'mutex_', 'pool_'), ('common::ThreadPool', 'mutex_', 'task_queue_'), ('common::ThreadPool', 'mutex_', 'tasks_not_ready_'), ('common::Task', 'mutex_', 'state_')}


def by_design(a):
    """Accesses that need no lock: the pose graph's own thread is the only one that changes the optimization problem, the
    constraints and the landmarks, so it may read these and solve without holding up queries; a task's work item is only
    touched by the thread that runs it once it was dispatched."""
    cls = a.lock[-3]
    if cls.startswith('mapping::PoseGraph'):
        if a.field.startswith('optimization_problem_'):
            return a.mode in ('read', 'call Solve', 'call operator->', 'call operator*', 'call get') and a.lock[0] == 'closure'
        return a.field.split('.')[:2] in (['data_', 'constraints'], ['data_', 'landmark_nodes']) and a.mode == 'read' and a.lock[0] == 'closure'
    if cls == 'common::Task':
        return a.field == 'work_item_' and a.mode in ('read', 'call operator()', 'call operator bool')
    if cls == 'common::BlockingQueue':
        return a.field == 'queue_size_' and a.mode == 'read'       # never changes
    return False


def where(path):
    return ' -> '.join('%s:%s' % x for x in path)


def check(ctx):
    p = ctx.program(*TUS)
    guards, mutexes = {}, set()
    for r in p.records.values():
        for f in r['fields']:
            if 'absl::Mutex' in r['T'][f['t']] or r['T'][f['t']].startswith('std::mutex'):
                mutexes.add((r['sqn'], f['n']))
    present = {(r['sqn'], f['n']) for r in p.records.values() for f in r['fields']}
    for c, fs in GUARDED.items():
        for n, m in fs.items():
            if (c, n) in present and (c, m) in mutexes:
                guards[(c, n)] = m
    for r in p.records.values():
        for f in r['fields']:
            for g in f.get('guard') or []:
                if isinstance(g, dict) and g.get('n'):
                    guards.setdefault((r['sqn'], f['n']), g['n'])
    ctx.need(guards, 'guarded members')
    an = locks.Analysis(p, guards, lambda c, n: (c, n) in mutexes, VIEWS)
    fs = [f for f in p.funcs.values() if f.get('body') and f.get('file')]
    an.solve(fs)
    owners = {c for c, _ in guards}
    ctx.functions |= {f['id'] for f in fs}
    ctx.sites += sum(len(an.of(f)[0]) + len(an.of(f)[1]) for f in fs)
    called = set()

    def collect(x):
        if isinstance(x, dict):
            if x.get('k') in ('call', 'ctor'):
                called.update(id(g) for g in an.targets(x))
            for v in x.values():
                collect(v)
        elif isinstance(x, list):
            for v in x:
                collect(v)
    for f in fs:
        collect(f.get('body'))
    for f in sorted(fs, key=lambda f: (f['sqn'], f['l'])):
        needs, takes = an.of(f)
        cls = short(f.get('cls', '') or '')
        if cls not in VIEWS:
            asked = {(short(g.get('cls', '')), g['n']) for g in f.get('req', []) or [] if isinstance(g, dict) and g.get('n')}
            entry = not (f.get('priv') or f.get('prot')) or id(f) not in called
            seen = set()
            for a in needs:
                k = (a.lock[-3:], a.field, a.path[-1])
                if k in seen or by_design(a):
                    continue
                if f['kind'] == 'dtor' and (a.lock[-3:-1] + (a.field,)) in UNSHARED:
                    continue
                if a.lock[0] != 'closure' and (f['kind'] == 'ctor' or not entry or a.lock[-3:-1] in asked):
                    continue
                seen.add(k)
                ctx.ob('guarded-by-lock', where(a.path), False, '%s::%s is touched without holding %s' % (a.lock[-3], a.field, a.lock[-2]))
            if cls in owners or takes:
                ctx.ob('guarded-by-lock', '%s (%s:%d)' % (f['sqn'], f['file'], f['l']), True, '')
        for m, held, path in takes:
            if m[0] == 'closure':
                continue
            if m[0] == 'callback':
                ctx.ob('no-callback-under-lock', where(path), not held, '%s is called while %s is held' % (m[1] or 'a callback', ', '.join('%s::%s' % h[:2] for h in held)))
                continue
            again = m in held and m[2] == 'this'
            ctx.ob('lock-not-taken-twice', where(path), not again, '%s::%s is taken while it is held' % m[:2])
            if cls in VIEWS and m[:2] in VIEWS[cls]:
                ctx.ob('lock-not-taken-twice', where(path), False, '%s::%s is taken by an object that only exists while it is held' % m[:2])
    order(ctx, an, fs)
    escapes(ctx, p, an, fs, guards)


def order(ctx, an, fs):
    """Locks of different kinds are always nested in the same order."""
    edges = {}
    for f in fs:
        for m, held, path in an.of(f)[1]:
            if m[0] in ('closure', 'callback'):
                continue
            for h in held:
                if h[:2] != m[:2]:
                    edges.setdefault(h[:2], {}).setdefault(m[:2], path)
    for a in sorted(edges):
        for b in sorted(edges[a]):
            # a is held while b is taken: b must never be held while a is taken, directly or through others
            todo, seen, back = [b], set(), None
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                for y, path in edges.get(x, {}).items():
                    if y == a:
                        back = path
                    todo.append(y)
            ctx.ob('one-lock-order', '%s::%s before %s::%s at %s' % (a + b + (where(edges[a][b]),)), back is None, 'the opposite order occurs at %s' % (where(back) if back else ''))


def escapes(ctx, p, an, fs, guards):
    """No reference or pointer to guarded state is returned to a caller that does not hold the lock."""
    for f in fs:
        cls = short(f.get('cls', '') or '')
        if cls in VIEWS or f.get('priv') or f.get('prot') or not any(c == cls for c, _ in guards) or f['kind'] in ('ctor', 'dtor'):
            continue
        ret = f['T'][f['ret']]
        bad = []
        if cls == 'common::BlockingQueue':
            continue        # Peek: documented to be used by a single consumer, who is the only one to remove

        def look(x):
            if isinstance(x, dict):
                if x.get('k') == 'lambda':
                    return
                if x.get('k') == 'return':
                    bad.extend(guarded_root(x.get('e'), guards))
                for v in x.values():
                    look(v)
            elif isinstance(x, list):
                for v in x:
                    look(v)
        if (ret.endswith('&') or ret.endswith('*')) and not f.get('req'):
            look(f['body'])
        ctx.ob('guarded-state-not-handed-out', '%s (%s:%d)' % (f['sqn'], f['file'], f['l']), not bad, 'a reference to %s leaves the lock' % ', '.join(sorted(set(bad))))


def guarded_root(e, guards):
    e = locks.strip_casts(e)
    if not isinstance(e, dict):
        return []
    if e.get('k') == 'mem':
        if (short(e.get('cls', '')), e['n']) in guards:
            return [e['n']]
        return guarded_root(e.get('b'), guards)
    if e.get('k') == 'un':
        return guarded_root(e.get('e'), guards)
    if e.get('k') == 'call' and e.get('o') is not None and e.get('n') in ('at', 'operator[]', 'operator*', 'operator->', 'front', 'back', 'get', 'find', 'data'):
        return guarded_root(e['o'], guards)
    return []


main('P32', check, 'lockset', 'interprocedural lockset analysis: every access to a guarded member of the task system, constraint builders, connectivity and pose graphs holds its mutex on every path from every entry point (closures start without locks); lock nesting is acyclic and never reentrant; no guarded reference escapes', tus=TUS)
