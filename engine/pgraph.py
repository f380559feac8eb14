"""Shared by the checks of the 2D and 3D pose graph."""
from base import *

TUS = ['mapping/internal/2d/pose_graph_2d.cc', 'mapping/internal/3d/pose_graph_3d.cc']
M, W = ['this.mutex_'], ['this.work_queue_mutex_']
LIB = ['Task::', 'ThreadPool::', 'Metric', 'metrics::', r'ConstraintBuilder[23]D::', r'OptimizationProblem[23]D::', r'Rigid[23]::', 'transform::', 'TrajectoryConnectivityState::', 'FixedRatioSampler::',
       'PoseGraphTrimmer::', r'Submap[23]D::Submap[23]D', 'mapping::FromProto', 'Histogram::']
OWN = ['AddWorkItem', 'CanAddWorkItemModifying', 'IsTrajectoryFinished', 'IsTrajectoryFrozen', 'AddTrajectoryIfNeeded', 'InitializeGlobalSubmapPoses', 'GetLatestNodeTime', 'ComputeConstraint',
       'ComputeLocalToGlobalTransform', 'GetLocalToGlobalTransform', 'UpdateTrajectoryConnectivity', 'DeleteTrajectoriesIfNeeded', 'HandleWorkQueue', 'DrainWorkQueue', 'RunOptimization', 'WaitForAllComputations',
       'GetSubmapDataUnderLock', 'ComputeConstraintsForNode', 'GetInterpolatedGlobalTrajectoryPose', 'GetTrajectoryStates']


class Graph:
    def __init__(self, ctx, d):
        self.ctx, self.d = ctx, d
        self.p = ctx.program(TUS[d - 2])
        self.cls = 'mapping::PoseGraph%dD' % d
        self.R = 'Rigid%d' % d

    def s(self, name, inline=(), cls=None):
        c = cls or self.cls
        op = LIB + [r'PoseGraph%dD::%s$' % (self.d, n) for n in OWN if n != name and n not in inline]
        f = name if isinstance(name, dict) else self.p.fn(c + '::' + name)
        return self.ctx.summarise(self.p, f, opaque=op)

    def items(self, s, rule):
        """The work items a function hands to the queue: [(call, closure)]."""
        r = []
        for e in s.effects:
            if e.kind == 'call' and e.name.endswith('::AddWorkItem'):
                self.ctx.owns(rule, s, e.args[0])
                r.append((e, self.ctx.closure(s, e.args[0])))
        return r


DATA = of_kind('write', 'append', 'mutate')


def local(s):
    """Effects on objects of the function itself."""
    def f(e):
        r = target(e.obj) if e.obj is not None else None
        while r is not None and r.op in ('f', 'at', 'v'):
            r = r.a[0]
        return r is not None and r.op in ('obj', 'loc', 'copy')
    return f


def state(*fields):
    """Changes of the state of the graph and calls that change its parts."""
    def f(e):
        if e.kind in ('write', 'append', 'mutate'):
            r = target(e.obj)
            while r.op in ('f', 'at', 'v', 'call') and r.a and isinstance(r.a[0], Term) and r.op != 'call':
                r = r.a[0]
            return r.op not in ('obj', 'loc', 'copy')
        if e.kind == 'call':
            n = e.name.split('::')
            return not (e.x or {}).get('const') and n[-2:-1] and (n[-2].startswith(('OptimizationProblem', 'ConstraintBuilder', 'TrajectoryConnectivityState', 'ThreadPool')) or n[-2].startswith('PoseGraph') and n[-1] in OWN) and \
                n[-1] not in ('CanAddWorkItemModifying', 'IsTrajectoryFinished', 'IsTrajectoryFrozen', 'GetNumFinishedNodes', 'submap_data', 'node_data')
        return e.kind == 'invoke'
    return f


def relative(s, c, e):
    """The closure's effects under what held when it was made."""
    import copy as _c
    r = _c.copy(c)
    base = set(e.guard)
    out = []
    for x in c.effects:
        y = _c.copy(x)
        y.pc = type(x.pc)((f, t) for f, t in x.pc if f not in base)
        out.append(y)
    r.effects = out
    r.params = list(s.params) + list(c.params)
    return r
