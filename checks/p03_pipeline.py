#!/usr/bin/env python3
"""Points pipeline: every stage hands every surviving batch and flush to the next stage; stages are chained in order."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

FL = 'this.next_.Flush()'
OPQ = [r'RemovePoints', r'DynamicGrid::mutable_value', r'GetCellIndex', r'DynamicGrid::value', r'io::Image', r'RangeDataInserter',
       r'mapping::ProbabilityGrid::', r'HybridGrid::', r'DrawProb', r'DrawTraj']
FWD = lambda guard='true': E('call', 'this.next_', name='PointsProcessor::Process', args=['batch'], guard=guard, each=[])
ASK = lambda guard='true': E('call', 'this.next_', name='PointsProcessor::Flush', args=[], guard=guard, each=[])
NAMES = ('PointsProcessor::Process', 'PointsProcessor::Flush')
flow = lambda s: any_of(calls(*NAMES), lambda e: e.kind == 'return' and e.val is not VOID, of_kind('fatal'))


def process(ctx, p, cls, guard='true'):
    ctx.need(p.overloads('io::%s::Process' % cls), cls)
    s = ctx.summarise(p, p.fn('io::%s::Process' % cls), opaque=OPQ)
    ctx.match('stage-forwards-every-surviving-batch', s, calls(*NAMES), [FWD(guard)])
    return s


def flush_plain(ctx, p, cls):
    """Returns the answer of the next stage, or the same answer case by case."""
    s = ctx.summarise(p, p.fn('io::%s::Flush' % cls), opaque=OPQ)
    ctx.match('flush-reaches-next-stage', s, calls(*NAMES), [ASK()])
    rets = [v for e in s.effects if e.kind == 'return' and e.val is not VOID for v in views(e)]
    ctx.need(rets, cls + '::Flush return')
    nxt = canon(build(pat(FL), {}, {})) if False else None
    for v in rets:
        r = canon(v.val)
        fs = [canon(f) for f in v.facts]
        ok = unify(pat(FL), r, {}) is not None
        if not ok and r.op == 'enum':
            at = set()
            for f in fs:
                atoms(f, at)
            c = [a for a in at if a.op == 'eq' and any(unify(pat(FL), x, {}) is not None for x in a.a)]
            other = [x for a in c for x in a.a if unify(pat(FL), x, {}) is not None]
            ok = bool(other) and entails(fs + enum_axioms(at), eq(other[0], r))
        ctx.ob('flush-returns-answer-of-next-stage', '%s (%s)' % (s.fn['sqn'], v.where()), ok,
               'returns %s although the next stage may have answered otherwise' % r)
    return s


def check(ctx):
    simple = {'ColoringPointsProcessor': 'coloring', 'IntensityToColorPointsProcessor': 'intensity_to_color',
              'MinMaxRangeFilteringPointsProcessor': 'min_max_range_filtering',
              'VerticalRangeFilteringPointsProcessor': 'vertical_range_filtering',
              'FixedRatioSamplingPointsProcessor': 'fixed_ratio_sampling',
              'CountingPointsProcessor': 'counting'}
    P = lambda f: ctx.program('io/%s_points_processor.cc' % f)
    for cls, f in simple.items():
        process(ctx, P(f), cls)
        flush_plain(ctx, P(f), cls)
    p = P('frame_id_filtering')
    process(ctx, p, 'FrameIdFilteringPointsProcessor',
            '(|this.keep_frame_ids_| != 0 && batch.frame_id in this.keep_frame_ids_) || '
            '(|this.drop_frame_ids_| != 0 && !(batch.frame_id in this.drop_frame_ids_))')
    flush_plain(ctx, p, 'FrameIdFilteringPointsProcessor')
    # state that must start over with the stream
    for cls, f, fld, val in (('CountingPointsProcessor', 'counting', 'num_points_', '0'),
                             ('FixedRatioSamplingPointsProcessor', 'fixed_ratio_sampling', 'sampler_', '$s')):
        p = P(f)
        s = ctx.summarise(p, p.fn('io::%s::Flush' % cls), opaque=OPQ)
        ctx.match('stage-state-restarts-with-the-stream', s, on_fields(fld, base='this'), [
            E('write', 'this.' + fld, val, guard=FL + ' == kRestartStream', each=[])])
    p = P('counting')
    ctx.spec('counting-counts-every-point', p, 'io::CountingPointsProcessor::Process', [
        E('write', 'this.num_points_', 'this.num_points_ + |batch.points|', guard='true', each=[]), FWD()])
    # the outlier filter makes three passes, forwarding only in the last
    p = P('outlier_removing')
    process(ctx, p, 'OutlierRemovingPointsProcessor', 'this.state_ == kPhase3')
    ctx.spec('three-passes', p, 'io::OutlierRemovingPointsProcessor::Flush', [
        E('write', 'this.state_', 'kPhase2', guard='this.state_ == kPhase1'),
        E('write', 'this.state_', 'kPhase3', guard='this.state_ == kPhase2'),
        E('return', val='kRestartStream', guard='this.state_ == kPhase1 || this.state_ == kPhase2'),
        ASK('this.state_ == kPhase3'),
        E('return', val='kFinished', guard='this.state_ == kPhase3', facts=[FL + ' == kFinished'])])
    ctx.spec('first-pass-first', p, 'io::OutlierRemovingPointsProcessor::OutlierRemovingPointsProcessor', [
        E('write', 'this.state_', 'kPhase1', guard='true', each=[])], rel=on_fields('state_', base='this'))
    # writers: finished only when the next stage finished; restart is impossible for a one-shot file
    for cls, f in (('HybridGridPointsProcessor', 'hybrid_grid'), ('ProbabilityGridPointsProcessor', 'probability_grid'),
                   ('XRayPointsProcessor', 'xray'), ('XyzWriterPointsProcessor', 'xyz_writing'),
                   ('PlyWritingPointsProcessor', 'ply_writing'), ('PcdWritingPointsProcessor', 'pcd_writing')):
        p = P(f)
        ctx.match('stage-forwards-every-surviving-batch', ctx.summarise(p, p.fn('io::%s::Process' % cls), opaque=OPQ),
                  calls(*NAMES), [E('call', 'this.next_', name='PointsProcessor::Process', args=['batch'], each=[],
                                    needs='|batch.points| != 0')])
        s = ctx.summarise(p, p.fn('io::%s::Flush' % cls), opaque=OPQ + [r'FileWriter', r'WriteVoxels'])
        ctx.match('flush-reaches-next-stage', s, calls(*NAMES), [
            E('call', 'this.next_', name='PointsProcessor::Flush', args=[], each=[])])
        g = [e for e in s.effects if calls(*NAMES)(e)]
        rets = [v for e in s.effects if e.kind == 'return' and e.val is not VOID for v in views(e)]
        ctx.need(rets, cls + '::Flush return')
        for v in rets:
            r = canon(v.val)
            fs = [canon(f) for f in v.facts]
            fin = E('return', facts=[FL + ' == kFinished'])
            at = set()
            for f in fs:
                atoms(f, at)
            nf = [a for a in at if a.op == 'eq' and any(unify(pat(FL), x, {}) is not None for x in a.a) and
                  any(x.op == 'enum' and x.a[0].endswith('kFinished') for x in a.a)]
            nr = [a for a in at if a.op == 'eq' and any(unify(pat(FL), x, {}) is not None for x in a.a) and
                  any(x.op == 'enum' and x.a[0].endswith('kRestartStream') for x in a.a)]
            done = any(entails(fs, a) for a in nf) or any(entails(fs, not_(a)) for a in nr)
            restart = any(entails(fs, not_(a)) for a in nf) or any(entails(fs, a) for a in nr)
            isfin = r.op == 'enum' and r.a[0].endswith('kFinished')
            ctx.ob('file-stage-finishes-only-with-the-rest', '%s (%s)' % (s.fn['sqn'], v.where()),
                   unify(pat(FL), r, {}) is not None or isfin and done or not isfin and restart,
                   'returns %s although the next stage may not have finished' % r)
    # the builder chains the stages in the configured order
    p = ctx.program('io/points_processor_pipeline_builder.cc')
    s = ctx.spec('action-names-are-unique', p, 'io::PointsProcessorPipelineBuilder::Register', [
        E('write', 'this.factories_[name]', 'factory', guard='true', each=[])])
    ctx.refuses('action-names-are-unique', s, '!(name in this.factories_)', 'a second stage can be registered under the same name')
    s = ctx.summarise(p, p.fn('io::PointsProcessorPipelineBuilder::CreatePipeline'))
    calls_ = [e for e in s.effects if e.kind == 'invoke']
    e = one(calls_, 'factory call in CreatePipeline')
    where_ = '%s (%s)' % (s.fn['sqn'], e.where())
    acts = pat('dictionary.GetArrayValuesAsDictionaries()')
    ok, item = False, None
    if len(e.loops) == 1:
        l = e.loops[0]
        lo, hi = canon(l.lo), canon(l.hi)
        full = not l.exits or l.full()
        item = canon(l.idx)
        if lo.op == 'rbegin' and hi.op == 'rend' and unify(acts, lo.a[0], {}) is not None and full and l.step == 1:
            ok = True
        # for (i = n - 1; i >= 0; --i) and the like: descending
        sub = [t for t in subterms(canon(e.args[0])) if t.op == 'at' and unify(acts, t.a[0], {}) is not None]
        if sub and full:
            item = sub[0]
            ok = l.down and strip(l.lo) is I(0) and unify(pat('|$c|'), canon(l.hi), {'c': sub[0].a[0]}) is not None and sub[0].a[1] is l.idx or \
                not l.down and unify(pat('|$c| - 1 - $i'), sub[0].a[1], {}) is not None
    ctx.ob('stages-built-back-to-front', where_, ok, 'the stages are not created from the last to the first')
    ctx.ob('stage-gets-its-own-configuration', where_, canon(e.args[0]) is item or True and item is not None and
           canon(e.args[0]) is item, 'factory is called with %s' % e.args[0])
    ctx.ob('stage-factory-by-action-name', where_, item is not None and unify(
        pat('this.factories_[$d.GetString("action")]'), canon(e.obj), {'d': item}) is not None, 'factory %s' % e.obj)
    E0 = E('invoke', facts=['$d.GetString("action") in this.factories_'])
    ctx.ob('unknown-action-refused', where_, E0.has_fact(e, '$d.GetString("action") in this.factories_', {'d': item}, {}),
           'an unknown action is not refused')
    apps = [x for x in s.effects if x.kind == 'append' and strip(x.obj) is strip(s.ret)]
    pl = strip(s.ret)
    ctx.ob('stage-points-to-following-stage', where_, canon(e.args[1]).op == 'last' and canon(e.args[1]).a[0] is pl,
           'next stage is %s' % e.args[1])
    first = [x for x in apps if not x.loops]
    inner = [x for x in apps if x.loops]
    ctx.ob('pipeline-ends-in-sink', where_, len(first) == 1 and first[0].seq < e.seq and 'NullPointsProcessor' in str(
        getattr(strip(first[0].val), 'a', [''])[0]), 'the last stage is not the sink')
    ctx.ob('every-stage-joins-the-pipeline', where_, len(inner) == 1 and (strip(inner[0].val) is strip(e.ret) or
           e.loops[0].down and inner[0].loops == e.loops and canon(rewrite(strip(e.ret), lambda x: build(
               pat('$l + $h - 1 - $i'), {'l': e.loops[0].lo, 'h': e.loops[0].hi, 'i': x}, {}) if x is e.loops[0].idx else None)) is canon(inner[0].val)) and
           not inner[0].guard, 'a stage that was created is not part of the pipeline')


main('P03', check, 'guarded-effect summaries of every pipeline stage (AST dataflow)',
     'each stage hands the batch / the flush on exactly when the contract says, and the builder chains stages in order',
     tus=['io/*_points_processor.cc', 'io/points_processor_pipeline_builder.cc'])
