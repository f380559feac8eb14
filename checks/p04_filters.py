#!/usr/bin/env python3
"""Point filters: exactly the points the rule names are removed; points, colors and intensities stay aligned."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

OPQ = [r'RemovePoints', r'DynamicGrid::mutable_value', r'GetCellIndex', r'DynamicGrid::value']
FWD = lambda guard='true', tag='forward': E('call', 'this.next_', name='PointsProcessor::Process', args=['batch'], guard=guard,
                                            each=[], tag=tag)


def removing(ctx, rule, p, cls, cond, guard='true', extra=(), also=()):
    """Marks exactly the points satisfying cond, removes them, then forwards."""
    s = ctx.summarise(p, p.fn('io::%s::Process' % cls), opaque=OPQ)
    rm = one([e for e in s.effects if calls('RemovePoints')(e)], 'RemovePoints call in ' + cls)
    marked = strip(rm.args[0])
    rel = any_of(calls('RemovePoints', 'PointsProcessor::Process', *also),
                 lambda e: e.kind in ('append', 'mutate', 'write') and target(e.obj) is marked,
                 on_fields('points', 'colors', 'intensities', 'origin', 'frame_id', 'start_time', 'trajectory_id'),
                 on_fields('hits', 'rays'))
    g = cond if guard == 'true' else '(%s) && (%s)' % (guard, cond)
    ctx.spec_on(rule, s, [
        E('append', '$o', '$i', guard=g, each=['batch.points'], casts=True, tag='mark'),
        E('call', name='RemovePoints', args=['$o', 'batch'], guard=guard, each=[], tag='remove'),
        FWD(guard)] + list(extra), rel=rel, order=['mark<remove<forward'])


def check(ctx):
    P = lambda f: ctx.program('io/%s_points_processor.cc' % f)
    # removal keeps the three arrays aligned
    p = ctx.program('io/points_batch.cc')
    s = ctx.summarise(p, p.fn('io::RemovePoints'))
    ctx.spec_on('survivors-keep-order-and-attributes', refilled(s) or s, [x for f in ('points', 'colors', 'intensities') for x in (
        E('mutate', 'batch.' + f, name='clear', guard='true', each=[]),
        E('append', 'batch.' + f, 'batch.%s[$i]' % f, each=['batch.points' if f == 'points' else 'batch.points or batch.' + f], casts=True,
          guard='!($i in to_remove)' + ('' if f == 'points' else ' && |batch.%s| != 0' % f)))])
    R2 = '(batch.points[$i].position - batch.origin).squaredNorm()'
    removing(ctx, 'range-filter-keeps-exactly-the-range', P('min_max_range_filtering'), 'MinMaxRangeFilteringPointsProcessor',
             '%s < this.min_range_squared_ || this.max_range_squared_ < %s' % (R2, R2))
    p = P('min_max_range_filtering')
    ctx.spec('range-limits-squared', p, 'io::MinMaxRangeFilteringPointsProcessor::MinMaxRangeFilteringPointsProcessor', [
        E('write', 'this.min_range_squared_', 'min_range * min_range', guard='true'),
        E('write', 'this.max_range_squared_', 'max_range * max_range', guard='true')],
        rel=on_fields('min_range_squared_', 'max_range_squared_'))
    Z = 'batch.points[$i].position[2]'
    removing(ctx, 'vertical-filter-keeps-exactly-the-slab', P('vertical_range_filtering'), 'VerticalRangeFilteringPointsProcessor',
             '%s < this.min_z_ + batch.origin[2] || this.max_z_ + batch.origin[2] < %s' % (Z, Z))
    p = P('vertical_range_filtering')
    ctx.spec('slab-limits', p, 'io::VerticalRangeFilteringPointsProcessor::VerticalRangeFilteringPointsProcessor', [
        E('write', 'this.min_z_', 'min_z', guard='true'), E('write', 'this.max_z_', 'max_z', guard='true')],
        rel=on_fields('min_z_', 'max_z_'))
    removing(ctx, 'sampling-one-pulse-per-point', P('fixed_ratio_sampling'), 'FixedRatioSamplingPointsProcessor',
             '!this.sampler_.Pulse()', extra=[E('call', 'this.sampler_', name='FixedRatioSampler::Pulse', args=[],
                                                guard='true', each=['batch.points'])], also=['FixedRatioSampler::Pulse'])
    p = P('outlier_removing')
    V = lambda pos: 'this.voxels_.mutable_value(this.voxels_.GetCellIndex(%s))' % pos
    pos = 'batch.points[$i].position'
    C = 'this.voxels_.value(this.voxels_.GetCellIndex(%s))' % pos
    D = '(batch.points[$i].position - batch.origin)'
    S = 'batch.origin + ($t / %s.norm()) * %s' % (D, D)
    removing(ctx, 'outlier-filter-three-passes', p, 'OutlierRemovingPointsProcessor',
             'this.miss_per_hit_limit_ * %s.hits <= %s.rays' % (C, C), 'this.state_ == kPhase3', extra=[
                 E('write', V(pos) + '.hits', V(pos) + '.hits + 1', guard='this.state_ == kPhase1', each=['batch.points']),
                 E('write', V('$p') + '.rays', V('$p') + '.rays + 1', each=['batch.points', None],
                   implies='this.state_ == kPhase2 && 0 < this.voxels_.value(this.voxels_.GetCellIndex($p)).hits')])
    s = ctx.summarise(p, p.fn('io::OutlierRemovingPointsProcessor::Process'), opaque=OPQ)
    rays = [e for e in s.effects if on_fields('rays')(e)]
    for e in rays:
        b = unify(pat(V(S) + '.rays'), canon(target(e.obj)), {})
        l = e.loops[-1]
        ok = b is not None and (unify(pat('iter($j, 0, acc() + cast($t, this.voxel_size_))'), canon(b['t']), {}) or
                                unify(pat('iter($j, 0, acc() + this.voxel_size_)'), canonc(b['t']), {})) is not None
        ctx.ob('rays-sampled-every-voxel-from-origin-to-point', '%s (%s)' % (s.fn['sqn'], e.where()), ok,
               'ray sample %s' % e.obj)
        if ok:
            want = [canon(f) for f in e.facts]
            t = canon(b['t'])
            ok = any(unify(pat('$t < %s.norm()' % D), f, {'t': t}) is not None for f in want) and \
                not [x for x in l.exits if x[0] != 'cond']
            ctx.ob('rays-sampled-up-to-the-point', '%s (%s)' % (s.fn['sqn'], e.where()), ok, 'sampling bound: %s' % want)
    # colouring
    p = P('coloring')
    G = 'this.frame_id_ == batch.frame_id'
    ctx.spec('one-color-per-point', p, 'io::ColoringPointsProcessor::Process', [
        E('mutate', 'batch.colors', name='clear', guard=G, tag='clear', each=[]),
        E('append', 'batch.colors', 'this.color_', guard=G, each=['batch.points'], tag='color'), FWD()],
        order=['clear<color<forward'])
    p = P('intensity_to_color')
    G = '|batch.intensities| != 0 && (|this.frame_id_| == 0 || this.frame_id_ == batch.frame_id)'
    X = 'Clamp((batch.intensities[$i] - this.min_intensity_) / (this.max_intensity_ - this.min_intensity_), 0, 1)'
    ctx.spec('gray-value-per-intensity', p, 'io::IntensityToColorPointsProcessor::Process', [
        E('mutate', 'batch.colors', name='clear', guard=G, tag='clear', each=[]),
        E('append', 'batch.colors', '{_M_elems=list(%s, %s, %s)}' % (X, X, X), guard=G, each=['batch.intensities'], tag='color'),
        FWD()], order=['clear<color<forward'], opaque=['Clamp'])
    ctx.spec('intensity-limits', p, 'io::IntensityToColorPointsProcessor::IntensityToColorPointsProcessor', [
        E('write', 'this.min_intensity_', 'min_intensity', guard='true'),
        E('write', 'this.max_intensity_', 'max_intensity', guard='true'),
        E('write', 'this.frame_id_', 'frame_id', guard='true')], rel=on_fields('min_intensity_', 'max_intensity_', 'frame_id_'))
    # configuration reaches the stage
    key = {'GetDouble': ('min_range', 'max_range')}
    p = P('min_max_range_filtering')
    ctx.spec('range-limits-from-their-keys', p, 'io::MinMaxRangeFilteringPointsProcessor::FromDictionary', [
        E('write', '$o.min_range_squared_', 'dictionary.GetDouble("min_range") * dictionary.GetDouble("min_range")', guard='true'),
        E('write', '$o.max_range_squared_', 'dictionary.GetDouble("max_range") * dictionary.GetDouble("max_range")', guard='true')],
        rel=on_fields('min_range_squared_', 'max_range_squared_'))
    p = P('vertical_range_filtering')
    ctx.spec('slab-limits-from-their-keys', p, 'io::VerticalRangeFilteringPointsProcessor::FromDictionary', [
        E('write', '$o.min_z_', 'dictionary.GetDouble("min_z")', guard='true'),
        E('write', '$o.max_z_', 'dictionary.GetDouble("max_z")', guard='true')], rel=on_fields('min_z_', 'max_z_'))
    p = P('outlier_removing')
    ctx.spec('outlier-limit-from-its-key', p, 'io::OutlierRemovingPointsProcessor::FromDictionary', [
        E('write', '$o.voxel_size_', 'dictionary.GetDouble("voxel_size")', guard='true'),
        E('write', '$o.miss_per_hit_limit_', 'dictionary.GetDouble("miss_per_hit_limit")',
          guard='dictionary.HasKey("miss_per_hit_limit")'),
        E('write', '$o.miss_per_hit_limit_', '3', guard='!dictionary.HasKey("miss_per_hit_limit")')],
        rel=on_fields('voxel_size_', 'miss_per_hit_limit_'))
    p = P('intensity_to_color')
    ctx.spec('intensity-limits-from-their-keys', p, 'io::IntensityToColorPointsProcessor::FromDictionary', [
        E('write', '$o.min_intensity_', 'dictionary.GetDouble("min_intensity")', guard='true', casts=True),
        E('write', '$o.max_intensity_', 'dictionary.GetDouble("max_intensity")', guard='true', casts=True)],
        rel=on_fields('min_intensity_', 'max_intensity_'))
    p = P('fixed_ratio_sampling')
    ctx.spec('sampling-ratio-from-its-key', p, 'io::FixedRatioSamplingPointsProcessor::FromDictionary', [
        E('write', '$o.sampling_ratio_', 'dictionary.GetDouble("sampling_ratio")', guard='true',
          facts=['0 < dictionary.GetDouble("sampling_ratio")', 'dictionary.GetDouble("sampling_ratio") < 1'])],
        rel=on_fields('sampling_ratio_'))
    p = P('frame_id_filtering')
    ctx.spec('keep-and-drop-lists', p, 'io::FrameIdFilteringPointsProcessor::FrameIdFilteringPointsProcessor', [
        E('write', 'this.keep_frame_ids_', 'keep_frame_ids', guard='true'),
        E('write', 'this.drop_frame_ids_', 'drop_frame_ids', guard='true')], rel=on_fields('keep_frame_ids_', 'drop_frame_ids_'))
    # the sampler keeps the configured ratio
    p = ctx.program('common/fixed_ratio_sampler.cc')
    R = 'this.num_samples_ < this.ratio_ * (this.num_pulses_ + 1)'
    ctx.spec('sampler-ratio', p, 'common::FixedRatioSampler::Pulse', [
        E('write', 'this.num_pulses_', 'this.num_pulses_ + 1', guard='true', each=[]),
        E('write', 'this.num_samples_', 'this.num_samples_ + 1',
          guard='this.num_samples_ / (this.num_pulses_ + 1) < this.ratio_'),
        E('return', val='true', guard='this.num_samples_ / (this.num_pulses_ + 1) < this.ratio_'),
        E('return', val='false', guard='!(this.num_samples_ / (this.num_pulses_ + 1) < this.ratio_)')])
    ctx.spec('sampler-starts-fresh', p, 'common::FixedRatioSampler::FixedRatioSampler', [
        E('write', 'this.ratio_', 'ratio', guard='true')], rel=on_fields('ratio_'))


main('P04', check, 'guarded-effect summaries of the point filters (AST dataflow)',
     'the set of removed points is exactly the one the filter defines; every array of the batch is filtered alike',
     tus=['io/*_points_processor.cc', 'io/points_batch.cc', 'common/fixed_ratio_sampler.cc'])
