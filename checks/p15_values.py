#!/usr/bin/env python3
"""Cell values: how probabilities, costs, distances and weights become 16-bit values and back, and how odds are applied."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

PV, CT, TC = 'mapping/probability_values.cc', 'mapping/value_conversion_tables.cc', 'mapping/internal/2d/tsd_value_converter.cc'


def to_value(x, lo, hi):
    return '(1 + RoundToInt((Clamp({0}, {1}, {2}) - {1}) * (32766 / ({2} - {1}))))'.format(x, lo, hi)


PR, CC = ('kMinProbability', 'kMaxProbability'), ('kMinCorrespondenceCost', 'kMaxCorrespondenceCost')
OP = ['common::Clamp', 'RoundToInt']


def every_value(apps):
    """32768 numbers twice over, or one run over all 16-bit values whose marker is masked out."""
    one = pat('SlowValueToBoundedFloat($v, unknown_value, unknown_result, lower_bound, upper_bound)')
    n = 0
    for e in apps:
        b = unify(one, E('append', casts=True).st(e.val), {})
        if e.guard or len(e.loops) != 1 or b is None or e.loops[0].exits or e.loops[0].C is not None:
            return False
        l, v = e.loops[0], E('append', casts=True).st(b['v'])
        hi = E('append', casts=True).st(l.hi)
        if strip(l.lo) is not I(0):
            return False
        if v.op == 'idx':
            if hi is not I(32768):
                return False
            n += 1
        elif any(x.op == 'idx' for x in subterms(v)) and masks(v) and (hi is I(65536) or show(hi) in ('(1 + lim())', '(lim() + 1)', 'lim() + 1') or 'lim' in show(hi) and '1' in show(hi)):
            n += 2
        else:
            return False
    return n == 2


def masks(v):
    s = pshow(v)
    return '32768' in s and '~' in s and '&' in s or '32767' in s and '&' in s or '%' in s and '32768' in s


def check(ctx):
    p, q, t = ctx.program(PV), ctx.program(CT), ctx.program(TC)
    m = 'mapping::'
    val = lambda *a, **k: ctx.value(*a, casts=True, **k)
    for g, want in (('kMinProbability', 0.1), ('kMaxProbability', 0.9), ('kMinCorrespondenceCost', 0.1), ('kMaxCorrespondenceCost', 0.9)):
        v = p.global_value(m + g)
        ctx.ob('value-range', m + g, v is not None and abs(v - want) < 1e-6, '%s is %s' % (g, v))
    val('odds', p, m + 'Odds', 'probability / (1 - probability)')
    val('odds', p, m + 'ProbabilityFromOdds', 'odds / (1 + odds)')
    val('cost-is-the-complement', p, m + 'ProbabilityToCorrespondenceCost', '1 - probability')
    val('cost-is-the-complement', p, m + 'CorrespondenceCostToProbability', '1 - correspondence_cost')
    val('clamping', p, m + 'ClampProbability', 'Clamp(probability, kMinProbability, kMaxProbability)', opaque=OP)
    val('clamping', p, m + 'ClampCorrespondenceCost', 'Clamp(correspondence_cost, kMinCorrespondenceCost, kMaxCorrespondenceCost)', opaque=OP)
    for f in p.overloads('common::Clamp'):
        n = [x['n'] for x in f['params']]
        val('clamping', p, f, {'%s > %s' % (n[0], n[2]): n[2], '%s < %s && %s <= %s' % (n[0], n[1], n[0], n[2]): n[1], '%s >= %s && %s <= %s' % (n[0], n[1], n[0], n[2]): n[0]})
    val('value-of-a-number', p, m + 'BoundedFloatToValue', to_value('float_value', 'lower_bound', 'upper_bound'), opaque=OP)
    val('value-of-a-number', p, m + 'ProbabilityToValue', to_value('probability', *PR), opaque=OP)
    val('value-of-a-number', p, m + 'CorrespondenceCostToValue', to_value('correspondence_cost', *CC), opaque=OP)
    val('number-of-a-value', p, m + 'ValueToProbability', 'kValueToProbability[value]')
    val('number-of-a-value', p, m + 'ValueToCorrespondenceCost', 'kValueToCorrespondenceCost[value]')
    for fn, x, tab, dst in (('ProbabilityValueToCorrespondenceCostValue', 'probability_value', 'kValueToProbability', CC),
                            ('CorrespondenceCostValueToProbabilityValue', 'correspondence_cost_value', 'kValueToCorrespondenceCost', PR)):
        plain = to_value('1 - %s[%s]' % (tab, x), *dst)
        carry = '32768 + ' + to_value('1 - %s[-32768 + %s]' % (tab, x), *dst)
        val('conversion-keeps-unknown-and-marker', p, m + fn, {x + ' == 0': '0', '%s != 0 && %s <= 32768' % (x, x): plain, x + ' > 32768': carry}, opaque=OP)
    # tables
    for pr in (p, q):
        f = pr.fn(m + 'SlowValueToBoundedFloat')
        sc = '(upper_bound - lower_bound) / 32766'
        val('number-of-a-value', pr, f, {'value == unknown_value': 'unknown_result', 'value != unknown_value': 'value * ({0}) + (lower_bound - {0})'.format(sc)})
        s = ctx.summarise(pr, f)
        ctx.refuses('marked-values-refused', s, 'value < 32768', 'a value with the update marker is converted')
        s = ctx.summarise(pr, pr.fn(m + 'PrecomputeValueToBoundedFloat'), opaque=['SlowValueToBoundedFloat'])
        apps = [e for e in s.effects if e.kind == 'append']
        ctx.ob('a-number-for-every-value-marked-or-not', s.fn['sqn'], every_value(apps), 'the table does not hold the number of each value twice, without and with the marker: ' + '; '.join(map(brief, apps)))
    for fn, a in (('PrecomputeValueToProbability', ('kMinProbability', 'kMinProbability', 'kMaxProbability')),
                  ('PrecomputeValueToCorrespondenceCost', ('kMaxCorrespondenceCost', 'kMinCorrespondenceCost', 'kMaxCorrespondenceCost'))):
        val('number-of-a-value', p, m + fn, 'PrecomputeValueToBoundedFloat(0, %s, %s, %s)' % a, opaque=['PrecomputeValueToBoundedFloat'])
    for g, fn in (('kValueToProbability', 'PrecomputeValueToProbability'), ('kValueToCorrespondenceCost', 'PrecomputeValueToCorrespondenceCost')):
        x = p.global_init(m + g)
        ctx.ob('number-of-a-value', m + g, fn in x and not any(o in x for o in ('PrecomputeValueToProbability', 'PrecomputeValueToCorrespondenceCost') if o != fn), '%s is initialised by %s' % (g, x))
    # applying odds
    prob, cost = 'ProbabilityToValue(ProbabilityFromOdds(%s))', 'CorrespondenceCostToValue(ProbabilityToCorrespondenceCost(ProbabilityFromOdds(%s)))'
    for fn, mk, old in (('ComputeLookupTableToApplyOdds', prob, 'odds * Odds(kValueToProbability[$i])'),
                        ('ComputeLookupTableToApplyCorrespondenceCostOdds', cost, 'odds * Odds(CorrespondenceCostToProbability(kValueToCorrespondenceCost[$i]))')):
        s = ctx.summarise(p, p.fn(m + fn), opaque=['ProbabilityToValue', 'CostToValue', 'FromOdds', 'mapping::Odds', 'ProbabilityToCorr', 'CostToProb'])
        ctx.spec_on('odds-applied-to-every-value', s, [
            E('append', '$r', '32768 + ' + mk % 'odds', guard='true', each=[], casts=True, tag='unknown'),
            E('append', '$r', '32768 + ' + mk % old, guard='true', each=['1..32768'], casts=True, tag='known')], rel=lambda e: e.kind == 'append', order=['unknown<known'])
    # conversion tables by bounds
    K = 'this.bounds_to_lookup_table_[$k]'
    T = '$k in this.bounds_to_lookup_table_'
    B = 'PrecomputeValueToBoundedFloat(0, unknown_result, lower_bound, upper_bound)'
    s = ctx.summarise(q, q.fn(m + 'ValueConversionTables::GetConversionTable'), opaque=['PrecomputeValueToBoundedFloat'])
    ctx.spec_on('table-per-bounds', s, [
        E('append', 'this.bounds_to_lookup_table_', B, args=['$k'], guard='!(%s)' % T), E('return', val=B, guard='!(%s)' % T), E('return', val=K, guard=T)],
        rel=lambda e: e.kind in ('append', 'return', 'mutate') or on_fields('bounds_to_lookup_table_')(e))
    key = [e.args[0] for e in s.effects if e.kind == 'append' and e.args]
    w = {strip(e.obj).a[1]: strip(e.val) for e in s.effects if e.kind == 'write' and key and strip(e.obj).op == 'f' and strip(strip(e.obj).a[0]) is strip(key[0])}
    ctx.ob('table-per-bounds', s.fn['sqn'], sorted(show(x) for x in w.values()) == ['lower_bound', 'unknown_result', 'upper_bound'] or
           key and all(x in show(key[0]) for x in ('lower_bound', 'unknown_result', 'upper_bound')), 'tables of different bounds share an entry')
    # TSDF values
    V = m + 'TSDValueConverter::'
    W = 'g("min_weight_")'
    s = ctx.summarise(t, [f for f in t.overloads(V + 'TSDValueConverter') if len(f['params']) == 3][0], opaque=['GetConversionTable'])
    ctx.final('distance-and-weight-values', t, None, {
        'this.max_tsd_': 'max_tsd', 'this.min_tsd_': '-max_tsd', 'this.max_weight_': 'max_weight', 'this.tsd_resolution_': '16383 / max_tsd',
        'this.weight_resolution_': '32766 / (max_weight - %s)' % W, 'this.value_to_tsd_': 'conversion_tables.GetConversionTable(-max_tsd, -max_tsd, max_tsd)',
        'this.value_to_weight_': 'conversion_tables.GetConversionTable({0}, {0}, max_weight)'.format(W)}, s=s)
    val('distance-and-weight-values', t, V + 'TSDToValue', '1 + RoundToInt((Clamp(tsd, this.min_tsd_, this.max_tsd_) - this.min_tsd_) * this.tsd_resolution_)', opaque=OP)
    val('distance-and-weight-values', t, V + 'WeightToValue', '1 + RoundToInt((Clamp(weight, {0}, this.max_weight_) - {0}) * this.weight_resolution_)'.format(W), opaque=OP)
    for fn, v in (('ValueToTSD', 'this.value_to_tsd_[value]'), ('ValueToWeight', 'this.value_to_weight_[value]'), ('getMaxTSD', 'this.max_tsd_'), ('getMinTSD', 'this.min_tsd_'),
                  ('getMaxWeight', 'this.max_weight_'), ('getMinWeight', W), ('getUnknownTSDValue', '0'), ('getUnknownWeightValue', '0'), ('getUpdateMarker', '32768')):
        val('distance-and-weight-values', t, V + fn, v)
    g = t.global_value(V + 'min_weight_')
    ctx.ob('distance-and-weight-values', V + 'min_weight_', g == 0, 'the smallest weight is %s' % g)


if __name__ == '__main__':
    main('P15', check, 'value-flow summaries of the conversion code compared with the value equations',
         'every conversion, table entry and constant is the one of the definition, on every path', tus=[PV, CT, TC])
