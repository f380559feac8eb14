#!/usr/bin/env python3
"""Point files: the header describes exactly the bytes that follow, for every number of points and batches."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

OPQ = [r'common::Clamp', r'common::RoundToInt']
NP = 'this.num_points_'


def holds(facts, e):
    """Does the effect happen under these facts? True/False, or None when they do not settle it."""
    g = and_(*[canon(f) for f in e.guard])
    if entails(facts, g):
        return True
    if entails(facts, not_(g)):
        return False
    return None


def text_of(ctx, s, facts, t, where):
    """Tokens of the text a header call is given: literal text, or ('num', value), or ('each', container, tokens)."""
    t = canon(t)
    if t.op == 'cat':
        return sum((text_of(ctx, s, facts, x, where) for x in t.a), [])
    if t.op == 'str' or t.op == 'lit':
        return [str(t.a[0])]
    if t.op in ('ite',):
        if entails(facts, t.a[0]):
            return text_of(ctx, s, facts, t.a[1], where)
        if entails(facts, not_(t.a[0])):
            return text_of(ctx, s, facts, t.a[2], where)
    m = unify(pat('$o.str()'), t, {})
    if m is None:
        return [('val', t)]
    out = []
    for e0 in s.effects:
        if e0.kind != 'append' or canon(target(e0.obj)) is not canon(target(m['o'])):
            continue
        for e in views(e0):
            h = holds(facts, e)
            if h is None:
                raise AnalysisError('%s: cannot decide whether the header contains %s' % (where, e.val))
            if h:
                x = text_of(ctx, s, facts, canon_idx(canon(e.val), e.loops), where)
                if e.loops:
                    x = [('each', canon(e.loops[-1].C) if e.loops[-1].C is not None else None, tuple(x))]
                out += x
    return out


def merge(tokens):
    """Join literals; turn [setw(15), setfill('0'), n] into a fixed-width number."""
    out, width, fill = [], None, None
    for t in tokens:
        if isinstance(t, str):
            if out and isinstance(out[-1], str):
                out[-1] += t
            elif t:
                out.append(t)
        elif t[0] == 'val':
            v = t[1]
            w = unify(pat('setw($n)'), v, {})
            f = unify(pat('setfill($n)'), v, {})
            if w:
                width = w['n']
            elif f:
                fill = f['n']
            else:
                out.append(('num', v, width, fill))
                width = None
        else:
            if out and out[-1] == t:
                continue
            if out and isinstance(out[-1], tuple) and out[-1][0] == 'each' and out[-1][1] is t[1]:
                out[-1] = ('each', t[1], out[-1][2] + t[2])
            else:
                out.append(t)
    return out


def header(ctx, s, facts):
    """Tokens of the header text written under the facts."""
    hs = [e for e0 in s.effects if calls('FileWriter::WriteHeader')(e0) for e in views(e0) if holds(facts, e)]
    if len(hs) != 1 or hs[0].loops:
        return None, None
    e = hs[0]
    t, n = canon(e.args[0]), canon(e.args[1])
    while unify(pat('$o.data()'), t, {}) or unify(pat('$o.c_str()'), t, {}):
        t = t.a[0] if isinstance(t.a[0], Term) else t.a[1]
    ctx.ob('whole-header-written', '%s (%s)' % (s.fn['sqn'], e.where()), n is canon(size(t)), 'writes %s of %s' % (n, t))
    return merge(text_of(ctx, s, facts, t, s.fn['sqn'])), e


def cells(ctx, s, facts, e):
    """(offset, size, value) pieces of the bytes of one Write call."""
    n = canon(e.args[1])
    t = canon(e.args[0])
    if n.op != 'i':
        n = canon(n)
    sz = n.a[0] if n.op == 'i' else None
    if t.op == 'obj':
        out = {}
        for w in s.effects:
            tt = target(w.obj) if w.kind == 'write' else None
            if tt is None or tt.op != 'at' or strip(tt.a[0]) is not strip(t):
                continue
            if w.seq > e.seq or holds(facts, w) is False:
                continue
            o = canon(tt.a[1])
            if o.op != 'i':
                return None
            k = canon(w.args[0]).a[0] if w.name == 'memcpy' and canon(w.args[0]).op == 'i' else 1
            out[o.a[0]] = (k, canon(w.val))
        pos, res = 0, []
        for o in sorted(out):
            if o != pos:
                return None
            res.append(out[o])
            pos += out[o][0]
        return res if pos == sz else None
    m = unify(pat('{_M_elems=$l}'), t, {})
    if m and m['l'].op == 'list':
        return [(1, x) for x in m['l'].a] if len(m['l'].a) == sz or n is canon(size(t)) else None
    if t.op == 'list':
        return [(1, stripcast(x) if stripcast(x).op == 'i' else x) for x in t.a] if len(t.a) == sz else None
    m = unify(pat('$o.data()'), t, {})
    if m:
        t = m['o']
    p = unify(pat('batch.points[$i].position'), t, {})
    if p:
        return [(4, canon(at(t, I(k)))) for k in range(3)] if sz == 12 else None
    return [(sz, t)]


def record(ctx, s, facts):
    """Pieces of the record written for every point, in order."""
    out, loop = [], None
    for e0 in s.effects:
        if not calls('FileWriter::Write')(e0):
            continue
        for e in views(e0):
            h = holds(facts, e)
            if h is None:
                return None, 'whether %s is written is not settled by the header' % brief(e)
            if not h:
                continue
            if len(e.loops) != 1 or not e.loops[0].full() or canon(e.loops[0].lo) is not I(0):
                return None, '%s is not written once for every point' % brief(e)
            hi = canon(e.loops[0].hi)
            if unify(pat('|batch.points|'), hi, {}) is None:
                return None, '%s is written for %s' % (brief(e), hi)
            c = cells(ctx, s, facts, e)
            if c is None:
                return None, '%s: bytes not understood' % brief(e)
            out += c
    return out, None


BYTE = lambda k: 'cast(unsigned char, RoundToInt(255 * Clamp(batch.colors[$i][%d], 0, 1)))' % k
POS = lambda k: 'batch.points[$i].position[%d]' % k
PLY = {('float', 'x'): (4, POS(0)), ('float', 'y'): (4, POS(1)), ('float', 'z'): (4, POS(2)),
       ('uchar', 'red'): (1, BYTE(0)), ('uchar', 'green'): (1, BYTE(1)), ('uchar', 'blue'): (1, BYTE(2)),
       ('float', 'intensity'): (4, 'batch.intensities[$i]')}


def ply_fields(text, col, inten):
    """Record described by a PLY header, or an explanation."""
    lines = text.split('\n')
    if lines[0] != 'ply' or 'format binary_little_endian 1.0' not in lines[1:3] or lines[-2:] != ['end_header', '']:
        return None, 'not a PLY header'
    if [l for l in lines if l.startswith('element')] != ['element vertex #']:
        return None, 'vertex count line'
    after = False
    out, names = [], []
    for l in lines:
        if l.startswith('element'):
            after = True
        if l.startswith('property'):
            q = tuple(l.split(' ')[1:])
            if not after or q not in PLY:
                return None, 'line "%s"' % l
            out.append(PLY[q])
            names.append(q[1])
    want = {'x', 'y', 'z'} | ({'red', 'green', 'blue'} if col else set()) | ({'intensity'} if inten else set())
    if sorted(names) != sorted(want):
        return None, 'properties %s' % names
    return out, None


def pcd_fields(text, col, inten):
    d = {}
    for l in text.split('\n'):
        q = l.split(' ')
        if q[0] and not l.startswith('#'):
            d[q[0]] = q[1:]
    if not text.endswith('DATA binary\n') or d.get('WIDTH') != ['#'] or d.get('POINTS') != ['#'] or d.get('HEIGHT') != ['1']:
        return None, 'counts'
    f = d.get('FIELDS')
    if f != ['x', 'y', 'z'] + (['rgb'] if col else []):
        return None, 'FIELDS %s' % f
    if d.get('SIZE') != ['4'] * len(f) or d.get('COUNT') != ['1'] * len(f) or d.get('TYPE') != ['F'] * 3 + (['U'] if col else []):
        return None, 'SIZE/TYPE/COUNT do not describe %s' % f
    out = [(4, POS(k)) for k in range(3)]
    if col:
        out += [(1, BYTE(2)), (1, BYTE(1)), (1, BYTE(0)), (1, '0')]
    return out, None


def flat(tokens, num):
    """Header text with numbers replaced; checks fixed width."""
    out, bad = '', None
    for t in tokens:
        if isinstance(t, str):
            out += t
        elif t[0] == 'num':
            if t[2] is None or canon(t[2]) is not I(15) or t[3] is None or canon(t[3]) is not I(48):
                bad = 'the number %s has no fixed width' % t[1]
            if canon(t[1]) is not num:
                bad = 'the header announces %s points, expected %s' % (t[1], num)
            out += '#'
        else:
            out += '\n'.join(['']) if False else ''
    return out, bad


def fmt(ctx, p, cls, fields, has_int):
    pr = ctx.summarise(p, p.fn('io::%s::Process' % cls), opaque=OPQ)
    fl = ctx.summarise(p, p.fn('io::%s::Flush' % cls), opaque=OPQ)
    names = {x.a[0]: x for x in pr.params if x.op == 'param'}
    B = lambda t: canon(build(pat(t), {}, names))
    w = pr.fn['sqn']
    for col in (True, False):
        for inten in ((True, False) if has_int else (False,)):
            tag = '%s [%scolors%s]' % (w, '' if col else 'no ', (', intensities' if inten else ', no intensities') if has_int else '')
            sg = lambda v, t: t if v else '!(%s)' % t
            data = ['|batch.points| != 0', sg(col, '|batch.colors| != 0')] + ([sg(inten, '|batch.intensities| != 0')] if has_int else [])
            first = [B(x) for x in data + [NP + ' == 0']]
            later = [B('|batch.points| != 0'), B(NP + ' != 0'), B(sg(col, 'this.has_colors_'))] + (
                [B(sg(inten, 'this.has_intensities_'))] if has_int else [])
            fin = [B(sg(col, 'this.has_colors_'))] + ([B(sg(inten, 'this.has_intensities_'))] if has_int else [])
            h1, e1 = header(ctx, pr, first)
            h2, e2 = header(ctx, fl, fin)
            ctx.ob('header-before-first-point', tag, h1 is not None, 'no header is written with the first batch')
            ctx.ob('header-rewritten-at-the-end', tag, h2 is not None, 'no header is written on flush')
            h3, e3 = header(ctx, pr, later)
            ctx.ob('header-only-with-first-batch', tag, h3 is None, 'a header is written with a later batch')
            if h1 is None or h2 is None:
                continue
            t1, b1 = flat(h1, I(0))
            t2, b2 = flat(h2, B(NP))
            ctx.ob('placeholder-header-has-fixed-width-count', tag, b1 is None, b1 or '')
            ctx.ob('final-header-states-the-number-of-points', tag, b2 is None, b2 or '')
            def shape(h):
                return [x if isinstance(x, str) else ('num',) if x[0] == 'num' else x for x in h]
            ctx.ob('final-header-overlays-the-placeholder', tag, shape(h1) == shape(h2), '%s versus %s' % (h1, h2))
            want, why = fields(t2, col, inten)
            ctx.ob('header-well-formed', tag, want is not None, why or '')
            if want is None:
                continue
            for name, facts in (('first batch', first), ('later batch', later)):
                rec, why = record(ctx, pr, facts)
                if rec is None:
                    ctx.ob('record-matches-header', tag + ' ' + name, False, why)
                    continue
                ok = len(rec) == len(want)
                b, msg = {}, 'record has %d pieces, the header announces %d' % (len(rec), len(want))
                if ok:
                    for (n, v), (n2, v2) in zip(rec, want):
                        x = unify(pat(v2), v, b) if n == n2 else None
                        if x is None and n == n2:
                            x = unify(pat(v2.replace('cast(unsigned char, ', '(')), canonc(v), b)
                        if x is None:
                            ok, msg = False, 'writes %s bytes of %s where the header announces %s bytes of %s' % (n, v, n2, v2)
                            break
                        b = x
                ctx.ob('record-matches-header', tag + ' ' + name, ok, msg)
            ws = [e for e0 in pr.effects if calls('FileWriter::Write')(e0) for e in views(e0)]
            if col:
                for e in ws:
                    if holds(later, e):
                        ctx.ob('attributes-present-for-every-point', '%s (%s)' % (tag, e.where()),
                               E('call').has_fact(with_facts(e, later), '|batch.points| == |batch.colors|', {}, names),
                               'batches without colors are not refused')
            if inten:
                for e in ws:
                    if holds(later, e):
                        ctx.ob('attributes-present-for-every-point', '%s (%s)' % (tag, e.where()),
                               E('call').has_fact(with_facts(e, later), '|batch.points| == |batch.intensities|', {}, names),
                               'batches without intensities are not refused')
    G = '|batch.points| != 0 && %s == 0' % NP
    ex = [E('write', 'this.has_colors_', '|batch.colors| != 0', guard=G, each=[]),
          E('write', NP, NP + ' + 1', guard='|batch.points| != 0', each=['batch.points'])]
    if has_int:
        ex.append(E('write', 'this.has_intensities_', '|batch.intensities| != 0', guard=G, each=[]))
    fs = ('has_colors_', 'num_points_') + (('has_intensities_',) if has_int else ())
    ctx.spec_on('format-fixed-by-first-batch', pr, count_alt(pr, ex), rel=on_fields(*fs, base='this'))
    # order: header before the first record; forwarding untouched
    first = [e for e in pr.effects if calls('FileWriter::WriteHeader')(e)]
    recs = [e for e in pr.effects if calls('FileWriter::Write')(e)]
    ctx.ob('header-precedes-records', w, all(a.seq < b.seq for a in first for b in recs), 'a record may precede the header')
    c = ctx.summarise(p, p.fn('io::%s::%s' % (cls, cls)))
    ctx.spec_on('stream-starts-empty', c, [E('write', NP, '0', guard='true'), E('write', 'this.has_colors_', 'false', guard='true')] +
                ([E('write', 'this.has_intensities_', 'false', guard='true')] if has_int else []), rel=on_fields(*fs, base='this'))
    # flush: header, close, then next stage
    hd = [e for e in fl.effects if calls('FileWriter::WriteHeader')(e)]
    cl = [e for e in fl.effects if calls('FileWriter::Close')(e)]
    ctx.ob('closed-after-final-header', fl.fn['sqn'], len(cl) >= 1 and all(a.seq < b.seq for a in hd for b in cl) and
           entails([], or_(*[and_(*[canon(f) for f in e.guard]) for e in cl])), 'the file is not closed on every path after the header')


def with_facts(e, extra):
    class X:
        facts = list(e.facts) + list(extra)
    return X


def count_alt(pr, ex):
    """The points may be counted one by one or once per batch."""
    n = [e for e in pr.effects if on_fields('num_points_', base='this')(e)]
    if n and all(not e.loops for e in n):
        ex[1] = E('write', NP, NP + ' + |batch.points|', guard='|batch.points| != 0', each=[])
    return ex


def check(ctx):
    fmt(ctx, ctx.program('io/ply_writing_points_processor.cc'), 'PlyWritingPointsProcessor', ply_fields, True)
    fmt(ctx, ctx.program('io/pcd_writing_points_processor.cc'), 'PcdWritingPointsProcessor', pcd_fields, False)
    # one line of text per point
    p = ctx.program('io/xyz_writing_points_processor.cc')
    s = ctx.summarise(p, p.fn('io::XyzWriterPointsProcessor::Process'))
    ws = [e for e in s.effects if calls('FileWriter::Write')(e)]
    e = one(ws, 'FileWriter::Write in the XYZ writer')
    ok = len(e.loops) == 1 and e.loops[0].full() and not e.guard and (
        unify(pat('|batch.points|'), canon(e.loops[0].hi), {}) is not None)
    ctx.ob('one-line-per-point', '%s (%s)' % (s.fn['sqn'], e.where()), ok, 'not written exactly once for every point')
    t = canon(e.args[0])
    toks = merge(text_of(ctx, s, [canon(f) for f in e.guard], t, s.fn['sqn']))
    i = e.loops[0].idx if e.loops else None
    vals = [x for x in toks]
    want = [POS(0), ' ', POS(1), ' ', POS(2), '\n']
    flatv = []
    for x in vals:
        if isinstance(x, tuple) and x[0] == 'each':
            for y in x[2]:
                if isinstance(y, str) and flatv and isinstance(flatv[-1], str):
                    flatv[-1] += y
                elif isinstance(y, tuple) and y[0] == 'val' and unify(pat('setprecision($n)'), y[1], {}):
                    ctx.ob('digits', s.fn['sqn'], y[1].a[-1] is I(6) or unify(pat('setprecision(6)'), y[1], {}) is not None, str(y[1]))
                else:
                    flatv.append(y)
        else:
            flatv.append(x)
    ok = len(flatv) == len(want)
    b = {}
    if ok:
        for x, y in zip(flatv, want):
            if isinstance(x, str):
                ok = ok and x == y
            else:
                b2 = unify(pat(y), canonc(x[1]), b)
                ok = ok and b2 is not None
                b = b2 or b
    ctx.ob('line-is-x-y-z', s.fn['sqn'], ok, 'writes %s' % (flatv,))
    ctx.ob('whole-line-written', s.fn['sqn'], canon(e.args[1]) is canon(size(t)), 'length %s' % e.args[1])
    ctx.spec('closed-at-the-end', p, 'io::XyzWriterPointsProcessor::Flush', [
        E('call', 'this.file_writer_', name='FileWriter::Close', args=[], guard='true', each=[])], rel=calls('FileWriter::Close'))


main('P05', check, 'symbolic rendering of the header and record bytes from guarded-effect summaries (AST dataflow)',
     'for each combination of attributes the record written per point is byte for byte what the header announces',
     tus=['io/ply_writing_points_processor.cc', 'io/pcd_writing_points_processor.cc', 'io/xyz_writing_points_processor.cc'])
