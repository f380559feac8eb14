#!/usr/bin/env python3
"""Write errors surface: no output call's failure is ignored; the file writer reports success only if it was."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

OPQ = [r'RemovePoints', r'DynamicGrid::', r'GetCellIndex', r'RangeDataInserter', r'mapping::ProbabilityGrid::',
       r'HybridGrid::', r'DrawProb', r'DrawTraj', r'FastGzip', r'FastGunzip', r'ConvertRangeData', r'mapping::', r'transform::']
OPS = ('FileWriter::Write', 'FileWriter::WriteHeader', 'FileWriter::Close', 'ProtoStreamWriter::Close',
       'ProtoStreamWriterInterface::Close', 'ProtoStreamReaderInterface::ReadProto', 'ProtoStreamReader::ReadProto',
       'cairo_surface_write_to_png_stream', 'MessageLite::ParseFromString', 'MessageLite::SerializeToOstream')


def state_atoms(t):
    return [x for x in subterms(t) if x.op == 'call' and isinstance(x.a[0], str) and x.a[0].startswith('std::basic_ios::')]


def used(s, e):
    """The result of call e is checked, branched on or handed to the caller on every path."""
    r = e.ret
    if r is None:
        return False
    r = strip(r)
    g = [canon(f) for f in e.guard]
    cr = canon(r)
    for x in s.effects:
        if x.seq < e.seq:
            continue
        if x.kind == 'assert' and cr in subterms(canon(x.val)):
            xg = [canon(f) for f in x.guard if canon(f) is not cr]
            if entails(g, and_(*xg)):
                return True
        if x.kind == 'return' and isinstance(x.val, Term) and cr in subterms(canon(x.val)):
            return True
        if x.kind == 'fatal' and any(cr in subterms(canon(f)) for f in x.guard):
            if entails(g + [not_(cr)], and_(*[canon(f) for f in x.guard])):
                return True
    # decided upon: some outcome differs
    rets = [x for x in s.effects if x.kind == 'return' and x.seq > e.seq and any(cr in subterms(canon(f)) for f in x.guard)]
    vals = set(canon(x.val) for x in rets if isinstance(x.val, Term))
    return len(vals) > 1


def reports(ctx, rule, s, op, field):
    """Success is returned exactly when the operation was done and the stream has not failed since."""
    w = s.fn['sqn']
    ops = [e for e in s.effects if calls(op)(e) and on_obj(e, field)]
    ctx.need(ops, op + ' in ' + w)
    last = max(e.seq for e in ops)
    rets = [e for e in s.effects if e.kind == 'return' and e.val is not VOID]
    ctx.need(rets, 'return in ' + w)
    succ, st = [], set()
    for e in rets:
        c = and_(*([canon(f) for f in e.guard] + [canon(e.val)]))
        succ.append((e, c))
    for e in s.effects:
        for f in list(e.guard) + ([e.val] if isinstance(e.val, Term) else []):
            st.update(state_atoms(canon(f)))
    done = or_(*[and_(*[canon(f) for f in e.guard]) for e in ops])
    for e, c in succ:
        if entails([c], FALSE):
            continue
        ok = entails([c], done)
        ctx.ob(rule + '-only-after-the-operation', '%s (%s)' % (w, e.where()), ok, 'success is reported without %s' % op)
        after = [x for x in st if x.a[-1].op == 'i' and x.a[-1].a[0] > last]
        ok = any(x.a[0].endswith(('fail',)) and entails([c], not_(x)) or x.a[0].endswith('good') and entails([c], x)
                 for x in after)
        ctx.ob(rule + '-not-when-the-stream-failed', '%s (%s)' % (w, e.where()), ok,
               'success is reported although the stream may have failed')
    fine = [x if x.a[0].endswith(('good', 'is_open')) else not_(x) for x in st]
    ctx.ob(rule + '-otherwise', w, entails(fine, or_(*[c for _, c in succ])), 'a failure is reported although nothing failed')
    return ops


def on_obj(e, field):
    t = strip(e.obj) if isinstance(e.obj, Term) else None
    return t is not None and t.op == 'f' and t.a[1] == field


def check(ctx):
    tus = [t for t in ctx_files(ctx)]
    n = 0
    seen = set()
    for tu in tus:
        p = ctx.program(tu)
        for q, fs in sorted(p.by_qn.items()):
            for f in fs:
                if not f.get('body') or '/cartographer/' not in '/' + f['file'] or q.startswith('io::Fake') or q in (
                        'io::StreamFileWriter::WriteHeader',):
                    continue
                if not f['file'].endswith('.cc') or (f['file'], f['l']) in seen:
                    continue
                seen.add((f['file'], f['l']))
                s = ctx.summarise(p, f, opaque=OPQ)
                for e in s.effects:
                    if calls(*OPS)(e):
                        n += 1
                        ctx.ob('output-and-input-results-are-used', '%s (%s)' % (s.fn['sqn'], e.where()), used(s, e),
                               'the result of %s is ignored' % short(e.name))
    ctx.need(n >= 15, 'output calls')
    # the file writer
    p = ctx.program('io/file_writer.cc')
    for m, op in (('Write', 'basic_ostream::write'), ('Close', 'close'), ('WriteHeader', 'basic_ostream::write')):
        s = ctx.summarise(p, p.fn('io::StreamFileWriter::' + m))
        ops = reports(ctx, 'success-reported', s, op, 'out_')
        if m != 'Close':
            ctx.match('all-bytes-written', s, calls('basic_ostream::write'), [
                E('call', 'this.out_', name='basic_ostream::write', args=['data', 'len'], each=[])])
        if m == 'WriteHeader':
            sk = [e for e in s.effects if calls('basic_ostream::seekp')(e)]
            ok = len(sk) == 1 and not sk[0].loops and unify(pat('fpos(0)'), canon(sk[0].args[0]), {}) is not None or \
                len(sk) == 1 and len(sk[0].args) == 2 and canon(sk[0].args[0]) is I(0)
            ok = ok and all(sk[0].seq < e.seq for e in ops) and entails(
                [or_(*[and_(*[canon(f) for f in e.guard]) for e in ops])], and_(*[canon(f) for f in sk[0].guard]))
            ctx.ob('header-goes-to-the-start', s.fn['sqn'], ok, 'the header is not written at offset 0')
        else:
            ctx.ob('appends', s.fn['sqn'], not [e for e in s.effects if calls('basic_ostream::seekp')(e)], 'moves the write position')
    ctx.spec('opens-the-named-file', p, 'io::StreamFileWriter::StreamFileWriter', [
        E('write', 'this.out_', 'basic_ofstream(filename, $m)', guard='true'),
        E('write', 'this.filename_', 'filename', guard='true')], rel=on_fields('out_', 'filename_'))
    s = ctx.summarise(p, p.fn('io::StreamFileWriter::StreamFileWriter'))
    for e in s.effects:
        if on_fields('out_')(e) and e.kind == 'write':
            b = unify(pat('basic_ofstream(filename, $m)'), canon(e.val), {})
            bits = [x.a[0] for x in subterms(b['m']) if x.op == 'i'] if b else []
            ctx.ob('header-can-overwrite-the-start', '%s (%s)' % (s.fn['sqn'], e.where()), not any(x & 1 for x in bits),
                   'the file is opened for appending')
    p = ctx.program('io/proto_stream.cc')
    s = ctx.summarise(p, p.fn('io::ProtoStreamWriter::Close'))
    reports(ctx, 'stream-success-reported', s, 'close', 'out_')
    # PNG: the callback tells cairo about the failure
    p = ctx.program('io/image.cc')
    s = ctx.summarise(p, p.fn('io::Image::WritePng'))
    cb = one([e for e in s.effects if calls('cairo_surface_write_to_png_stream')(e)], 'PNG output call')
    ctx.ob('png-goes-to-the-given-file', s.fn['sqn'], unify(pat('file_writer'), canon(cb.args[2]), {}) is not None, str(cb.args[2]))
    f = p.fns('io::*CairoWriteCallback*') or [f for q, fs in p.by_qn.items() for f in fs if f.get('body') and any(
        True for _ in [0]) and 'cairo_status' in str(f.get('ret', ''))]
    if f:
        c = ctx.summarise(p, f[0])
        w = one([e for e in c.effects if calls('FileWriter::Write')(e)], 'Write in the PNG callback')
        r = canon(strip(w.ret))
        ctx.ob('png-chunk-complete', c.fn['sqn'], [canon(a) for a in w.args] == [canon(x) for x in c.params[1:3]] and not w.guard,
               'writes %s' % (w.args,))
        for e in c.effects:
            if e.kind == 'return' and e.val is not VOID:
                ok = canon(e.val).op == 'enum' and (str(canon(e.val)).endswith('SUCCESS') and entails([canon(x) for x in e.guard], r)
                                                    or not str(canon(e.val)).endswith('SUCCESS'))
                for v in views(e):
                    vv = canon(v.val)
                    if str(vv).endswith('SUCCESS'):
                        ok = entails([canon(x) for x in v.guard], r)
                    else:
                        ok = vv.op == 'enum' and entails([canon(x) for x in v.guard], not_(r))
                    ctx.ob('png-callback-reports-write-error', '%s (%s)' % (c.fn['sqn'], v.where()), ok, 'returns %s' % vv)


def ctx_files(ctx):
    import glob
    root = os.environ.get('VERIF_REPO', '/repo')
    out = []
    for f in sorted(glob.glob(root + '/cartographer/io/*.cc') + glob.glob(root + '/cartographer/io/internal/*.cc') +
                    [root + '/cartographer/mapping/map_builder.cc']):
        t = open(f, errors='replace').read()
        if f.endswith('_test.cc') or 'fake_file_writer' in f or 'pbstream_main' in f or 'testing' in f:
            continue
        if any(o.split('::')[1] + '(' in t for o in OPS if '::' in o) or 'write_to_png' in t:
            out.append(f[len(root) + len('/cartographer/'):])
    return out


main('P06', check, 'use analysis of output and input results over guarded-effect summaries',
     'every result of a file operation is checked or returned; success is reported only when the stream has not failed',
     tus=ctx_files(None))
