#!/usr/bin/env python3
"""Proto streams: what was written is read back, message for message; truncation and foreign files are reported."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from base import *

OPQ = ['FastGzip', 'FastGunzip']
WORD = lambda v: 'cast(char, 255 & ((%s) >> (8 * $i)))' % v
ACC1 = 'fold(list(0, 8), $j, 0, (acc() >> 8) + 72057594037927936 * this.in_.get())'
ACC2 = 'fold(list(0, 8), $j, 0, bitor(acc(), this.in_.get() << (8 * $j)))'
ACC3 = 'fold(list(0, 8), $j, 0, acc() + (this.in_.get() << (8 * $j)))'


def find_size(ctx, s, e, w):
    """The term holding the number read from the stream as 8 little-endian bytes."""
    for f in list(e.args) + list(e.facts):
        for t in subterms(canonc(f)):
            for a in (ACC1, ACC2, ACC3):
                if unify(pat(a), t, {}) is not None:
                    return t
    return None


def failing(s):
    """(version, atom) of every stream-state test."""
    out = {}
    for e in s.effects:
        for f in list(e.facts) + ([e.val] if isinstance(e.val, Term) else []):
            for x in subterms(canon(f)):
                if x.op == 'call' and isinstance(x.a[0], str) and x.a[0].startswith('std::basic_ios::') and x.a[-1].op == 'i':
                    out[x] = x.a[-1].a[0]
    return out


def ok_after(s, c, seq):
    """Condition c implies that the stream was found intact after operation seq."""
    for x, v in failing(s).items():
        if v > seq and (x.a[0].endswith('::fail') and entails(c, not_(x)) or x.a[0].endswith('::good') and entails(c, x)):
            return True
    return False


def check(ctx):
    p = ctx.program('io/proto_stream.cc')
    # writer
    c = ctx.summarise(p, p.fn('io::ProtoStreamWriter::ProtoStreamWriter'), opaque=OPQ)
    puts = [e for e in c.effects if calls('basic_ostream::put')(e)]
    e = one(puts, 'magic number output')
    b = unify(pat(WORD('$m')), canon(e.args[0]), {})
    ctx.match('magic-first', c, calls('put', 'write', 'seekp'), [
        E('call', 'this.out_', name='basic_ostream::put', args=[WORD('$m')], guard='true', each=['..8'])])
    ctx.match('file-opened', c, on_fields('out_'), [E('write', 'this.out_', 'basic_ofstream(filename, $x)', guard='true')])
    magic = b['m'] if b else None
    for m, data in (('Write', 'uncompressed_data'), ('WriteProto', 'proto.Serialized()')):
        Z = 'out(FastGzipString(%s, $x))' % data
        s = ctx.summarise(p, p.fn('io::ProtoStreamWriter::' + m), opaque=OPQ)
        ctx.spec_on('message-is-size-then-bytes', s, [
            E('call', name='FastGzipString', args=[data, '$x'], guard='true', each=[]),
            E('call', 'this.out_', name='basic_ostream::put', args=[WORD('|%s|' % Z)], guard='true', each=['..8'], tag='size'),
            E('call', 'this.out_', name='basic_ostream::write', args=[Z, '|%s|' % Z], guard='true', each=[], tag='bytes')],
            rel=calls('put', 'write', 'seekp', 'FastGzipString', 'flush'), order=['size<bytes'])
    # reader
    s = ctx.summarise(p, p.fn('io::ProtoStreamReader::ProtoStreamReader'), opaque=OPQ)
    gets = [e for e in s.effects if calls('basic_istream::get', 'basic_istream::read')(e)]
    ctx.match('magic-read', s, calls('basic_istream::get', 'basic_istream::read'), [
        E('call', 'this.in_', name='basic_istream::get', args=[], guard='true', each=['..8'])])
    bad = [e for e in s.effects if e.kind in ('assert', 'fatal') or calls('setstate')(e)]
    num = None
    for e in bad:
        for f in list(e.guard) + ([e.val] if isinstance(e.val, Term) else []):
            for t in subterms(canonc(f)):
                if t.op == 'eq':
                    for x in t.a:
                        if any(unify(pat(a), x, {}) is not None for a in (ACC1, ACC2, ACC3)):
                            num = t
    ctx.ob('magic-verified', s.fn['sqn'], num is not None and magic is not None and magic in num.a,
           'the magic number read is not compared with the one written')
    if num is not None:
        # the constructor completes only if the number matches
        seq = max(e.seq for e in gets)
        fatal = []
        for e in bad:
            g = [canonc(f) for f in e.guard]
            if e.kind == 'assert':
                fatal.append((e, and_(*(g + [not_(canonc(e.val))]))))
            elif e.kind == 'fatal':
                fatal.append((e, and_(*g)))
        sets = [(e, and_(*[canonc(f) for f in e.guard])) for e in bad if calls('setstate')(e)]
        ok = any(entails([not_(num)], f) for e, f in fatal) or (
            any(entails([not_(num)], g) for e, g in sets) and any(
                ok_after(s, [canon(e.val)] if e.kind == 'assert' else [not_(and_(*[canon(f) for f in e.guard]))],
                         max(x.seq for x, _ in sets)) for e, f in fatal if not e.guard or e.kind == 'fatal'))
        ctx.ob('foreign-file-refused', s.fn['sqn'], ok, 'a wrong magic number does not stop the reader')
        ok = any(ok_after(s, [not_(f)], seq) for e, f in fatal)
        ctx.ob('unreadable-file-refused', s.fn['sqn'], ok, 'a file that cannot be read does not stop the reader')
    s = ctx.summarise(p, p.fn('io::ProtoStreamReader::Read'), opaque=OPQ)
    rd = one([e for e in s.effects if calls('basic_istream::read')(e)], 'basic_istream::read')
    gz = [e for e in s.effects if calls('FastGunzipString')(e)]
    e = one(gz, 'decompression')
    n = find_size(ctx, s, rd, s.fn['sqn'])
    ctx.match('size-read', s, calls('basic_istream::get'), [
        E('call', 'this.in_', name='basic_istream::get', args=[], guard='true', each=['..8'])])
    ctx.ob('reads-size-little-endian', s.fn['sqn'], n is not None and canonc(rd.args[1]) is n, 'reads %s bytes' % (rd.args[1],))
    if n is not None:
        buf = unify(pat('basic_string($n, 0)[0]'), canonc(rd.args[0]), {'n': n}) or unify(
            pat('basic_string($n, 0)'), canonc(rd.args[0]), {'n': n})
        ctx.ob('buffer-holds-the-message', s.fn['sqn'], buf is not None, 'reads into %s' % (rd.args[0],))
        ctx.ob('decompresses-what-was-read', s.fn['sqn'], unify(pat('basic_string($n, 0)'), canonc(e.args[0]), {'n': n}) is not None and
               unify(pat('decompressed_data'), canon(e.args[1]), {}) is not None, str(e.args))
    gets = [e for e in s.effects if calls('basic_istream::get')(e)]
    for r in s.effects:
        if r.kind == 'return' and r.val is not VOID:
            for v in views(r):
                c = [canon(f) for f in v.guard] + [canon(v.val)]
                if entails(c, FALSE):
                    continue
                w = '%s (%s)' % (s.fn['sqn'], v.where())
                ctx.ob('truncated-message-reported', w, ok_after(s, c, rd.seq) and entails(c, and_(*[canon(f) for f in rd.guard])),
                       'success is returned although the message may be truncated')
                ctx.ob('end-of-stream-reported', w, any(ok_after(s, c, x.seq) for x in gets), 'success at the end of the stream')
                ctx.ob('success-means-data', w, entails(c, and_(*[canon(f) for f in e.guard])), 'success without data')
    fine = [not_(x) if not x.a[0].endswith('good') else x for x in failing(s)]
    rets = [and_(*([canon(f) for f in r.guard] + [canon(r.val)])) for r in s.effects if r.kind == 'return' and r.val is not VOID]
    ctx.ob('intact-message-returned', s.fn['sqn'], entails(fine, or_(*rets)), 'an intact message is not returned')
    s = ctx.summarise(p, p.fn('io::ProtoStreamReader::ReadProto'), opaque=OPQ + ['ProtoStreamReader::Read$'])
    D = 'out(this.Read($x))'
    pr = one([e for e in s.effects if calls('ParseFromString')(e)], 'ParseFromString')
    rr = one([e for e in s.effects if calls('ProtoStreamReader::Read')(e)], 'Read')
    ctx.ob('parses-what-was-read', s.fn['sqn'], canon(pr.args[0]).op == 'out' and canon(pr.args[0]).a[0] is canon(rr.ret),
           'parses %s' % (pr.args[0],))
    ctx.ob('parses-into-the-given-message', s.fn['sqn'], unify(pat('proto'), canon(pr.obj), {}) is not None, str(pr.obj))
    for e in s.effects:
        if e.kind == 'return' and e.val is not VOID:
            for v in views(e):
                c = [canon(f) for f in v.guard] + [canon(v.val)]
                if not entails(c, FALSE):
                    ctx.ob('unparsable-message-reported', '%s (%s)' % (s.fn['sqn'], v.where()),
                           entails(c, canon(rr.ret)) and any(
                               x.op in ('call', 'callx') and 'ParseFromString' in str(x.a[0]) and entails(c, x)
                               for f in c for x in subterms(f)), 'success although reading or parsing failed: %s' % (c,))
    ctx.spec('end-reported', p, 'io::ProtoStreamReader::eof', [E('return', val='this.in_.eof($v)', guard='true')])
    for fn, comp, src, dst in (('FastGzipString', 'gzip_compressor', 'uncompressed', 'compressed'),
                               ('FastGunzipString', 'gzip_decompressor', 'compressed', 'decompressed')):
        s = ctx.summarise(p, p.fn('common::' + fn))
        wr = one([e for e in s.effects if calls('iostreams::write')(e)], 'write in ' + fn)
        a = [canon(x) for x in wr.args]
        ctx.ob('whole-text-compressed', s.fn['sqn'], unify(pat(src), a[1], {}) is not None and unify(pat('|%s|' % src), a[2], {}) is not None,
               'compresses %s' % (a[1:],))
        push = [e for e in s.effects if calls('push')(e)]
        ctx.ob('filter-chain', s.fn['sqn'], len(push) == 2 and comp in str(push[0].args[0]) and not push[0].guard and
               any(unify(pat(dst), canon(y), {}) is not None for y in subterms(canon(push[1].args[0]))) and push[1].seq < wr.seq,
               'chain %s' % [str(e.args[0]) for e in push])
    # in-memory stream
    p = ctx.program('io/internal/in_memory_proto_stream.cc')
    ctx.spec('in-memory-stream-is-a-queue', p, 'io::InMemoryProtoStreamReader::ReadProto', [
        E('return', val='false', guard='|this.state_chunks_| == 0'),
        E('write', 'proto', 'this.state_chunks_[0]', guard='|this.state_chunks_| != 0', tag='copy'),
        E('mutate', 'this.state_chunks_', name='pop', args=[], guard='|this.state_chunks_| != 0', tag='pop'),
        E('return', val='true', guard='|this.state_chunks_| != 0')], order=['copy<pop'])
    ctx.spec('in-memory-stream-end', p, 'io::InMemoryProtoStreamReader::eof', [
        E('return', val='|this.state_chunks_| == 0', guard='true')])
    s = ctx.summarise(p, p.fn('io::ForwardingProtoStreamWriter::WriteProto'))
    ctx.match('forwarded-once', s, of_kind('invoke'), [E('invoke', 'this.writer_callback_', args=['proto'], guard='true', each=[])])
    s = ctx.summarise(p, p.fn('io::ForwardingProtoStreamWriter::Close'))
    ctx.match('closing-forwarded', s, of_kind('invoke'), [E('invoke', 'this.writer_callback_', args=['null'], guard='true', each=[])])
    # stream prologue
    p = ctx.program('io/proto_stream_deserializer.cc')
    s = ctx.summarise(p, p.fn('io::ProtoStreamDeserializer::ProtoStreamDeserializer'))
    rp = [e for e in s.effects if calls('ReadProto')(e)]
    ctx.ob('prologue-is-three-messages', s.fn['sqn'], len(rp) == 3 and not any(e.guard or e.loops for e in rp) and
           unify(pat('this.pose_graph_'), canon(rp[1].args[0]), {}) is not None and
           unify(pat('this.all_trajectory_builder_options_'), canon(rp[2].args[0]), {}) is not None, 'reads %s' % [e.args for e in rp])
    hw = [e for e in s.effects if on_fields('header_', base='this')(e)]
    ctx.ob('header-is-first-message', s.fn['sqn'], rp and (canon(rp[0].args[0]) is canon(hw[0].val) if hw else False) or
           rp and unify(pat('this.header_'), canon(rp[0].args[0]), {}) is not None, 'header_ is not the first message')
    asserts = [canon(e.val) for e in s.effects if e.kind == 'assert' and not e.guard]
    H = 'this.header_.format_version'
    for want, what in (('%s == 1 || %s == 2' % (H, H), 'unsupported-version-refused'),
                       ('has_(this.pose_graph_.pose_graph)', 'missing-pose-graph-refused'),
                       ('has_(this.all_trajectory_builder_options_.all_trajectory_builder_options)', 'missing-options-refused'),
                       ('|this.pose_graph_.pose_graph.trajectory| == |this.all_trajectory_builder_options_.'
                        'all_trajectory_builder_options.options_with_sensor_ids|', 'options-for-every-trajectory')):
        ctx.ob(what, s.fn['sqn'], enforced(s, want), '%s is not enforced' % want)
    for k in range(min(3, len(rp))):
        ctx.ob('truncated-prologue-refused', '%s (%s)' % (s.fn['sqn'], rp[k].where()), any(
            canon(rp[k].ret) in subterms(a) and entails([a], canon(rp[k].ret)) for a in asserts), 'a missing message is accepted')
    ctx.spec('accessors', p, 'io::ProtoStreamDeserializer::header', [E('return', val='this.header_', guard='true')])
    s = ctx.summarise(p, p.fn('io::ProtoStreamDeserializer::ReadNextSerializedData'))
    ctx.match('next-message', s, calls('ReadProto'), [E('call', 'this.reader_', name='ReadProto', args=['data'], guard='true', each=[])])


main('P07', check, 'guarded-effect summaries of stream framing (AST dataflow)',
     'the reader inverts the writer: magic, 8-byte little-endian size, compressed bytes; every short read is reported',
     tus=['io/proto_stream.cc', 'io/internal/in_memory_proto_stream.cc', 'io/proto_stream_deserializer.cc'])
