#!/usr/bin/env python3
"""Print the effects of a function in the notation of the rules (a starting point for writing a specification).

  specgen.py TUS fn... [-o OPAQUE_RE] [-k kinds] [-f fields]     (development aid; no check uses it)
"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import argparse
from base import *
from ir import Program
ap = argparse.ArgumentParser()
ap.add_argument('tus')
ap.add_argument('fns', nargs='+')
ap.add_argument('-o', action='append', default=[])
ap.add_argument('-k', default='write,append,call,invoke,mutate,return,assert,await,delete,fatal')
ap.add_argument('-f', default='')
ap.add_argument('-c', action='store_true')
ap.add_argument('-v', action='store_true')
ap.add_argument('-p', action='store_true', help='hide effects on local objects and pure calls')
a = ap.parse_args()
kinds = set(a.k.split(','))
flds = a.f.split(',') if a.f else []


def gen(s, ind='        '):
    names = {}
    st = (lambda t: canon(versioned(t))) if a.v else canon
    for e0 in s.effects:
        if e0.kind not in kinds or flds and not on_fields(*flds)(e0) and e0.kind not in ('call', 'return'):
            continue
        if a.p and e0.kind in ('write', 'append', 'mutate') and e0.obj is not None:
            r = target(e0.obj)
            while r.op in ('f', 'at'):
                r = r.a[0]
            if r.op == 'obj' and r in s.it.valobjs or r.op == 'obj' and r.a[0] == 'copy':
                continue
        if a.p and e0.kind == 'call' and short(e0.name).split('::')[-1] in ('RoundToInt', 'Clamp', 'setw', 'setfill', 'setprecision', 'operator*', 'str', 'RoundToInt64', 'Pow2', 'abs'):
            continue
        for e in views(e0):
            q = lambda t: repr(pshow(st(t), names))
            if e.kind == 'return' and e.val is VOID:
                continue
            x = []
            if isinstance(e.obj, Term) and e.obj is not VOID:
                x.append(q(target(e.obj) if e.kind in ('write', 'append', 'mutate') else e.obj))
            if isinstance(e.val, Term):
                x.append(('' if len(x) else 'val=') + q(e.val))
            if e.kind in ('call', 'mutate', 'invoke', 'delete') and e.name:
                x.append('name=%r' % '::'.join(short(e.name).split('::')[-2:]))
            if e.kind in ('call', 'mutate', 'invoke'):
                x.append('args=[%s]' % ', '.join(q(t) for t in e.args if isinstance(t, Term)))
            g = and_(*[st(f) for f in e.guard])
            x.append('guard=%s' % q(g))
            x.append('each=[%s]' % ', '.join(
                (repr(pshow(st(l.C), names)) if l.C is not None else
                 repr(('%s' % pshow(st(l.lo), names) if st(l.lo) is not I(0) else '') + '..' + pshow(st(l.hi), names)) if l.lo is not None else 'WHILE')
                + ('' if l.full() else '/*exits*/') for l in e.loops))
            if e.locks:
                x.append('locks=[%s]' % ', '.join(q(l) for l in e.locks))
            chk = [st(f) for f, t in e.pc if t != 'if']
            print('%sE(%r, %s),%s  # %s:%d' % (ind, e.kind, ', '.join(x), '  #chk ' + '; '.join(map(pshow, chk)) if chk and e.kind != 'assert' else '',
                                       e.file.split('/')[-1], e.line))


p = Program(a.tus.split(','))
ctx = Ctx('gen')
for q in a.fns:
    for f in p.overloads(q) or p.fns(q):
        s = ctx.summarise(p, f, opaque=a.o)
        print("    # %s(%s)" % (f['sqn'], ', '.join(x.a[0] if x.op == 'param' else str(x) for x in s.params)))
        gen(s)
        if a.c:
            for u in list(s.it.lams):
                c = ctx.closure(s, mk('lam', u))
                print('      -- closure %d' % u)
                gen(c, '            ')
