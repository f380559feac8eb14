"""Program database built from the extractor's output."""
import fnmatch
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend  # noqa: E402


class AnalysisError(Exception):
    """The analysis cannot give an answer (neither holds nor violated)."""


def strip_targs(s):
    """Remove template argument lists, keeping operator<, operator<<, -> intact."""
    if '<' not in s:
        return s
    out, i, depth = [], 0, 0
    n = len(s)
    while i < n:
        c = s[i]
        if depth == 0 and s.startswith('operator', i):
            j = i + 8
            out.append('operator')
            while j < n and s[j] in '<>=-!':
                # operator<, operator<<, operator->, ... (template args after are dropped)
                out.append(s[j])
                j += 1
                if j < n and s[j] not in '<>=-!':
                    break
            i = j
            continue
        if c == '<':
            depth += 1
        elif c == '>' and depth > 0 and s[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


_short = {}


def short(qn):
    r = _short.get(qn)
    if r is None:
        r = strip_targs(qn)
        if r.startswith('cartographer::'):
            r = r[len('cartographer::'):]
        r = r.replace('(anonymous namespace)::', '').replace('(anonymous)::', '')
        _short[qn] = r
    return r


_bl = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline.json')
BASELINE = json.load(open(_bl)) if os.path.exists(_bl) else None


def tkey(t):
    """Type text up to template arguments that depend on the instantiation."""
    return strip_targs(t) + '<%d' % t.count('<')


def fkey(f):
    return '%s(%s)' % (f['sqn'], ', '.join(tkey(f['T'][p['t']]) for p in f['params']))


class Program:
    def __init__(self, patterns, log=None):
        self.log = {} if log is None else log
        self.funcs = {}
        self.records = {}
        self.globals = {}
        self.by_qn = {}
        self.tus = []
        self.overriders = {}
        for tu, path in frontend.extract(patterns, self.log):
            d = json.load(open(path))
            if d.get('errors'):
                raise AnalysisError('%s does not parse: %s' % (tu, d['errors']))
            self.tus.append(tu)
            T = d['types']
            for f in d['functions']:
                if f['id'] in self.funcs:
                    continue
                f['T'] = T
                f['tu'] = tu
                f['sqn'] = short(f['qn'])
                self.funcs[f['id']] = f
                self.by_qn.setdefault(f['sqn'], []).append(f)
                for o in f.get('over', []):
                    self.overriders.setdefault(o, []).append(f)
            for r in d['records']:
                key = T[r['t']]
                if key not in self.records:
                    r['T'] = T
                    r['sqn'] = short(r['qn'])
                    self.records[key] = r
            for g in d['globals']:
                g['T'] = T
                self.globals.setdefault(g.get('qn'), g)
        self.rec_by_qn = {}
        for r in self.records.values():
            self.rec_by_qn.setdefault(r['sqn'], []).append(r)
        self.used = set()
        self.renamed = {}
        if BASELINE:
            self.undo_renames()

    def global_of(self, name):
        return self.globals.get('cartographer::' + name) or self.globals.get(name)

    def global_value(self, name):
        """The number a global constant is initialised with, or None."""
        g = self.global_of(name)

        def ev(e):
            if not isinstance(e, dict):
                return None
            if e.get('v') is not None and e['k'] != 'str':
                try:
                    return float(e['v'])
                except (TypeError, ValueError):
                    return None
            if e['k'] == 'ref' and e.get('qn') in self.globals:
                return ev(self.globals[e['qn']].get('init'))
            if e['k'] in ('cast', 'paren', 'implicit', 'un'):
                v = ev(e.get('e'))
                return -v if v is not None and e['k'] == 'un' and e.get('op') == '-' else None if e['k'] == 'un' and e.get('op') not in ('+',) else v
            if e['k'] == 'init' and len(e.get('args', e.get('e', []))) == 1:
                return ev(e.get('args', e.get('e'))[0])
            if e['k'] == 'bin':
                a, b = ev(e['a']), ev(e['b'])
                if a is None or b is None:
                    return None
                return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b if b else None, '<<': lambda: float(int(a) << int(b))}.get(e['op'], lambda: None)()
            return None
        return ev(g.get('init')) if g else None

    def global_init(self, name):
        import json
        g = self.global_of(name)
        return json.dumps(g.get('init')) if g else ''

    def undo_renames(self):
        """Members and parameters that only changed their name keep the name the rules know them by."""
        for r in self.records.values():
            old = BASELINE['fields'].get(r['sqn'])
            if not old:
                continue
            cur = [[f['n'], tkey(r['T'][f['t']])] for f in r['fields']]
            names, cnames = [n for n, _ in old], [n for n, _ in cur]
            gone = [(i, n, t) for i, (n, t) in enumerate(old) if n not in cnames]
            new = [(i, n, t) for i, (n, t) in enumerate(cur) if n not in names]
            if not gone or not new:
                continue
            m = {}
            for i, n, t in gone:
                c = [x for x in new if x[2] == t and x[1] not in m]
                g = [x for x in gone if x[2] == t]
                if len(c) == len(g):
                    m[c[0][1]] = n          # in order among those of the same type
                elif len(c) > 1 and [x for x in c if x[0] == i]:
                    m[[x for x in c if x[0] == i][0][1]] = n
            if m:
                self.renamed[r['sqn']] = m
        for f in self.funcs.values():
            ns = BASELINE['params'].get(fkey(f)) if f['params'] else None
            if ns and len(ns) == len(f['params']):
                for p, n in zip(f['params'], ns):
                    if n and p.get('n'):
                        p['n'] = n
        if not self.renamed:
            return
        for r in self.records.values():
            m = self.renamed.get(r['sqn'])
            if m:
                for f in r['fields']:
                    f['n'] = m.get(f['n'], f['n'])

        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'mem' and x.get('cls'):
                    m = self.renamed.get(short(x['cls']))
                    if m:
                        x['n'] = m.get(x['n'], x['n'])
                elif 'fields' in x and x.get('cls'):
                    m = self.renamed.get(short(x['cls']))
                    if m:
                        x['fields'] = [[m.get(n, n), e] for n, e in x['fields']]
                for v in x.values():
                    walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        for f in self.funcs.values():
            T = f.pop('T')
            if f.get('cls'):
                m = self.renamed.get(short(f['cls']))
                if m:
                    for i in f.get('inits', []):
                        if i.get('field'):
                            i['field'] = m.get(i['field'], i['field'])
            walk(f)
            f['T'] = T
        for r in self.records.values():
            T = r.pop('T')
            walk(r['fields'])
            r['T'] = T

    # -- lookups; a vanished anchor is an error, not a silent pass
    def fn(self, sqn, pred=None, optional=False):
        c = [f for f in self.by_qn.get(sqn, []) if f.get('body') and (pred is None or pred(f))]
        if not c:
            if optional:
                return None
            raise AnalysisError('anchor function %s not found' % sqn)
        return c[0]

    def fns(self, pat, pred=None):
        out = []
        for q, fs in self.by_qn.items():
            if fnmatch.fnmatchcase(q, pat):
                out += [f for f in fs if f.get('body') and (pred is None or pred(f))]
        return out

    def overloads(self, sqn):
        return [f for f in self.by_qn.get(sqn, []) if f.get('body')]

    def rec(self, sqn, optional=False):
        c = self.rec_by_qn.get(sqn)
        if not c:
            if optional:
                return None
            raise AnalysisError('anchor record %s not found' % sqn)
        return c[0]

    def methods_of(self, sqn_cls):
        return [f for f in self.funcs.values() if f.get('cls') and short(f['cls']) == sqn_cls and f.get('body')]

    def ptypes(self, f):
        return [f['T'][p['t']] for p in f['params']]

    def find_method(self, cls_t, name, sig=None):
        """Concrete method `name` for a class (type string) walking bases."""
        seen, todo = set(), [cls_t]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            r = self.records.get(c)
            if not r:
                continue
            for m in r['methods']:
                if m['n'] == name and m['id'] in self.funcs and self.funcs[m['id']].get('body'):
                    f = self.funcs[m['id']]
                    if sig is None or len(f['params']) == sig:
                        return f
            for b in r.get('bases', []):
                todo.append(r['T'][b] if isinstance(b, int) else b)
        return None
