"""Front end: turns /repo's current working tree into resolved ASTs.

Everything is regenerated from the working tree: protobuf headers with protoc,
config.h from its template, ASTs with the libTooling extractor.  Results are
cached per translation unit, keyed by the contents of every repository file the
unit includes (and of the extractor), so a cache can never hide an edit.
"""
import hashlib, json, os, re, subprocess, sys, glob, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
JOBS = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 4))))

EXCLUDE = re.compile(r'(_test|/fake_|test_helpers|/testing/|mock_|/cloud/)')


class FrontendError(Exception):
    pass


def sha(b):
    return hashlib.sha256(b).hexdigest()


_fh = {}


def fhash(path):
    try:
        st = os.stat(path)
    except OSError:
        return 'missing'
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _fh:
        with open(path, 'rb') as f:
            _fh[key] = sha(f.read())
    return _fh[key]


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def ensure_extractor():
    exe = os.path.join(BUILD, 'extract')
    src = os.path.join(HERE, 'extract.cc')
    stamp = exe + '.sha'
    want = fhash(src)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe
    r = subprocess.run(['make', '-C', HERE, '-B', 'OUT=' + BUILD], capture_output=True, text=True)
    if r.returncode != 0:
        raise FrontendError('cannot build the extractor:\n' + r.stdout + r.stderr)
    open(stamp, 'w').write(want)
    return exe


def ensure_generated():
    gen = os.path.join(BUILD, 'gen')
    protos = sorted(glob.glob(REPO + '/cartographer/**/*.proto', recursive=True))
    tmpl = REPO + '/cartographer/common/config.h.cmake'
    key = sha(('|'.join(p + ':' + fhash(p) for p in protos) + fhash(tmpl)).encode())
    stamp = gen + '/.key'
    if os.path.exists(stamp) and open(stamp).read() == key:
        return gen
    shutil.rmtree(gen, ignore_errors=True)
    os.makedirs(gen + '/cartographer/common')
    r = subprocess.run(['protoc', '-I', REPO, '--cpp_out', gen,
                        '--descriptor_set_out', gen + '/all.desc', '--include_imports'] + protos,
                       capture_output=True, text=True, cwd=REPO)
    if r.returncode != 0:
        raise FrontendError('protoc failed: ' + r.stderr)
    txt = open(tmpl).read()
    txt = txt.replace('@CARTOGRAPHER_CONFIGURATION_FILES_DIRECTORY@', '/nonexistent/configuration_files')
    txt = txt.replace('@PROJECT_SOURCE_DIR@', '/nonexistent/src')
    open(gen + '/cartographer/common/config.h', 'w').write(txt)
    for f in glob.glob(gen + '/**/*.pb.cc', recursive=True):
        os.remove(f)
    open(stamp, 'w').write(key)
    return gen


def flags(gen):
    return ['-std=gnu++17', '-DNDEBUG', '-DBOOST_IOSTREAMS_DYN_LINK', '-DBOOST_IOSTREAMS_NO_LIB',
            '-DGFLAGS_IS_A_DLL=0', '-DGLOG_CUSTOM_PREFIX_SUPPORT', '-DUSE_PROMETHEUS=1',
            '-I' + gen, '-I' + REPO, '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/lua5.2',
            '-w', '-ferror-limit=0', '-fparse-all-comments' if False else '-fno-spell-checking']


def all_tus():
    out = []
    for p in sorted(glob.glob(REPO + '/cartographer/**/*.cc', recursive=True)):
        rel = os.path.relpath(p, REPO)
        if EXCLUDE.search('/' + rel):
            continue
        out.append(rel)
    return out


def tu_path(t):
    """Absolute path of a translation unit; aux:NAME names a file of explicit template instantiations."""
    if t.startswith('aux:'):
        return os.path.join(HERE, 'aux', t[4:])
    return os.path.join(REPO, t)


def needs_ceres_stub(rel, _memo={}):
    seen, todo = set(), [rel]
    while todo:
        r = todo.pop()
        if r in seen:
            continue
        seen.add(r)
        try:
            txt = open(tu_path(r), errors='replace').read()
        except OSError:
            continue
        if 'Parameterization' in txt and 'ceres' in txt:
            return True
        todo += re.findall(r'#include "(cartographer/[^"]+)"', txt)
    return False


def match(tus, patterns):
    import fnmatch
    res = []
    for p in patterns:
        if p.startswith('aux:'):
            res.append(p)
    for t in tus:
        if any(fnmatch.fnmatch(t, 'cartographer/' + p) for p in patterns):
            res.append(t)
    return res


def cache_paths(rel):
    base = os.path.join(BUILD, 'ast', (tu_path(rel) if rel.startswith('aux:') else rel).replace('/', '+'))
    return base + '.json', base + '.meta'


def valid(rel, extra):
    js, meta = cache_paths(rel)
    if not (os.path.exists(js) and os.path.exists(meta)):
        return False
    try:
        m = json.load(open(meta))
    except Exception:
        return False
    if m['extra'] != extra:
        return False
    for d, h in m['deps'].items():
        if fhash(d if d.startswith('/') else os.path.join(REPO, d)) != h:
            return False
    return True


def extract(patterns=None, log=None):
    """Returns list of (tu, path of AST json) for the TUs matching patterns."""
    with Lock():
        exe = ensure_extractor()
        gen = ensure_generated()
        tus = all_tus()
        sel = match(tus, patterns) if patterns else tus
        if not sel:
            raise FrontendError('no translation unit matches %s' % patterns)
        fl = flags(gen)
        extra = sha((open(gen + '/.key').read() + fhash(os.path.join(HERE, 'extract.cc')) + ' '.join(fl) +
                     fhash(os.path.join(HERE, 'stubs/ceres_compat.h'))).encode())
        os.makedirs(os.path.join(BUILD, 'ast'), exist_ok=True)
        todo = [t for t in sel if not valid(t, extra)]
        t0 = time.time()

        def run(t):
            f = list(fl)
            if needs_ceres_stub(t):
                f += ['-include', os.path.join(HERE, 'stubs/ceres_compat.h')]
            js, meta = cache_paths(t)
            for p in (js, meta):
                if os.path.exists(p):
                    os.remove(p)
            r = subprocess.run([exe, os.path.join(BUILD, 'ast'), REPO, tu_path(t), '--'] + f,
                               capture_output=True, text=True)
            if not os.path.exists(js):
                return t, 'extractor produced nothing: ' + r.stderr[-2000:]
            if r.returncode != 0:
                return t, 'does not parse: ' + r.stderr[-3000:]
            d = json.load(open(js))
            deps = {x: fhash(os.path.join(REPO, x)) for x in d['deps']}
            if t.startswith('aux:'):
                deps[tu_path(t)] = fhash(tu_path(t))
            json.dump({'extra': extra, 'deps': deps}, open(meta, 'w'))
            return t, None

        errs = []
        with ThreadPoolExecutor(JOBS) as ex:
            for t, e in ex.map(run, todo):
                if e:
                    errs.append('%s: %s' % (t, e))
        if errs:
            raise FrontendError('\n'.join(errs))
        if log is not None:
            log['tus'] = len(sel)
            log['reparsed'] = len(todo)
            log['parse_s'] = round(time.time() - t0, 2)
        return [(t, cache_paths(t)[0]) for t in sel]


if __name__ == '__main__':
    log = {}
    if sys.argv[1:] == ['--setup']:
        # only the tool itself: every check parses the units it needs from the current tree
        try:
            with Lock():
                ensure_extractor()
        except FrontendError as e:
            print(e)
            sys.exit(3)
        sys.exit(0)
    try:
        r = extract(sys.argv[1:] or None, log)
    except FrontendError as e:
        print(e)
        sys.exit(3)
    print(log, len(r))
