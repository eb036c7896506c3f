"""Facts: run the clang exporter (tool/dpx) over every translation unit of /repo and merge the result.

Nothing of /repo is executed.  The merged facts are cached under /verif/.build keyed by the content of
every file that can influence them (sources, stubs, units, exporter)."""
import glob, hashlib, json, os, pickle, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DPX_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')


class AnalysisBroken(Exception):
    """An anchor vanished or a unit could not be analysed: neither a pass nor a violation."""


def sources():
    lib = sorted(glob.glob(REPO + '/src/DRAMPower/**/*.cpp', recursive=True))
    cli = sorted(glob.glob(REPO + '/src/cli/**/*.cpp', recursive=True))
    units = sorted(glob.glob(VERIF + '/units/*.cpp'))
    return lib, cli, units


def _inputs():
    """content hash of every file that can influence the facts"""
    fs = []
    for pat in (REPO + '/src/**/*.cpp', REPO + '/src/**/*.h', REPO + '/src/**/*.hpp', VERIF + '/stubs/**/*',
                VERIF + '/units/*', VERIF + '/tool/dpx.cpp', VERIF + '/sa/facts.py'):
        fs += glob.glob(pat, recursive=True)
    return {f: hashlib.sha256(open(f, 'rb').read()).hexdigest() for f in sorted(set(fs)) if os.path.isfile(f)}


def _hash(inp):
    return hashlib.sha256(repr((REPO, sorted(inp.items()))).encode()).hexdigest()[:24]


def _unit(src, out, inp):
    """facts of one translation unit: from the cache if no file it includes has changed (and no file was added or removed)"""
    names = hashlib.sha256(repr((REPO, sorted(inp), inp[VERIF + '/tool/dpx.cpp'], inp[VERIF + '/sa/facts.py'])).encode()).hexdigest()
    idx = BUILD + '/tu-' + hashlib.sha256(src.encode()).hexdigest()[:16]
    try:
        with open(idx + '.pkl', 'rb') as fh:
            head = pickle.load(fh)
            if head['names'] == names and all(inp.get(f) == h for f, h in head['deps'].items()):
                return pickle.load(fh)
    except Exception:
        pass
    d = _export(src, out)
    deps = {}
    for f in d.pop('files'):
        f = os.path.normpath(f)
        if f in inp:
            deps[f] = inp[f]
    if src in deps:
        with open(idx + '.tmp%d' % os.getpid(), 'wb') as fh:
            pickle.dump({'names': names, 'deps': deps}, fh, protocol=4)
            pickle.dump(d, fh, protocol=4)
        os.replace(idx + '.tmp%d' % os.getpid(), idx + '.pkl')
    return d


def _export(src, out):
    cmd = [BUILD + '/dpx', '-root=' + REPO + '/src/', '-root=' + VERIF + '/stubs/', '-root=' + VERIF + '/units/', '-exclude=csv.hpp',
           '-o', out, src, '--', '-std=c++17', '-I' + REPO + '/src/DRAMPower', '-I' + REPO + '/src/cli/lib',
           '-I' + REPO + '/src/cli/main', '-isystem', VERIF + '/stubs', '-DDRAMPOWER_TESTING', '-DNDEBUG',
           '-DDRAMPOWER_VERSION_STRING="x"', '-w', '-ferror-limit=0']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if not os.path.exists(out):
        raise AnalysisBroken('exporter failed on %s:\n%s' % (src, p.stderr[-2000:]))
    d = json.load(open(out))
    os.unlink(out)
    if d['errors'] and not src.startswith(VERIF):
        raise AnalysisBroken('%s does not parse:\n%s' % (src, p.stderr[-3000:]))
    return d


class Facts:
    def __init__(self):
        self.functions, self.records, self.enums, self.globals = {}, {}, {}, {}
        self.units = []


def load(canon=True):
    F = load_()
    if canon:
        import canon as c
        F = c.apply(F)
    return F


def load_():
    subprocess.run([VERIF + '/tool/build.sh'], check=True, stdout=subprocess.DEVNULL)
    inp = _inputs()
    key = _hash(inp)
    cache = BUILD + '/facts-' + key + '.pkl'
    if os.path.exists(cache):
        try:
            return pickle.load(open(cache, 'rb'))
        except Exception:
            pass
    lib, cli, units = sources()
    if len(lib) < 30:
        raise AnalysisBroken('only %d library sources found under %s' % (len(lib), REPO))
    srcs = lib + cli + units
    # larger units first for better packing
    tmp = BUILD + '/tmp-%d' % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda a: _unit(a[1], '%s/%d.json' % (tmp, a[0]), inp), enumerate(srcs)))
    finally:
        for f in glob.glob(tmp + '/*'):
            os.unlink(f)
        os.rmdir(tmp)
    F = Facts()
    for i, (s, d) in enumerate(zip(srcs, res)):
        F.units.append(s)
        for f in d['functions']:
            if f['f'] not in F.functions:
                f['tu'] = i
                F.functions[f['f']] = f
        for r in d['records']:
            F.records.setdefault(r['q'], r)
        for e in d['enums']:
            F.enums.setdefault(e['q'], e)
        for g in d['globals']:
            g['tu'] = i
            F.globals.setdefault(g['q'], []).append(g)
    for old in glob.glob(BUILD + '/facts-*.pkl'):
        try:
            os.unlink(old)
        except OSError:
            pass
    with open(cache + '.tmp%d' % os.getpid(), 'wb') as fh:
        pickle.dump(F, fh, protocol=4)
    os.replace(cache + '.tmp%d' % os.getpid(), cache)
    return F
