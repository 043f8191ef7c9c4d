"""Common machinery: building the drivers from /repo's working tree, running them,
running TLC, evidence, known findings and the VIOLATION protocol."""
import fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
BUILD = VERIF + '/build'
CXX = '/usr/bin/g++'
FLAGS = ['-std=c++14', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer',
         '-D_GLIBCXX_ASSERTIONS', '-w', '-fno-pie', '-DLIBIGES_VERIF_HOOKS']
LDFLAGS = ['-no-pie', '-fsanitize=address']
CORES = min(8, os.cpu_count() or 4)
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'


SEEN = [0]      # differences and crashes seen in this run
SOFT = []       # problems of the machinery which matter only if the implementation did not diverge


class Infra(Exception):
    """the machinery itself failed; no verdict"""


def _groups(groups):
    m = {'core': ['iges', 'entities', 'geom'], 'geom': ['geom'], 'dll': ['dllapi'], 'idf': ['idf']}
    out = []
    for g in groups:
        for d in m[g]:
            for f in sorted(glob.glob('%s/%s/*.cpp' % (SRC, d))):
                b = os.path.basename(f)
                if b in ('entity_template.cpp', 'idf2igs.cpp'):
                    continue
                out.append(f)
    return out


def build(driver, groups=('core',), extra=()):
    """compile harness/<driver>.cpp with the library sources; returns the binary's path"""
    srcs = _groups(groups)
    drv = '%s/harness/%s.cpp' % (VERIF, driver)
    h = hashlib.sha256()
    hdrs = sorted(glob.glob(SRC + '/include/**/*.h', recursive=True) + glob.glob(SRC + '/idf/*.h') + [SRC + '/idf/idf2igs.cpp'] + glob.glob(VERIF + '/harness/*.h'))
    hh = hashlib.sha256()
    for f in hdrs:
        hh.update(f.encode() + b'\0' + open(f, 'rb').read())
    hh.update(repr((FLAGS, LDFLAGS, extra)).encode())
    hdrhash = hh.digest()
    os.makedirs(BUILD + '/obj', exist_ok=True)
    inc = BUILD + '/inc'
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        os.makedirs(inc, exist_ok=True)
        conf = ('#ifndef LIBIGESCONF_H\n#define LIBIGESCONF_H\n#define LIB_VERSION_MAJOR (0)\n#define LIB_VERSION_MINOR (3)\n'
                '#define STATIC_IGES\n#define MCAD_API\n#define USE_SISL\n#define HAS_NURBS_LIB\n#endif\n')
        p = inc + '/libigesconf.h'
        if not os.path.exists(p) or open(p).read() != conf:
            open(p, 'w').write(conf)
        incs = ['-I' + inc] + ['-I%s/include/%s' % (SRC, d) for d in ('core', 'geom', 'api')] + ['-I%s/include' % SRC, '-I%s/idf' % SRC, '-I%s/harness' % VERIF]
        jobs, objs = [], []
        for f in srcs + [drv]:
            fl = list(FLAGS)
            if f == drv:
                fl += list(extra)
            k = hashlib.sha256(hdrhash + (b''.join(open(x, 'rb').read() for x in sorted(glob.glob(VERIF + '/harness/*.cpp'))) if f == drv else b'') + open(f, 'rb').read() + f.encode() + repr(fl).encode()).hexdigest()[:24]
            o = '%s/obj/%s.o' % (BUILD, k)
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((f, o, fl))

        def comp(j):
            f, o, fl = j
            r = subprocess.run([CXX] + fl + incs + ['-c', f, '-o', o + '.tmp'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return '%s:\n%s' % (f, r.stdout[-3000:])
            os.rename(o + '.tmp', o)
        with ThreadPoolExecutor(CORES) as ex:
            errs = [e for e in ex.map(comp, jobs) if e]
        if errs:
            raise Infra('compilation failed: ' + '\n'.join(errs))
        k = hashlib.sha256('\n'.join(objs).encode()).hexdigest()[:24]
        binp = '%s/%s_%s' % (BUILD, driver, k)
        if not os.path.exists(binp):
            for old in glob.glob('%s/%s_*' % (BUILD, driver)):
                os.unlink(old)
            r = subprocess.run([CXX] + LDFLAGS + objs + ['-o', binp + '.tmp', '-L/usr/lib', '-lsisl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise Infra('link failed: ' + r.stdout[-3000:])
            os.rename(binp + '.tmp', binp)
            # prune stale objects
            objset = set(glob.glob(BUILD + '/obj/*.o'))
            if len(objset) > 600:
                for o in sorted(objset - set(objs), key=os.path.getmtime)[:200]:
                    os.unlink(o)
    return binp


class Scratch:
    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % tag, dir=os.environ.get('TMPDIR', '/tmp'))

    def __enter__(self):
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def _env(d):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:log_path=%s/asan:suppressions=%s/harness/asan.supp' % (d, VERIF)
    e['LC_ALL'] = 'C'
    return e


def run_driver(binp, text, workdir, tag='r', timeout=120, args=()):
    """run one driver process over a script text; returns (lines, status, note)"""
    sp, op = '%s/%s.in' % (workdir, tag), '%s/%s.out' % (workdir, tag)
    open(sp, 'w').write(text)
    wd = '%s/%s.d' % (workdir, tag)
    os.makedirs(wd, exist_ok=True)
    for f in glob.glob(wd + '/asan*'):
        os.unlink(f)
    note = ''
    try:
        r = subprocess.run([binp, sp, op, wd] + list(args), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout, env=_env(wd), cwd=wd)
        st = r.returncode
    except subprocess.TimeoutExpired:
        st = 'timeout'
    if st != 0:
        for f in glob.glob(wd + '/asan*'):
            t = open(f, errors='replace').read()
            m = re.search(r'ERROR: (AddressSanitizer[^\n]*)', t)
            fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)', t)
            note = (m.group(1) if m else t[:200]) + ' @ ' + ' < '.join(fr[:5])
            break
        else:
            note = 'exit status %s' % st
    lines = []
    if os.path.exists(op):
        for l in open(op, errors='replace'):
            try:
                lines.append(json.loads(l))
            except ValueError:
                pass
    return lines, st, note


def split_scripts(scripts, header, n):
    """distribute numbered scripts over n texts. scripts: list of list-of-lines"""
    out = []
    per = (len(scripts) + n - 1) // n if scripts else 1
    for b in range(0, len(scripts), per):
        t = []
        for i in range(b, min(b + per, len(scripts))):
            t.append('#S %d %s' % (i, header(i) if callable(header) else header))
            t += scripts[i]
            t.append('#E')
        out.append((list(range(b, min(b + per, len(scripts)))), '\n'.join(t) + '\n'))
    return out


def run_scripts(binp, scripts, header, workdir, timeout=300, single_timeout=20, args=()):
    """run all scripts in parallel; returns (traces {i: [events]}, crashes {i: note}).
    A crash or hang is confirmed by running its script alone (twice)."""
    traces, crashes = {}, {}

    def chunk(job):
        k, (ids, text) = job
        tr, cr = {}, {}
        todo = list(ids)
        hd = header if callable(header) else (lambda i: header)
        rounds = 0
        while todo:
            rounds += 1
            if rounds > 40:
                for i in todo:
                    tr.setdefault(i, None)
                break
            t = ''.join('#S %d %s\n%s\n#E\n' % (i, hd(i), '\n'.join(scripts[i])) for i in todo)
            lines, st, note = run_driver(binp, t, workdir, 'c%d' % k, timeout, args)
            cur = None
            done = set()
            for ev in lines:
                if ev['op'] == 'start':
                    cur = ev['t']
                    tr[cur] = []
                elif ev['op'] == 'end':
                    done.add(ev['t'])
                else:
                    tr.setdefault(ev['t'], []).append(ev)
            if st == 0 and all(i in done for i in todo):
                break
            rest = [i for i in todo if i not in done]
            if not rest:
                break
            bad = rest[0]
            # confirm alone
            t1 = '#S %d %s\n%s\n#E\n' % (bad, hd(bad), '\n'.join(scripts[bad]))
            l1, s1, n1 = run_driver(binp, t1, workdir, 'c%da' % k, single_timeout, args)
            l2, s2, n2 = run_driver(binp, t1, workdir, 'c%da' % k, single_timeout, args)
            if st == 0:
                s1 = s2 = 1
                n1 = 'the process ended inside the library'
            if s1 != 0 and s2 != 0:
                cr[bad] = '%s (after %d operations)' % (n1, sum(1 for e in l1 if e['op'] not in ('start', 'end')))
            tr[bad] = [e for e in l1 if e['op'] not in ('start', 'end')]
            todo = rest[1:]
        return tr, cr
    chunks = split_scripts(scripts, header, CORES * 2)
    with ThreadPoolExecutor(CORES) as ex:
        for tr, cr in ex.map(chunk, list(enumerate(chunks))):
            for i, evs in tr.items():
                for k, e in enumerate(evs or []):
                    if e['op'] == 'BADOP':      # the operands do not exist: the implementation diverged before
                        SOFT.append('bad operation in script: %s' % scripts[i][e['i'] - 1])
                        tr[i] = evs[:k]
                        break
            traces.update(tr)
            crashes.update(cr)
    SEEN[0] += len(crashes)
    return traces, crashes


def tlc(module, cfg, workdir, timeout=600, workers=1, env=None, args=(), heap='2g', dfs=False):
    """run TLC; returns dict(rc, out, states, distinct, depth)"""
    meta = tempfile.mkdtemp(prefix='tlc', dir=workdir)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m']
    cmd += ['-cp', TLAJAR + ':' + '/opt/veriftools/tla/CommunityModules-deps.jar' + ':' + VERIF + '/spec', 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers), '-config', cfg] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=VERIF + '/spec', env=e)
    except subprocess.TimeoutExpired as x:
        shutil.rmtree(meta, ignore_errors=True)
        raise Infra('TLC timed out after %ss on %s' % (timeout, module))
    shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.search(r'(\d+) states generated, (\d+) distinct', out)
    d = re.search(r'depth of the complete state graph search is (\d+)', out)
    return dict(rc=r.returncode, out=out, states=int(m.group(1)) if m else 0, distinct=int(m.group(2)) if m else 0,
                depth=int(d.group(1)) if d else 0, wall=time.time() - t)


def tlc_ok(res, what):
    if res['rc'] != 0:
        raise Infra('model check of %s failed:\n%s' % (what, res['out'][-3000:]))


def known_findings(prop):
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == prop and k.get('status') == 'open']


CUR = []


class Check:
    def __init__(self, prop, level, tier=None):
        CUR.append(self)
        self.prop, self.level = prop, level
        self.tier = tier or (sys.argv[1] if len(sys.argv) > 1 else os.environ.get('VERIF_TIER', 'quick'))
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.viol = []
        self.known = []
        self.rng = random.Random(self.seed * 7919 + int(hashlib.sha256(prop.encode()).hexdigest()[:6], 16))

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def violation(self, what, detail):
        for k in known_findings(self.prop):
            if k['match'] in what or k['match'] in json.dumps(detail, default=str):
                if k['id'] not in [x['id'] for x in self.known]:
                    self.known.append(k)
                return
        self.viol.append((what, detail))

    def finish(self):
        if SOFT and not self.viol and not SEEN[0]:
            raise Infra(SOFT[0])
        ev = VERIF + '/evidence'
        os.makedirs(ev + '/replays', exist_ok=True)
        for f in glob.glob('%s/replays/%s-*.json' % (ev, self.prop)):
            os.unlink(f)
        vs = []
        for i, (what, detail) in enumerate(self.viol[:10]):
            p = '%s/replays/%s-%d.json' % (ev, self.prop, i)
            json.dump({'property': self.prop, 'what': what, 'detail': detail}, open(p, 'w'), indent=1, default=str)
            vs.append((what, p))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        doc = {'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': self.level,
               'coverage': self.cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
               'violations': len(self.viol)}
        json.dump(doc, open('%s/%s.json' % (ev, self.prop), 'w'), indent=1)
        for what, p in vs:
            print('# %s' % what[:400])
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        print('%s %s: %s in %.1fs' % (self.prop, self.tier, 'held' if not self.viol else '%d violation(s)' % len(self.viol), time.time() - self.t0))
        sys.exit(1 if self.viol else 0)


def main(fn):
    try:
        try:
            fn()
        except Exception as x:
            if CUR and CUR[0].viol:         # what was found before the failure stands
                print('# incomplete: %s' % str(x)[:300])
                CUR[0].finish()
            raise
    except Infra as x:
        print('ERROR (no verdict): %s' % x)
        sys.exit(2)
    except Exception:
        import traceback
        print('ERROR (no verdict): ' + traceback.format_exc()[-3000:])
        sys.exit(2)
