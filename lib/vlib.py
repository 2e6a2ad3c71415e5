"""Shared driver: builds the encoding from /repo's current tree, runs symx jobs, replays, writes evidence."""
import atexit, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = float(os.environ.get('VERIF_BUDGET', '660' if TIER == 'quick' else '0'))  # seconds for symbolic execution; what does not fit stays UNDECIDED
NPROC = int(os.environ.get('VERIF_NPROC', str(os.cpu_count() or 8)))


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def build_engine():
    src = [os.path.join(VERIF, 'engine', f) for f in ('symx.cpp', 'builtins.h', 'expr.h')]
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, 'rb').read())
    exe = os.path.join(BUILD, 'symx-' + h.hexdigest()[:16])
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    inc = sh(['llvm-config-18', '--includedir']).strip()
    ld = sh(['llvm-config-18', '--ldflags']).split()
    sh(['g++', '-O2', '-std=c++17', '-w', '-I' + Z3 + '/include', '-I' + inc, src[0], '-o', tmp,
        '-L' + Z3 + '/lib', '-lz3', '-Wl,-rpath,' + Z3 + '/lib'] + ld + ['-lLLVM-18'])
    os.rename(tmp, exe)
    return exe


class Build:
    """One run's build products, made from REPO's working tree in a private directory."""

    def __init__(self, harness, cxx=False, native=True, extra_data=None, locale=False):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = os.path.join(BUILD, 'run-%d' % os.getpid())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(lambda: shutil.rmtree(self.dir, ignore_errors=True))
        self.harness, self.cxx, self.locale = harness, cxx, locale
        self.headers()
        self.t_build = time.time()
        ex = ThreadPoolExecutor(8)
        eng = ex.submit(build_engine)
        self.nat_future = ex.submit(self.build_native) if native else None
        self.bc = self.build_bc(ex)
        self.engine = eng.result()
        self.t_build = time.time() - self.t_build

    def headers(self):
        inc = self.inc = os.path.join(self.dir, 'include')
        os.makedirs(inc + '/cppp/encodings')

        def conf(src, dst, **v):
            t = open(os.path.join(REPO, src), encoding='utf-8').read()
            for k, x in v.items():
                t = t.replace('@%s@' % k, x)
            open(os.path.join(inc, dst), 'w', encoding='utf-8').write(t)
        for e in ('h', 'hpp'):
            conf('include/cppp/reiconv.%s.in' % e, 'cppp/reiconv.' + e, CPPP_API='')
            code = open(os.path.join(REPO, 'lib/generated/indexes.%s.shippet' % e), encoding='utf-8').read().strip()
            conf('include/cppp/encodings/reiconv.%s.in' % e, 'cppp/encodings/reiconv.' + e, INDEXES_CODE=code)
        conf('include/iconv.h.in', 'iconv.h', CPPP_API='', VERSION_MAJOR='3', VERSION_MINOR='0', VERSION_PATCH='0', PROJECT_VERSION_MAJOR='3', PROJECT_VERSION_MINOR='0', PROJECT_VERSION_PATCH='0')
        m = re.search(r'project\s*\(.*?VERSION\s+"?(\d+)\.(\d+)\.(\d+)', open(os.path.join(REPO, 'CMakeLists.txt')).read(), re.S)
        v = m.groups() if m else ('3', '0', '0')
        self.defs = ['-DVERSION_MAJOR=%s' % v[0], '-DVERSION_MINOR=%s' % v[1], '-DVERSION_PATCH=%s' % v[2]]

    def sources(self):
        t = open(os.path.join(REPO, 'CMakeLists.txt')).read()
        m = re.search(r'set\s*\(\s*SOURCES\s+(.*?)\)', t, re.S)
        fs = re.findall(r'lib/[\w./-]+\.(?:cpp|c)\b', m.group(1)) if m else []
        fs = [f for f in fs if os.path.exists(os.path.join(REPO, f))]
        if 'lib/iconv.c' not in fs:
            fs = ['lib/iconv.c'] + fs
        fs = [f for f in fs if 'locale_charset' not in f]
        return [f for f in fs if f.endswith('.c') or self.cxx]

    def flags(self):
        return ['-I' + os.path.join(VERIF, 'harness'), '-I' + self.dir, '-I' + self.inc, '-I' + os.path.join(REPO, 'lib')] + self.defs

    def build_bc(self, ex):
        base = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-gline-tables-only', '-w', '-emit-llvm', '-c']
        jobs = []
        for f in self.sources():
            o = os.path.join(self.dir, f.replace('/', '_') + '.bc')
            cc = ['clang++-18', '-std=c++17', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-U_FORTIFY_SOURCE'] if f.endswith('.cpp') else ['clang-18']
            jobs.append((cc + base + self.flags() + [os.path.join(REPO, f), '-o', o], o))
        for f in self.harness:
            o = os.path.join(self.dir, 'H_' + os.path.basename(f) + '.bc')
            cc = ['clang++-18', '-std=c++17', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] if f.endswith('.cpp') else ['clang-18']
            jobs.append((cc + base + self.flags() + [f if f.startswith('/') else os.path.join(VERIF, 'harness', f), '-o', o], o))
        o = os.path.join(self.dir, 'models.bc')
        jobs.append((['clang-18'] + base + ['-fno-builtin', os.path.join(VERIF, 'engine/models.c'), '-o', o], o))
        if self.cxx:
            o = os.path.join(self.dir, 'models_cxx.bc')
            jobs.append((['clang++-18', '-std=c++17', '-U_FORTIFY_SOURCE'] + base + [os.path.join(VERIF, 'engine/models_cxx.cpp'), '-o', o], o))
        list(ex.map(lambda j: sh(j[0]), jobs))
        allbc = os.path.join(self.dir, 'all.bc')
        sh(['llvm-link-18'] + [j[1] for j in jobs] + ['-o', allbc])
        sh(['opt-18', '-passes=mem2reg', allbc, '-o', allbc + '2'])
        return allbc + '2'

    def build_native(self):
        objs = []
        fl = ['-O1', '-g1', '-w', '-fsanitize=address', '-fno-omit-frame-pointer'] + self.flags()
        cmds = []
        for f in self.sources():
            o = os.path.join(self.dir, 'n_' + f.replace('/', '_') + '.o')
            cmds.append((['g++', '-std=c++17'] if f.endswith('.cpp') else ['gcc']) + fl + ['-c', os.path.join(REPO, f), '-o', o]); objs.append(o)
        hs = [f if f.startswith('/') else os.path.join(VERIF, 'harness', f) for f in self.harness] + [os.path.join(VERIF, 'harness/rt.c')]
        if self.cxx:
            hs.append(os.path.join(VERIF, 'harness/rt_new.cpp'))
        for f in hs:
            o = os.path.join(self.dir, 'n_H_' + os.path.basename(f) + '.o')
            cmds.append((['g++', '-std=c++17'] if f.endswith('.cpp') else ['gcc']) + fl + ['-c', f, '-o', o]); objs.append(o)
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(sh, cmds))
        for o in objs[:len(self.sources())]:  # so that the runtime can tell whether the library's writable data changed
            sh(['objcopy', '--set-section-flags', '.bss=alloc,load,data,contents'] + [x for k in ('.data', '.bss', '.data.rel.local', '.data.rel') for x in ('--rename-section', k + '=libdata,alloc,load,data,contents')] + [o])
        exe = os.path.join(self.dir, 'native')
        sh(['g++', '-fsanitize=address', '-rdynamic'] + objs + ['-o', exe, '-ldl', '-Wl,--wrap=malloc,--wrap=realloc,--wrap=calloc,--wrap=free'])
        return exe

    @property
    def native(self):
        return self.nat_future.result()

    def run(self, jobs, nproc=None, budget=None):
        jf, of = os.path.join(self.dir, 'jobs.jsonl'), os.path.join(self.dir, 'out.jsonl')
        with open(jf, 'w') as f:
            for j in jobs:
                f.write(json.dumps({k: v for k, v in j.items() if k != 'meta'}) + '\n')
        r = subprocess.run([self.engine, self.bc, jf, of, str(nproc or NPROC)] + ([str(budget)] if budget else []), stderr=subprocess.PIPE, text=True)
        if r.stderr and os.environ.get('VERIF_DEBUG'):
            sys.stderr.write(r.stderr[-3000:])
        if r.returncode:
            raise BuildError('engine exit %d\n%s' % (r.returncode, r.stderr[-2000:]))
        res = {}
        for l in open(of):
            d = json.loads(l)
            res[d['id']] = d
        return res

    def replay(self, job, syms, allocs, tag='case', fill=None):
        p = os.path.join(self.dir, '%s-%s.case' % (tag, hashlib.md5((job['id'] + repr(syms) + repr(allocs)).encode()).hexdigest()[:12]))
        write_case(p, job, syms, allocs)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=43:allocator_may_return_null=1:handle_abort=1')
        if fill is not None:
            env['RT_FILL'] = str(fill)
        try:
            r = subprocess.run([self.native, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=20)
            out, err, rc = r.stdout.decode('latin1'), r.stderr.decode('latin1'), r.returncode
        except subprocess.TimeoutExpired:
            out, err, rc = '', 'timeout', -14
        os.unlink(p)
        return rc, out, err


def u64(x):
    return x & 0xFFFFFFFFFFFFFFFF


def write_case(p, job, syms, allocs):
    with open(p, 'w') as f:
        f.write(job['fn'] + '\n' + ' '.join(str(x) for x in job.get('params', [])) + '\n')
        f.write('%d\n' % len(job.get('data', [])))
        for d in job.get('data', []):
            f.write(d + '\n')
        f.write(' '.join(str(u64(x)) for x in syms) + '\n' + ' '.join(str(x) for x in allocs) + '\n')


class DataFile(str):
    """a data item that is a file of the run directory"""


def hx(s):
    if isinstance(s, DataFile):
        return '@' + s
    if isinstance(s, str):
        s = s.encode('latin1')
    return s.hex()


def confirm(v, rc, out, err):
    """does the native run exhibit the violation the solver found?"""
    if v['kind'] == 'assert':
        if rc == 42 and 'ASSERT-FAIL' in out:
            return True, re.search(r'ASSERT-FAIL (.*)', out).group(0)
        if rc in (43, -6, -11, 134, 139) and 'RT-ERROR' not in out:
            return True, (re.search(r'ERROR: AddressSanitizer[^\n]*', err) or re.search(r'.*', 'crash rc=%d' % rc)).group(0)
        return False, ''
    if v['kind'] == 'nontermination':
        return rc in (-14, 142), 'native run does not terminate'
    if rc in (43, -6, -11, 134, 139):
        m = re.search(r'ERROR: AddressSanitizer[^\n]*', err)
        return True, (m.group(0) if m else 'crash rc=%d %s' % (rc, err[-200:]))
    if rc == 42:
        return True, 'ASSERT-FAIL'
    return False, ''


class Check:
    """Runs the jobs of one property, decides, replays, validates, writes evidence."""

    def __init__(self, prop, harness, title, bounds, assumptions=(), cxx=False):
        self.prop, self.title, self.bounds, self.assumptions = prop, title, bounds, list(assumptions)
        self.t0 = time.time()
        self.jobs = []
        self.need = {}
        try:
            self.b = Build(harness, cxx=cxx)
        except BuildError as e:
            print('BUILD-ERROR %s' % e)
            sys.exit(2)

    def job(self, id, fn, params=(), data=(), tmo=None, reach=(), **kw):
        j = dict(id=id, fn=fn, params=list(params), data=[hx(d) for d in data], tmo=tmo or (120 if TIER == 'quick' else 600), **kw)
        self.jobs.append(j)
        if reach:
            self.need[id] = set(reach)
        return j

    def finish(self, known=None, notes=None, reach_any=()):
        for j in self.jobs:
            j.setdefault('tmo', 120)
        res = self.b.run(self.jobs, budget=max(30, BUDGET - (time.time() - self.t0)) if BUDGET else None)
        byid = {j['id']: j for j in self.jobs}
        S = lambda k: sum(r.get(k, 0) or 0 for r in res.values())
        undecided = [(i, r.get('status'), r.get('why') or r.get('incomplete')) for i, r in res.items() if (r['status'] != 'done' or r.get('incomplete')) and not r.get('violations')]
        fns = set()
        for r in res.values():
            fns |= set(r.get('fns', []))
        # violations: replay natively
        confirmed, unconfirmed, skipped = [], [], 0
        kf = load_known(self.prop)
        for i, r in res.items():
            for v in r.get('violations', []):
                if len(confirmed) >= 30 or len(confirmed) >= 3 and time.time() - self.t0 > 760:
                    skipped += 1
                    continue
                rc, out, err = self.b.replay(byid[i], v['syms'], v['allocs'])
                ok, what = confirm(v, rc, out, err)
                for fill in (0, 255, 1, 128):  # behaviour that depends on uninitialised memory needs the right garbage
                    if ok:
                        break
                    rc, out, err = self.b.replay(byid[i], v['syms'], v['allocs'], fill=fill)
                    ok, what = confirm(v, rc, out, err)
                    if ok:
                        what += ' (fresh heap memory filled with 0x%02x)' % fill
                (confirmed if ok else unconfirmed).append((i, v, what, rc, out[-300:], err[-300:]))
        new, knownhits = [], []
        for c in confirmed:
            k = next((k for k in kf if k['job'] == c[0] and k['msg'] in c[1]['msg']), None)
            (knownhits if k else new).append((c, k))
        # validation of the encoding: solver-chosen path representatives replayed on the real build
        val, bad, samples = 0, [], []
        cases = []
        for i, r in res.items():
            for s in r.get('samples', []):
                cases.append((i, s))
        lim = 1200 if TIER == 'quick' else 6000
        if len(cases) > lim:
            step = len(cases) / lim
            cases = [cases[int(k * step)] for k in range(lim)]

        def one(c):
            i, s = c
            rc, out, err = self.b.replay(byid[i], s['syms'], s['allocs'], 'val')
            obs = [[int(a), int(b)] for a, b in re.findall(r'OBS (-?\d+) (-?\d+)', out)]
            want = [o for o in s['obs'] if o[0] != 9000]
            return (rc == 0 and obs == want), c, rc, obs, want, out[-200:], err[-300:]
        if cases and not new:
            self.b.native
            with ThreadPoolExecutor(NPROC) as ex:
                for ok, c, rc, obs, want, out, err in ex.map(one, cases):
                    if ok:
                        val += 1
                        if len(samples) < 5 and (len(samples) == 0 or val % 37 == 0):
                            samples.append(dict(job=c[0], values=c[1]['syms'][:40], observed=want[:24]))
                    else:
                        bad.append((c[0], rc, obs[:8], want[:8], c[1]['syms'], out, err))
        missing = {i: sorted(n - set(res[i].get('reach', []))) for i, n in self.need.items() if i in res and res[i]['status'] == 'done' and not res[i].get('violations') and n - set(res[i].get('reach', []))}
        allreach = set()
        for r in res.values():
            allreach |= set(r.get('reach', []))
        missing_any = sorted(set(reach_any) - allreach)
        wall = time.time() - self.t0
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='model_checking',
                  coverage=dict(states=S('paths'), transitions=S('instrs'), traces_validated_against_impl=val, samples=samples or [dict(job=j['id'], fn=j['fn']) for j in self.jobs[:2]],
                                jobs=len(self.jobs), jobs_decided=len(self.jobs) - len(undecided), undecided=[list(u) for u in undecided[:50]],
                                solver_queries=S('queries'), sat=S('sat'), unsat=S('unsat'), unknown=S('unknown'), solver_s=round(S('solver_s'), 2),
                                queries_closed_by_simplifier=S('interval'), queries_closed_by_cached_model=S('cached'), queries_closed_by_table_simplifier=S('table'),
                                assertions_checked=S('asserts'), forks=S('forks'), merges=S('merges'), functions_encoded=sorted(fns)[:400], n_functions=len(fns),
                                bounds=self.bounds, build_s=round(self.b.t_build, 1), encoding_mismatches=len(bad)),
                  assumptions=self.assumptions, wall_s=round(wall, 1), violations=len(new))
        if notes:
            ev['coverage']['notes'] = notes
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d jobs, %d paths, %d solver queries (%.1f s), %d assertions, %d traces validated, %.1f s' % (self.prop, len(self.jobs), S('paths'), S('queries'), S('solver_s'), S('asserts'), val, wall))
        for u in undecided[:20]:
            print('UNDECIDED %s %s %s' % u)
        for (c, k) in knownhits:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        if os.environ.get('VERIF_DEBUG'):
            for r in sorted(res.values(), key=lambda r: -r.get('wall_s', 0))[:12]:
                print('   slow', r['id'], r['status'], 'wall %.1f' % r.get('wall_s', 0), 'q', r.get('queries'), 'paths', r.get('paths'))
        code = 0
        if new:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            for n, (c, _) in enumerate(new[:12]):
                i, v, what = c[0], c[1], c[2]
                p = os.path.join(rd, '%s-%d.json' % (self.prop, n))
                json.dump(dict(property=self.prop, job=byid[i], kind=v['kind'], msg=v['msg'], loc=v['loc'], syms=[u64(x) for x in v['syms']], allocs=v['allocs'], native=what), open(p, 'w'), indent=1)
                print('  %s [%s] %s at %s; values %s; native: %s' % (i, v['kind'], v['msg'], v['loc'], [hex(u64(x)) for x in v['syms'][:24]], what))
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
            if len(new) + skipped > 12:
                print('  ... and %d more' % (len(new) + skipped - 12))
            code = 1
        else:
            for c in unconfirmed[:10]:
                print('UNCONFIRMED %s %s %s values=%s rc=%s %s %s' % (c[0], c[1]['kind'], c[1]['msg'], [hex(u64(x)) for x in c[1]['syms'][:24]], c[3], c[4], c[5]))
            for x in bad[:10]:
                print('ENCODING-MISMATCH %s' % (x,))
            if missing:
                print('VACUOUS %s' % dict(list(missing.items())[:10]))
            if missing_any:
                print('VACUOUS overall %s' % missing_any)
            if unconfirmed or bad or missing_any and not undecided or (undecided and len(undecided) * 2 > len(self.jobs)):
                code = 2
            if missing:
                code = 2
        sys.stdout.flush()
        return code


def load_known(prop):
    p = os.path.join(VERIF, 'known-findings.txt')
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) job=(\S+) msg="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop:
                r.append(dict(job=m.group(2), msg=m.group(3), what=m.group(4)))
    return r
