"""Shared machinery of the checks: building the driver, running batches of
cases on the real code, running TLC, evidence, verdicts."""
import json, os, sys, subprocess, time, shutil, hashlib, random, tempfile, re, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ZV_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
NCPU = 8
T0 = time.time()

def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS='-mod=mod -buildvcs=false', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off',
             GOWORK='off', GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'),
             GOMODCACHE='/root/go/pkg/mod', HOME='/root')
    return e

class CheckError(Exception):
    pass

_work = None
def work():
    global _work
    if _work is None:
        base = os.path.join(VERIF, 'work')
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix='w', dir=base)
    return _work

def cleanup():
    if _work and not os.environ.get('ZV_KEEP'):
        shutil.rmtree(_work, ignore_errors=True)

def build_driver(tags='verif', race=False):
    """Build the driver from /repo's current working tree with an overlay."""
    ov = {'Replace': {}}
    d = os.path.join(VERIF, 'driver')
    for f in sorted(os.listdir(d)):
        if not f.endswith('.go'):
            continue
        if f.startswith('zz_'):
            ov['Replace'][f'{REPO}/zygo/{f}'] = os.path.join(d, f)
        else:
            ov['Replace'][f'{REPO}/cmd/zvdriver/{f}'] = os.path.join(d, f)
    w = work()
    ovf = os.path.join(w, 'overlay.json')
    json.dump(ov, open(ovf, 'w'))
    out = os.path.join(w, 'zvdriver')
    p = subprocess.run(['go', 'build', '-tags', tags, '-overlay', ovf, '-o', out, './cmd/zvdriver'],
                       cwd=REPO, env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError('driver build failed:\n' + p.stdout + p.stderr)
    return out

def until(bads, rep, cap=25, tries=250):
    """the mismatches to look into: spread over all of them, until enough are confirmed"""
    bads = list(bads)
    n0 = len(rep.violations)
    step = max(1, len(bads) // 97) | 1
    order = [x for k in range(step) for x in bads[k::step]]
    for x in order[:tries]:
        if len(rep.violations) - n0 >= cap:
            return
        yield x

def build_zygo():
    out = os.path.join(work(), 'zygo')
    p = subprocess.run(['go', 'build', '-o', out, './cmd/zygo'], cwd=REPO, env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError('zygo build failed:\n' + p.stdout + p.stderr)
    return out

def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_DATA, (6 << 30, 6 << 30))

def _run_chunk(drv, cases, idx, results, tmo_ms, tag, env, user, left=None):
    """Runs cases in order, restarting the driver after a crash or a timeout."""
    w = os.environ.get('ZV_CWD') or work()
    pos = 0
    gen = 0
    while pos < len(cases):
        if left is not None and left[0] <= 0:
            for k in range(pos, len(cases)):
                results[idx[k]] = {'skipped': True}
            return
        gen += 1
        cf = os.path.join(w, f'c{tag}_{gen}.ndjson')
        of = os.path.join(w, f'o{tag}_{gen}.ndjson')
        with open(cf, 'w') as f:
            for c in cases[pos:]:
                f.write(json.dumps(c) + '\n')
        kw = {}
        os.chmod(cf, 0o644)
        if user is not None:
            kw = dict(user=user, group=user, extra_groups=[])
            open(of, 'w').close(); os.chmod(of, 0o666)
        p = subprocess.run([drv, cf, of, str(tmo_ms)], env=env, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=os.environ.get('ZV_CWD', w), preexec_fn=_limit, **kw)
        n = 0
        if os.path.exists(of):
            with open(of) as f:
                for line in f:
                    if not line.endswith('\n'):
                        break
                    try:
                        r = json.loads(line)
                    except ValueError:
                        break
                    if 'drivererr' in r:
                        raise CheckError('driver: ' + r['drivererr'])
                    results[idx[pos + n]] = r
                    n += 1
            os.remove(of)
        os.remove(cf)
        if p.returncode == 0:
            if pos + n != len(cases):
                raise CheckError(f'driver lost cases {n} of {len(cases)-pos}')
            return
        # output is flushed in batches: rerun the unflushed remainder one case at a time
        rest = cases[pos + n: pos + n + 40]
        for k, c in enumerate(rest):
            if left is not None and left[0] <= 0:
                results[idx[pos + n + k]] = {'skipped': True}
                continue
            with open(cf, 'w') as f:
                f.write(json.dumps(c) + '\n')
            if user is not None:
                open(of, 'w').close(); os.chmod(of, 0o666)
            q = subprocess.run([drv, cf, of, str(tmo_ms)], env=env, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, cwd=os.environ.get('ZV_CWD', w), preexec_fn=_limit, **kw)
            r = None
            if os.path.exists(of):
                t = open(of).read()
                os.remove(of)
                if t.endswith('\n'):
                    r = json.loads(t)
            if q.returncode == 97:
                results[idx[pos + n + k]] = {'timeout': True}
                if left is not None:
                    left[0] -= 1
            elif q.returncode != 0 or r is None:
                err = q.stderr.decode('utf8', 'replace')
                results[idx[pos + n + k]] = {'crash': q.returncode, 'stderr': err[:1500]}
                if left is not None:
                    left[0] -= 1
            else:
                results[idx[pos + n + k]] = r
        pos += n + len(rest)

def run_cases(drv, cases, tmo_ms=10000, nproc=NCPU, env=None, user=None, max_bad=None):
    """Run every case on the real code; returns results in order.  A result is
    the driver's answer, {'timeout':True} or {'crash':rc,'stderr':..}."""
    e = dict(os.environ)
    e.setdefault('GOGC', '200')
    e['GOMAXPROCS'] = '2'
    if env:
        e.update(env)
    left = None if max_bad is None else [max_bad]  # after that many crashes and hangs the rest is skipped
    results = [None] * len(cases)
    nproc = max(1, min(nproc, len(cases)))
    ths, errs = [], []
    base = hashlib.md5(os.urandom(8)).hexdigest()[:6]
    # smaller chunks, work queue
    csz = max(1, min(400, (len(cases) + nproc - 1) // nproc))
    q = queue.Queue()
    for s in range(0, len(cases), csz):
        q.put(s)
    def worker(t):
        while True:
            try:
                s = q.get_nowait()
            except queue.Empty:
                return
            try:
                _run_chunk(drv, cases[s:s+csz], list(range(s, min(s+csz, len(cases)))), results, tmo_ms, f'{base}_{t}_{s}', e, user, left)
            except Exception as ex:
                errs.append(ex)
                return
    for t in range(nproc):
        th = threading.Thread(target=worker, args=(t,)); th.start(); ths.append(th)
    for th in ths:
        th.join()
    if errs:
        raise errs[0]
    return results

# ---------------------------------------------------------------- TLC
TLCJAR = '/opt/veriftools/tla/tla2tools.jar'
def _cp():
    d = os.path.dirname(TLCJAR)
    js = [os.path.join(d, f) for f in os.listdir(d) if f.endswith('.jar')]
    js.sort(key=lambda x: (os.path.basename(x) != 'tla2tools.jar', x))
    return ':'.join(js)

class TLCResult:
    pass

def tlc(module, cfg_text, env=None, workers=NCPU, heap='6g', extra=None, timeout=800, deadlock=False, dump=None, simulate=None):
    """Run TLC on spec/<module>.tla in a scratch directory.  Returns stdout and
    the counts.  Raises CheckError on anything but a finished run or an invariant
    violation (reported in .violated)."""
    w = tempfile.mkdtemp(prefix='tlc', dir=work())
    cfg = os.path.join(w, module + '.cfg')
    open(cfg, 'w').write(cfg_text)
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-cp', _cp(),
           '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet' if False else '-Dx=y',
           '-DTLA-Library=' + os.path.join(VERIF, 'spec'),
           'tlc2.TLC', '-config', cfg, '-metadir', os.path.join(w, 'meta'), '-workers', str(workers), '-noGenerateSpecTE']
    if not deadlock:
        cmd.append('-deadlock')
    if simulate:
        cmd += ['-simulate', simulate]
    if extra:
        cmd += extra
    cmd.append(os.path.join(VERIF, 'spec', module + '.tla'))
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=w, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f'TLC timed out on {module}')
    r = TLCResult()
    r.out = p.stdout
    r.rc = p.returncode
    r.wall = time.time() - t
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    r.generated, r.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    r.violated = 'is violated' in p.stdout
    shutil.rmtree(w, ignore_errors=True)
    if p.returncode != 0 and not r.violated:
        tail = p.stdout[-3000:]
        raise CheckError(f'TLC failed on {module} rc={p.returncode}\n{tail}\n{p.stderr[-1500:]}')
    return r

def write_ndjson(name, rows):
    p = os.path.join(work(), name)
    with open(p, 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')
    return p

def read_ndjson(p):
    with open(p) as f:
        return [json.loads(l) for l in f if l.strip()]

# ---------------------------------------------------------------- verdicts
class Report:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.cov = {}
        self.violations = []
        self.known_hit = []
        self.assumptions = []
        self.samples = []
        self.known = load_known(pid)

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, key, detail, replay):
        """key identifies the failing input/history; known findings are matched on it."""
        for k in self.known:
            if k['status'] == 'known' and finding_matches(k, key, detail):
                if k['id'] not in [x['id'] for x in self.known_hit]:
                    self.known_hit.append(k)
                return
        if any(str(v[0]) == str(key) for v in self.violations):
            return
        self.violations.append((key, detail, replay))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(self.cov)
        cov['samples'] = self.samples
        ev = {'property': self.pid, 'tier': 'thorough' if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2),
              'violations': len(self.violations)}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.pid} {k['id']}: {k['what']}")
        if self.violations:
            od = os.path.join(VERIF, 'out')
            os.makedirs(od, exist_ok=True)
            for n, (key, detail, replay) in enumerate(self.violations[:int(os.environ.get("ZV_MAXV","3"))]):
                path = os.path.join(od, f'{self.pid}-{n}.json')
                json.dump({'property': self.pid, 'key': key, 'detail': detail, 'replay': replay}, open(path, 'w'), indent=1)
                print(f'VIOLATION property={self.pid} replay={path}')
                print('   ', str(key)[:300], '--', str(detail)[:500])
            if len(self.violations) > 3:
                print(f'    ... and {len(self.violations)-3} more')
            return 1
        print(f"{self.pid}: ok  " + ' '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, (int, float))) + f' wall={time.time()-T0:.1f}s')
        return 0

def load_known(pid):
    p = os.path.join(VERIF, 'findings', 'known.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == pid]

def finding_matches(k, key, detail):
    m = k.get('match')
    if m is None:
        return False
    if 'key' in m:
        return str(key) == m['key']
    if 'keys' in m:
        return str(key) in m['keys']
    if 'key_re' in m:
        ok = re.search(m['key_re'], str(key), re.S) is not None
        if ok and 'detail_re' in m:
            ok = re.search(m['detail_re'], str(detail), re.S) is not None
        return ok
    return False
