"""C08: a sandboxed interpreter cannot reach the outside world.
TLC shows on the model of the mechanism (Sandbox) that the contract follows from the
tables and forms granting nothing and that each faulty variant breaks it, and
enumerates the ways to call a name (SandboxGen).  Every name that the interpreter
knows is called in each way, with arguments that point at canaries, in a sandboxed
interpreter of each configuration, in a watched directory as an unprivileged user;
TLC validates every recorded world and what the program said (SandboxTrace)."""
import random, re, os, json, glob, subprocess, shutil, tempfile, itertools
import common as C
LEVEL = 'model_checking'
SECRET = {'F': 'zvs3cr3tF', 'E': 'zvs3cr3tE', 'C': 'zvs3cr3tC'}

SHAPES = ['"canary.zy"', '"made.txt"', '"echo zvs3\\"cr\\"3tC"', '"ZVENVCANARY"', '%canary', 'ZVENVCANARY', '["canary.zy"]', '(quote (touch made2))',
          '3', '(raw "canary.zy")', '(hash file: "canary.zy" path: "canary.zy")', '(fn [x] x)', '"$ZVENVCANARY"', '@ABS@', '"file://canary.zy"', '"touch made3"', '"$(touch made4)"', 'zvimp', '-1', '"canary.bin"', '(quote canary.zy)', '["touch" "made5"]', '"@canary.zy"', '"|touch made6"', '"<canary.zy"', '"{{canary.zy}}"', '"canary"', 'canary']
SHORT = 8

INNER = {
 'direct': '(F A)', 'alias': '(begin (def zq F) (zq A))', 'let': '(let [zq F] (zq A))', 'evalsym': '(eval (list (str2sym "F") A))', 'apply': '(apply F [A])', 'applylist': '(apply F (list A))',
 'map': '(map F [A])', 'hash': '(begin (def zh (hash f: F)) ((hget zh f:) A))', 'array': '((aget [F] 0) A)', 'infixcall': '(infix [F(A)])', 'quasi': '(eval ^(F ~@(list A)))', 'arg': '((fn [g] (g A)) F)', 'head': '((cond true F nil) A)',
 'macexpand': '(macexpand (F A))', 'expecterror': '(expectError "zz" (F A))', 'set': '(begin (def zs nil) (set zs F) (zs A))', 'redef': '(begin (defn zw [& r] (apply F r)) (zw A))', 'param': '((fn [#l] (force l)) (F A))', 'dot': '(begin (def zo (hash f: F)) (zo.f A))',
 'applyquoted': '(apply (quote F) [A])', 'applystr': '(apply "F" [A])', 'mapquoted': '(map (quote F) [A])', 'callstr': '("F" A)', 'callquoted': '((quote F) A)', 'builtindot': '(. F A)', 'str2sym': '(apply (str2sym "F") (list A))', 'recur': '(defn F [& r] (F A))'}
OUTER = {
 'none': '@', 'fnbody': '((fn [] @))', 'eval': '(eval (quote @))', 'evalread': '(eval (read "\\@"))', 'macro': '(begin (defmac zm [] ^@) (zm))', 'lazy': '((fn [#x] (force x)) @)', 'package': '(begin (def zp (package "zp" { Zr := @ })) zp.Zr)', 'defn': '(begin (defn zf [] @) (zf))',
 'loop': '(for [(def zi 0) (< zi 1) (def zi (+ zi 1))] @)', 'infix': '{zr = @}', 'var': '(begin (var zv (interface)) (set zv @))', 'timeit': '(timeit (fn [] @))', 'mapfn': '(map (fn [x] @) [1])', 'source': '(begin @ @)', 'thread': '(let [zc (makeChan)] (list zc @))'}

def program(o, i, name, args):
    e = INNER[i].replace('F', '\0')
    e = e.replace(' A)', ' ' + args + ')').replace('(A)', '(' + args + ')').replace('[A]', '[' + args + ']') if args else e.replace(' A)', ')').replace('(A)', '()').replace('[A]', '[]')
    e = e.replace('\0', name)
    t = OUTER[o]
    if o == 'evalread':
        return t.replace('\\@', e.replace('\\', '\\\\').replace('"', '\\"'))
    return t.replace('@', e)

def candidates():
    """words that may be names: every string literal of the package that could be one, the names of the
    tables, and Go's and the shell's; whether it is one is for the interpreter to say"""
    out = set()
    for f in glob.glob(os.path.join(C.REPO, 'zygo', '*.go')) + glob.glob(os.path.join(C.REPO, 'cmd', 'zygo', '*.go')):
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"|`([^`]*)`', open(f, errors='replace').read()):
            for w in re.split(r'[\s()\[\]{}~^,;]+', m.group(1) if m.group(1) is not None else m.group(2)):
                if 0 < len(w) <= 24 and not re.search(r'[\\"`\x00-\x20%]', w): out.add(w)
    out |= set('open read write readfile writefile slurp spit load require use exec shell popen run spawn os env getenv setenv environ exit quit abort halt chdir cd pwd ls readline input file include import source sys system slurpf writef owritef save bsave bload greenpack req togo fromgo dump _closdump rmsym typelist stop _method methodls registerDemoFunctions'.split())
    return sorted(out)

class World:
    """a scratch directory of canaries owned by the unprivileged user"""
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='zvcanary', dir='/tmp'); self.k = itertools.count(1)
        os.chmod(self.d, 0o755)
    def new(self):
        n = next(self.k)
        d = os.path.join(self.d, 'w%d' % n); os.mkdir(d)
        open(d + '/canary.zy', 'w').write('(def Zcontent "%s")\n(package "zvimp" { Zed := "%s" })\n' % (SECRET['F'], SECRET['F']))
        open(d + '/canary', 'w').write('"%s"\n' % SECRET['F'])
        open(d + '/zvimp', 'w').write('(package "zvimp" { Zed := "%s" })\n' % SECRET['F'])
        open(d + '/canary.bin', 'wb').write(b'\x81\xa1a\xa9' + SECRET['F'].encode())
        for f in os.listdir(d): os.chmod(os.path.join(d, f), 0o666)
        os.chmod(d, 0o777)
        t = os.path.join(self.d, 't%d' % n); os.mkdir(t); os.chmod(t, 0o777)
        return d, t
    def close(self): shutil.rmtree(self.d, ignore_errors=True)

def run(rep):
    rng = random.Random(C.SEED)
    thorough = C.TIER == 'thorough'
    consts = 'SPECIFICATION Spec\nINVARIANT Contract\nCONSTANT Fault = "%s"\n'
    r0 = C.tlc('Sandbox', consts % 'none', heap='2g')
    if r0.violated: raise C.CheckError('the model breaks the contract\n' + r0.out[-2000:])
    for f in ('table', 'setup', 'form', 'dispatch'):
        if not C.tlc('Sandbox', consts % f, heap='2g').violated: raise C.CheckError('the faulty variant %s keeps the contract' % f)
    r1 = C.tlc('SandboxGen', 'SPECIFICATION Spec\nINVARIANT Show\nCONSTANTS\n NShapes = %d\n MaxArgs = 2\n MaxNested = 1\n' % len(SHAPES), heap='3g')
    progs = [(o, i, tuple(int(x) for x in a.replace(' ', '').split(',') if x)) for o, i, a in re.findall(r'<<"PROG", "(\w+)", "(\w+)", <<([\d, ]*)>>>>', r1.out)]
    if len(progs) != r1.distinct: raise C.CheckError('lost programs: %d of %d' % (len(progs), r1.distinct))
    zygo = C.build_zygo()
    drv = C.build_driver()
    W = World()
    for f, m in ((drv, 'zvdriver'), (zygo, 'zygo')):
        shutil.copy(f, os.path.join(W.d, m)); os.chmod(os.path.join(W.d, m), 0o755)
    try:
        explore(rep, rng, thorough, os.path.join(W.d, 'zvdriver'), os.path.join(W.d, 'zygo'), W, progs, r0.distinct + r1.distinct)
    finally:
        W.close()

def run_batch(drv, W, cases, tmo=20000):
    """every case in a directory of its own: results in order"""
    import threading, queue
    res = [None] * len(cases); q = queue.Queue(); errs = []
    for k in range(len(cases)): q.put(k)
    def one(k, d, t):
        c = json.loads(json.dumps(cases[k]).replace('@ABS@', '\\"%s/canary.zy\\"' % d))
        cf, of = os.path.join(t, 'c.ndjson'), os.path.join(t, 'o.ndjson')
        open(cf, 'w').write(json.dumps(c) + '\n'); open(of, 'w').close(); os.chmod(cf, 0o644); os.chmod(of, 0o666)
        p = subprocess.run([drv, cf, of, str(tmo)], env={'PATH': '/usr/bin:/bin', 'HOME': d, 'TMPDIR': t, 'ZV_TMP': t, 'ZVENVCANARY': SECRET['E'], 'GOMAXPROCS': '2', 'LANG': 'C.UTF-8'},
                           cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, user=65534, group=65534, extra_groups=[], preexec_fn=C._limit)
        txt = open(of).read()
        if p.returncode == 0 and txt.endswith('\n'):
            r = json.loads(txt)
            if 'drivererr' in r: raise C.CheckError('driver: ' + r['drivererr'])
            return r
        return {'timeout': True} if p.returncode == 97 else {'crash': p.returncode, 'stderr': p.stderr.decode('utf8', 'replace')[-3000:]}
    def worker():
        while not errs:
            try: k = q.get_nowait()
            except queue.Empty: return
            try:
                d, t = W.new()
                res[k] = one(k, d, t)
                shutil.rmtree(d, ignore_errors=True); shutil.rmtree(t, ignore_errors=True)
            except Exception as ex: errs.append(ex)
    ths = [threading.Thread(target=worker) for _ in range(C.NCPU)]
    for t in ths: t.start()
    for t in ths: t.join()
    if errs: raise errs[0]
    return res

def crashed(r):
    """the Go runtime gave up (no exit that the script asked for): another property's matter"""
    return 'crash' in r and (r['crash'] < 0 or re.search(r'goroutine \d+ \[|fatal error|^panic:', r.get('stderr', ''), re.M) is not None)

def explore(rep, rng, thorough, drv, zygo, W, progs, nstates):
    cand = candidates()
    bound = {}
    # which words are names
    for mode in ('bare', 'std'):
        cs = [{'op': 'sandbox', 'mode': mode, 'texts': True, 'progs': ['(%s)' % w for w in cand[k:k + 60]]} for k in range(0, len(cand), 60)]
        known = set()
        for c, r, k in zip(cs, run_batch(drv, W, cs), range(0, len(cand), 60)):
            if 'runs' not in r:
                known |= set(cand[k:k + 60])   # one of them ends the process: all count as names
            else:
                known |= {w for w, t in zip(cand[k:k + 60], r['texts']) if not re.search(r'symbol `?%s`? not found|not found|Error on line|%s.*unbound' % (re.escape(w), re.escape(w)), t)}
        bound[mode] = sorted(known)
    direct = [p for p in progs if p[0] == 'none' and p[1] == 'direct']
    routed = [p for p in progs if not (p[0] == 'none' and p[1] == 'direct')]
    cases = []
    def add(mode, ps, api=''):
        for k in range(0, len(ps), 150):
            cases.append({'op': 'sandbox', 'mode': mode, 'api': api, 'progs': ps[k:k + 150]})
    A = lambda a: ' '.join(SHAPES[x - 1] for x in a)
    # every word with few arguments
    for mode in ('bare', 'std'):
        add(mode, [program('none', 'direct', w, A(a)) for w in cand if w not in bound[mode] for a in ((1,), (2,), (3,), (1, 2))])
    outside = ['include', 'source', 'import', 'sys', 'system', 'slurpf', 'writef', 'save', 'bload', 'bsave', 'greenpack', 'owritef', 'exit', 'getenv', 'setenv', 'req', 'rmsym', 'dump', 'togo', '_method', '_closdump']
    for mode, api, share in (('std', '', 1.0), ('bare', 'loadrun', .3), ('demo', 'exprs', .15), ('dup', '', .1), ('clone', 'loadrun', .1)):
        b = bound['bare'] if mode == 'bare' else bound['std']
        ds = [program('none', 'direct', w, A(a)) for w in b for a in direct if a[2] == () or len(a[2]) == 1 or rng.random() < (share if thorough else share * .2) for a in [a[2]]]
        # triples
        ds += [program('none', 'direct', w, A([rng.randint(1, len(SHAPES)) for _ in range(3)])) for w in b for _ in range(60 if thorough else 6)]
        rs = []
        for w in outside + b:
            sel = routed if w in outside and share == 1.0 and thorough else rng.sample(routed, int((500 if w in outside else 50) * (3 if thorough else 1) * share))
            rs += [program(o, i, w, A(a)) for o, i, a in sel]
        ps = ds + rs
        rng.shuffle(ps)
        add(mode, ps, api)
    res = run_batch(drv, W, cases)
    bad, rows, nprog, unbound, ends = [], [], 0, 0, 0
    solo = []
    for c, r in zip(cases, res):
        if 'runs' in r:
            rows.append({'world': r['world'], 'runs': r['runs']}); solo.append(c); nprog += len(r['runs']); unbound += len(r['unbound'])
        else:
            bad += [(c, k) for k in range(len(c['progs']))]; ends += 1
    # the command line tool
    lines = []
    for w in outside + bound['std']:
        lines += ['(%s %s)' % (w, A(a)) for a in ((1,), (2,), (3,), (4,), ())] + [w + ' "canary.zy"', w + '("canary.zy")', '%s = %s' % ('zz', w)]
    lines += ['.cd /', '.ls', '.dump', '.gls', '.verb', '.debug', '.undebug', '.quit', '.dump car', '& canary', '* canary', '.cd', '.exit', ':q', 'quit', 'exit', '!touch made', '.sh touch made', '.load canary.zy', '.source canary.zy']
    cmdcases = []
    chunk = [lines[k:k + 40] for k in range(0, len(lines), 40)]
    for ch in chunk:
        cmdcases.append({'op': 'sandboxcmd', 'zygo': zygo, 'args': ['-sandbox', '-quiet', '-no-liner'], 'stdin': ''.join('%s\n(println "zvalive%d")\n' % (l, n) for n, l in enumerate(ch)), 'lines': len(ch)})
        cmdcases.append(dict(cmdcases[-1], args=['-sandbox', '-demo', '-quiet', '-no-liner'])) if len(cmdcases) % 8 == 0 or ch is chunk[-1] else None
    for l in rng.sample(lines, 120 if thorough else 40):
        cmdcases.append({'op': 'sandboxcmd', 'zygo': zygo, 'args': ['-sandbox', '-c', l]})
        cmdcases.append({'op': 'sandboxcmd', 'zygo': zygo, 'args': ['-sandbox', '-demo', '-quiet', '-no-liner'], 'stdin': l + '\n'})
    for w in outside:
        for a in ('"canary.zy"', '"made.txt"', '"echo zvs3\\"cr\\"3tC"', '"ZVENVCANARY"', '3'):
            cmdcases.append({'op': 'sandboxcmd', 'zygo': zygo, 'args': ['-sandbox', '-c', '(str (%s %s))' % (w, a)]})
    cres = run_batch(drv, W, cmdcases, 60000)
    ncmd = 0
    for c, r in zip(cmdcases, cres):
        if 'runs' not in r:
            raise C.CheckError('command case did not run: %s %s' % (json.dumps(c)[:300], r))
        rows.append({'world': r['world'], 'runs': r['runs']}); solo.append(c); ncmd += 1
        if 'lines' in c and not re.search(r'goroutine \d+ \[|^panic:|fatal error', r['out'], re.M):
            alive = {int(x) for x in re.findall(r'zvalive(\d+)', r['out'])}
            gone = [n for n in range(c['lines']) if n not in alive]
            if gone and max(alive, default=-1) < c['lines'] - 1:
                n = max(alive, default=-1) + 1
                l = c['stdin'].split('\n')[2 * n]
                q = run_batch(drv, W, [{'op': 'sandboxcmd', 'zygo': zygo, 'args': c['args'], 'stdin': l + '\n(println "zvalive")\n(println "zvalive")\n'}], 60000)[0]
                if 'zvalive' not in q['out'] and not re.search(r'goroutine \d+ \[|^panic:|fatal error', q['out'], re.M) and closed(l):
                    rep.violation('repl:' + l, 'the line %r ends the sandboxed tool' % l, {'case': c, 'line': l, 'out': q['out'][-600:]})
    # TLC validates every recorded world
    rv = C.tlc('SandboxTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': C.write_ndjson('sandbox.ndjson', rows)}, heap='8g')
    for a, b in re.findall(r'<<"BAD", (\d+), (\d+)>>', rv.out):
        bad.append((solo[int(a) - 1], int(b) - 1))
    # each alone, in a new process and directory
    want = []
    for c, k in bad:
        want.append((c, k))
    def alone(c, k):
        return dict(c, progs=[c['progs'][k]]) if c['op'] == 'sandbox' else c
    seen = set(); confirmed = 0
    step = max(1, len(want) // 400)
    todo = [w for w in want[::step] if not (json.dumps(alone(*w)) in seen or seen.add(json.dumps(alone(*w))))][:600]
    again = run_batch(drv, W, [alone(c, k) for c, k in todo])
    rows2, idx = [], []
    for (c, k), r in zip(todo, again):
        what = c['progs'][k] if c['op'] == 'sandbox' else json.dumps([c['args'], c.get('stdin', '')[:200]])
        if 'runs' in r:
            rows2.append({'world': r['world'], 'runs': r['runs']}); idx.append((c, k, what, r))
        elif 'crash' in r and not crashed(r):
            rep.violation('%s:%s' % (c.get('mode'), what), 'ends the host process with status %s' % r['crash'], {'case': alone(c, k), 'result': r})
    if rows2:
        rv2 = C.tlc('SandboxTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': C.write_ndjson('sandbox2.ndjson', rows2)}, heap='4g')
        for a, b in re.findall(r'<<"BAD", (\d+), (\d+)>>', rv2.out):
            c, k, what, r = idx[int(a) - 1]
            rep.violation('%s:%s' % (c.get('mode', 'cmd'), what), 'the world was %s; after: %s; said: %s' % (r['world'], r['runs'][0]['after'], r['runs'][0]['said']), {'case': alone(c, k), 'result': r})
    rep.cov.update(model_states=nstates, words=len(cand), names_bare=len(bound['bare']), names_std=len(bound['std']), programs=nprog, unbound_programs=unbound, command_runs=ncmd, repl_lines=len(lines), trace_states=rv.distinct, processes_ended=ends,
                   ways=len(progs), rule='words = every string literal of the package that could be a name; each called directly with argument tuples to length 2 (all for words that are names in the standard setup, in the thorough tier) and by sampled routes; world = inotify events in the canary directory, environment, working directory, child processes, secrets in any text')
    for m in ('bare', 'std'): rep.sample({'config': m, 'names': bound[m][:200]})
    for c in rng.sample(solo, 3): rep.sample({'case': {k: (v[:4] if k == 'progs' else v) for k, v in c.items() if k != 'zygo'}})
    rep.assumptions += ['reads of files outside the canary directory are seen only if their content is a secret', 'names that no string literal of the package holds are not tried']

def closed(l):
    """a line that leaves nothing open"""
    return l.count('(') == l.count(')') and l.count('"') % 2 == 0
