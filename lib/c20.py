"""C20: equal programs are seen to do equal things.
TLC enumerates what happened in a process before a run, and the programs in which
the order of a table, a number given out or an address could show (RunsGen); those,
every builtin over argument shapes, the programs of the other checks and the
repository's scripts run many times on the real interpreter; TLC validates that the
runs of one program are a function of the program (RunsTrace)."""
import random, re, os, json, glob, subprocess, shutil, hashlib, threading, queue
import common as C, core
LEVEL = 'model_checking'
REPO = C.REPO

# ---- programs of the specification
NAMES = ['alpha', 'b', 'Cee', 'dd', 'e5', 'foxtrot', 'G', 'hh', 'id', 'jj', 'Kilo', 'l', 'mike', 'nn', 'Oscar', 'p2', 'qq', 'romeo', 's7', 'tango'] + ['w%d' % i for i in range(40)]
KEYS = {'plain': NAMES, 'case': [''.join(ch.upper() if m >> i & 1 else ch for i, ch in enumerate(w)) for w in ('alpha', 'b', 'id') for m in range(2 ** min(len(w), 5))] + NAMES[4:], 'prefix': ['a' * (1 + i) for i in range(12)] + ['a%s' % ('b' * i) for i in range(1, 12)] + NAMES[4:],
        'numeric': ['k%d' % i for i in (1, 10, 2, 20, 100, 11, 9, 99, 3, 30)] + ['k0%d' % i for i in (1, 2, 10, 9)] + NAMES[4:], 'sigil': ['a', '$a', '$b', 'b', '#a', '?a', '$alpha', 'alpha', '$$a'] + NAMES[4:], 'latin': ['é', 'e', 'É', 'ê', 'ß', 'ss', 'ﬀ', 'ff', 'Ω', 'ω'] + NAMES[4:]}
def pairs_of(names, n, q='%s:', v=None):
    return ' '.join((q % names[i]) + ' ' + (v(i) if v else ['%d' % i, '"s%d"' % i, '%d.5' % i, '[%d "x"]' % i, 'nil'][i % 5]) for i in range(n))
GOF = [('i64', '3'), ('s', '"text"'), ('f64', '2.5'), ('b', 'true'), ('ss', '["p" "q"]'), ('is', '[4 5]'), ('i', '9'), ('p', '(zvpoint x: 1 y: 2.5)'), ('pp', '(zvpoint x: 3)'), ('sh', '(zvcircle r: 1.5 name: "c")'), ('shs', '[(zvsquare side: 2) (zvcircle r: 2.5)]'),
       ('mss', '(hash "k" "v" "a" "b" "z" "y")'), ('msf', '(hash "q" 1.5 "a" 2.5 "m" 3.5)'), ('mif', '(hash 5 1.5 2 2.5 9 4.5)'), ('msh', '(hash "z" (zvcircle r: 1.5) "b" (zvsquare side: 3) "k" (zvcircle r: 2.5))'), ('ps', '[(zvpoint x: 1) (zvpoint y: 2.5)]'), ('pps', '[(zvpoint x: 7)]'), ('next', '(zvall i64: 4)'), ('node', '(zvnode val: 1 left: (zvnode val: 2))'), ('serial', '44'), ('depth', '5'), ('Label', '"lab"')]
TYPES = ['int64', 'string', 'float64', 'bool', '([]string)', '([]int64)', 'hash', 'time.Time']
def container(c, n, kind='plain'):
    P = []; names = KEYS[kind]
    def pairs(n, q='%s:', v=None): return pairs_of(names, n, q, v)
    if c == 'hash': x = '(hash %s)' % pairs(n)
    elif c == 'hashstr': x = '(hash %s)' % pairs(n, '"%s"')
    elif c == 'hashint': x = '(hash %s)' % ' '.join('%d "v%d"' % (i * 7 % 41, i) for i in range(n))
    elif c == 'hashmix': x = '(hash %s)' % ' '.join('%s %d' % (["'%s'" % names[i][0], '"%s"' % names[i], names[i] + ':', '%d' % i][i % 4], i) for i in range(n))
    elif c == 'record': P = ['(defmap rr)']; x = '(rr %s)' % pairs(n)
    elif c == 'struct': P = ['(struct Rs [%s])' % ' '.join('(field %s: %s e:%d)' % (names[i], TYPES[i % 8], i) for i in range(n))]; x = '(Rs %s)' % pairs(min(n, 3), v=lambda i: ['1', '"s"', '2.5'][i])
    elif c == 'gorec': x = '(zvall %s)' % ' '.join('%s: %s' % GOF[i] for i in range(min(n, len(GOF))))
    elif c == 'gobad': x = '(zvall %s)' % ' '.join('%s: %d' % (names[i], i) for i in range(n))
    elif c == 'gonest': x = '(zvall next: (zvall %s) p: (zvpoint %s))' % (' '.join('%s: %s' % GOF[i] for i in range(min(n, len(GOF)))), 'x: 4' if n < 3 else 'x: "bad" y: "worse"')
    elif c == 'package': x = '(package "px" { %s })' % '; '.join('%s := %d' % (names[i].capitalize() if i % 3 else names[i], i) for i in range(n))
    elif c == 'pkgalias': x = '(package "px" { %s; F := (fn [q] (+ q 1)); H := (hash %s) })' % ('; '.join('A%s := %s' % (names[i], i if i % 3 else '(list %d)' % i) for i in range(n)), pairs(min(n, 4)))
    elif c in ('json', 'jsonrec'):
        o = {names[i]: [i, 's%d' % i, {'z': 1, 'a': [2, None]}, True][i % 4] for i in range(n)}
        if c == 'jsonrec': o['Atype'] = 'rr'
        P = ['(defmap rr)']; x = '(unjson (raw `%s`))' % json.dumps(o)
    elif c == 'msgpack': x = '(unmsgpack (msgpack (hash %s)))' % pairs(n)
    elif c == 'nested': x = '(hash m: (hash %s) l: [(hash %s) (hash %s)] o: (hash q: (hash %s)))' % (pairs(n), pairs(min(n, 3)), pairs(min(n, 9), '"%s"'), pairs(min(n, 5)))
    elif c == 'scope': x = '(let [%s] (fn [] (list alpha)))' % pairs(n, '%s')
    elif c == 'array': x = '[%s]' % ' '.join(pairs(n, '"%s"').split())
    elif c == 'syms': x = '(quote (%s))' % ' '.join('new%s' % names[i] for i in range(n))
    elif c == 'types': P = ['(struct Ra [(field x: int64)])', '(struct Rb [(field y: Ra)])']; x = '[%s]' % ' '.join(['int64', 'string', 'Ra', 'Rb', '([]string)', '(* Ra)', 'hash', '([]Ra)'][i % 8] for i in range(n))
    elif c == 'fromgo': x = '(aget (_method (zvall %s) Me:) 0)' % ' '.join('%s: %s' % GOF[i] for i in range(min(n, len(GOF))))
    else: raise C.CheckError('container ' + c)
    return P + ['(def x %s)' % x]
OBS = {
 'value': 'x', 'str': '(str x)', 'json': '(raw2str (json x))', 'json2': '(json2 x)', 'msgpack': '(msgpack x)', 'unjson': '(unjson (json x))', 'unmsgpack': '(unmsgpack (msgpack x))', 'togo': '(togo x)', 'togo2': '(begin (togo x) (hset x b: 77) (togo x))', 'fromgo': '(fromgo x)', 'keys': '(keys x)',
 'range': '(begin (def acc []) (range k v x (set acc (append acc k) )) acc)', 'for': '(begin (def acc []) (for [(def i 0) (< i (len x)) (set i (+ i 1))] (set acc (append acc (hpair x i)))) acc)', 'infor': '{acc = []; for k, v = range x { acc = (append acc [k v]) }; acc}', 'hpair': '(list (hpair x 0) (hpair x 1))',
 'printf': '(printf "%v %s\\n" x x)', 'sprintf': '(sprintf "%v" x)', 'println': '(println x)', 'field': '(list x.alpha (hget x alpha:))', 'nofield': '(hget x nosuchfield:)', 'wrong': '(begin (hset x alpha: "bad" b: 5 nosuch: 3))', 'call': '(x 1 2)', 'equal': '(list (== x x) (== x (hash)))', 'less': '(< x (hash a: 1))', 'typeq': '(type? x)', 'fieldls': '(fieldls x)', 'methodls': '(methodls x)',
 'method': '(_method x Me:)', 'method2': '(_method x EchoAll: (zvall i64: 4 s: "u"))', 'nomethod': '(_method x Nosuch: 1)', 'del': '(begin (hdel x alpha:) x)', 'map': '(map (fn [e] (list e)) x)', 'apply': '(apply list x)', 'concat': '(concat x x)', 'flatten': '(flatten x)', 'copy': '(let [y x] (hset y zz: 1) (list x y))', 'mac': '(begin (defmac mm [a] (list list (quote (quote ~a)) x)) (macexpand (mm 4)))', 'tmpl': '^(a ~x ~@x)',
 'nest': '(str (hash in: x also: [x]))', 'typelist': '(typelist)', 'symnum': '(list (symnum (quote x)) (symnum (quote alpha)) (symnum (quote brandnew)))', 'gensym': '(list (gensym) (gensym "pre"))', 'undefined': '(list x undefinedthing)', 'err': '(aget x "notanindex")', 'errnest': '(map (fn [q] (+ q x)) [1 2])', 'closure': '(list (fn [a] x) (func ff [a:int64] [r:int64] a))', 'closdump': '(_closdump (let [u 1 v 2 aa 3] (fn [] (list u v aa x))))', 'source': '(source x)', 'asSym': '(str2sym x)', 'sort': '(append x 1)', 'len': '(len x)', 'defined': '(defined? "x")',
 'declare': '(struct Nd [(field a: int64 b: 3) (field c: x)])', 'redeclare': '(begin (struct Nd [(field a: int64)]) (def y (Nd a: 1)) (struct Nd [(field b: string) (field c: string)]) (list y (Nd b: "2")) (Nd q: 1 r: 2))', 'show': '(begin (def pq (package "pq" { Inner := x; Other := [x]; b := 3 })) (list (str pq) pq))'}

# ---- what is done in a process before a run
ACTS = {'plain': {'forms': []}, 'sandbox': {'mode': 'sandbox', 'forms': ['(+ 1 2)']}, 'nostd': {'nostd': True, 'forms': ['(def q 1)']}, 'dup': {'dup': True, 'forms': ['(def q (quote freshname))']}, 'names': {'forms': ['(list %s)' % ' '.join("'%s" % n for n in NAMES[:20]).replace("'", '%')]},
        'structs': {'forms': ['(struct Rs [(field z: string)])', '(struct Zeta [(field z: ([]string))])', '(defmap rr)', '(defmap zed)']}, 'package': {'forms': ['(def px (package "px" { Zz := 1; Alpha := 2 }))', '(str px)']}, 'macro': {'forms': ['(defmac mm [a] ^(+ 1 ~a))', '(mm 3)']}, 'fails': {'forms': ['(undefinedthing 3)', '(/ 1 0)', '(aget [1] 4)']},
        'gensym': {'forms': ['(list (gensym) (gensym) (gensym "u"))']}, 'gotypes': {'forms': ['(togo (zvall i64: 3 sh: (zvcircle r: 1.5)))', '(_method (snoopy cry: "u") GetCry:)', '(methodls (zvall))', '(_method (zvall s: "k") Me:)']}, 'json': {'forms': ['(unjson (raw `{"zz":1,"aa":{"q":[1]}}`))', '(msgpack (hash b: 1 a: 2))']}}

# ---- builtins on arguments of every shape
SHAPES = ['1', '-3', '2.5', 'true', 'nil', '"s"', '"a b"', "'c'", '%sym', '[]', '[1 2]', '["a" 3]', '(list 1 2)', '(cons 1 2)', '(hash)', '(hash a: 1 "b" 2 3 4)', '(raw "bytes")', '(fn [a] a)', 'car', '(zvall i64: 1)', '(zvpoint x: 1 nosuch: 2 other: 3)', 'int64', '([]string)', '(quote (a b))', '(asUint64 7)', '(package "pk" { A := 1; B := 2 })', '(Rx u: 1)', '(regexpCompile "a+")', 'undefinedname', '(hash inner: (hash z: 1 y: 2))', '(fn [#l] l)', '(syntaxQuote (a (unquote (+ 1 2))))']
UNSAFE = {'exit', 'stop', 'system', 'sys', 'owritef', 'writef', 'save', 'bsave', 'greenpack', 'slurpf', 'bload', 'source', 'setenv', 'getenv', 'dump', '&', 'random', 'now', 'read', 'makeArray', 'registerDemoFunctions', 'GOOS', 'derefSet', 'deref', 'echo', 'pretty', 'gob'}
SPECIAL = ['def', 'set', 'let', 'letseq', 'fn', 'defn', 'cond', 'and', 'or', 'quote', 'for', 'begin', 'mdef', 'defmac', 'macexpand', 'assert', 'struct', 'func', 'var', 'package', 'import', 'return', 'break', 'continue', 'infix', 'range', 'defmap', 'expectError', 'newScope', 'eval', '++', '+=', 'regexpCompile', 'regexpFind', 'nosuchfunction', 'syntaxQuote', 'unquote', 'field', 'slice', 'comma', 'interface', 'method', 'msgmap', 'var']

EXEMPT = re.compile(r'random|\bnow\b|timeit|sleep|\(& |&[a-zA-Z]|%p|\bdump\b|Sideeffect|\btime\b|getenv|\bexit\b|chan|system|owritef')

def sess(forms, **kw):
    return dict({'op': 'session', 'forms': forms, 'out': True, 'budget': 300000}, **kw)

def seen(r):
    """what a run showed; None if it came to no end"""
    if 'results' not in r: return None
    o = []
    for x in r['results']:
        o.append({k: x[k] for k in ('val', 'print', 'out', 'err', 'panic', 'printpanic', 'trace') if k in x})
    return json.dumps(o, sort_keys=True)

class Histories:
    """runs programs in processes with a history; records what each run showed"""
    def __init__(self, drv, progs, hists, r):
        self.drv, self.progs, self.hists, self.r = drv, progs, hists, r
        self.runs = [[] for _ in progs]      # (process, position, observation)
        self.procs = []                      # process -> (history, programs in order, with None for an extra interpreter)
        self.lost = 0
    def process(self, order, hist, solo=False):
        cases, at = [], []
        for a in hist: cases.append(sess(**ACTS[a])); at.append(None)
        for k in order:
            if not solo and self.r.random() < 0.03:
                cases.append(sess(**ACTS[self.r.choice(sorted(ACTS))])); at.append(None)
            cases.append(self.progs[k]); at.append(k)
        self.procs.append((list(hist), [k for k in at]))
        return len(self.procs) - 1, cases, at
    def go(self, plan):
        jobs = queue.Queue()
        for order, hist in plan: jobs.put(self.process(order, hist))
        lk = threading.Lock(); errs = []
        def work():
            while True:
                try: n, cases, at = jobs.get_nowait()
                except queue.Empty: return
                try:
                    for o in range(0, len(cases), 400):
                        res = C.run_cases(self.drv, cases[o:o + 400], nproc=1, env={'ZV_GO': '1', 'GOMAXPROCS': str(1 + n % 4)}, max_bad=40)
                        with lk:
                            for i, (k, x) in enumerate(zip(at[o:o + 400], res)):
                                if k is None: continue
                                s = seen(x)
                                if s is None: self.lost += 1
                                else: self.runs[k].append((n, o + i, s))
                except Exception as e:
                    errs.append(e); return
        ts = [threading.Thread(target=work) for _ in range(C.NCPU)]
        for t in ts: t.start()
        for t in ts: t.join()
        if errs: raise errs[0]
    def rows(self):
        h = lambda s: hashlib.sha1(s.encode()).hexdigest()
        return [{'prog': k, 'runs': [{'proc': n, 'pos': p, 'obs': h(s)} for n, p, s in rs]} for k, rs in enumerate(self.runs)]

def validate(rows):
    f = C.write_ndjson('runs.ndjson', rows)
    t = C.tlc('RunsTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': f}, heap='6g', workers=C.NCPU)
    return t, sorted({(int(m[1]) - 1, int(m[2]) - 1) for m in re.finditer(r'<<"BAD", (\d+), (\d+)>>', t.out)})

def diff(a, b):
    for i, (x, y) in enumerate(zip(json.loads(a), json.loads(b))):
        for k in sorted(set(x) | set(y)):
            if x.get(k) != y.get(k):
                u, v = (json.dumps(z.get(k)) for z in (x, y))
                p = next((j for j in range(min(len(u), len(v))) if u[j] != v[j]), min(len(u), len(v)))
                return 'form %d, %s: …%s… once, …%s… another time' % (i + 1, k, u[max(0, p - 60):p + 90], v[max(0, p - 60):p + 90])
    return ''

def scripts(rep, zy, r, times):
    """the repository's scripts, in processes of the real program"""
    w = os.path.join(C.work(), 'scripts'); shutil.copytree(os.path.join(REPO, 'tests'), os.path.join(w, 'tests')); os.chmod(C.work(), 0o755)
    for d, _, fs in os.walk(w):
        os.chmod(d, 0o777)
        for f in fs: os.chmod(os.path.join(d, f), 0o666)
    zz = os.path.join(w, 'zygo'); shutil.copy(zy, zz); os.chmod(zz, 0o755)
    todo = [f for f in sorted(glob.glob(w + '/tests/*.zy')) if not EXEMPT.search(open(f, errors='replace').read())]
    seen, lk = {}, threading.Lock(); q = queue.Queue()
    for t in range(times):
        for f in todo: q.put((f, t))
    def one(f, t):
        e = {'PATH': '/usr/bin:/bin', 'HOME': w, 'GOMAXPROCS': str(1 + t % 3)}
        try:
            p = subprocess.run([zz, '-exitonfail', '-demo', os.path.relpath(f, w)], cwd=w, env=e, stdin=subprocess.DEVNULL, capture_output=True, timeout=20, user=65534, group=65534, extra_groups=[])
        except subprocess.TimeoutExpired: return None
        return (p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1'))
    def work():
        while True:
            try: f, t = q.get_nowait()
            except queue.Empty: return
            o = one(f, t)
            if o is not None:
                with lk: seen.setdefault(f, []).append(o)
    ts = [threading.Thread(target=work) for _ in range(C.NCPU)]
    for t in ts: t.start()
    for t in ts: t.join()
    rows = []
    fs = sorted(seen)
    for k, f in enumerate(fs):
        rows.append({'prog': k, 'runs': [{'proc': i, 'pos': 0, 'obs': hashlib.sha1(repr(o).encode()).hexdigest()} for i, o in enumerate(seen[f])]})
    t, bad = validate(rows)
    for k, i in bad:
        f = fs[k]
        again = [o for o in (one(f, j) for j in range(40)) if o]
        if len(set(again)) > 1:
            a, b = sorted(set(again))[:2]
            p = next((j for j in range(min(len(a[1]), len(b[1]))) if a[1][j] != b[1][j]), 0)
            rep.violation('script ' + os.path.basename(f), 'tests/%s exits %d or %d; its output has …%s… once and …%s… another time' % (os.path.basename(f), a[0], b[0], a[1][max(0, p - 60):p + 90], b[1][max(0, p - 60):p + 90]), {'script': f, 'outputs': [list(x) for x in sorted(set(again))[:2]]})
    return {'scripts': len(fs), 'script_runs': sum(map(len, seen.values()))}

MODEL = 'SPECIFICATION Spec\nCONSTANTS Names = {1, 2}\nOrdered = %s\nOwn = %s\nTextual = %s\nMaxMade = 2\nMaxRuns = 2\nINVARIANT Deterministic\nCONSTRAINT Bound\n'

def run(rep):
    q = C.TIER == 'quick'
    drv = C.build_driver(); zy = C.build_zygo()
    r = random.Random(C.SEED * 7919 + 20)
    states = 0
    for flags in (('TRUE',) * 3, ('FALSE', 'TRUE', 'TRUE'), ('TRUE', 'FALSE', 'TRUE'), ('TRUE', 'TRUE', 'FALSE')):
        m = C.tlc('Runs', MODEL % flags, heap='6g', workers=C.NCPU)
        states += m.distinct
        if bool(m.violated) != ('FALSE' in flags):
            raise C.CheckError('the model of runs is wrong: %s %s' % (flags, m.out[-1500:]))
    g = C.tlc('RunsGen', 'SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANT Emit\n' % (2 if q else 3), heap='6g', workers=C.NCPU)
    hists = sorted(tuple(re.findall(r'"(\w+)"', m[1])) for m in re.finditer(r'<<"H", <<(.*?)>>>>', g.out))
    prods = sorted((m[1], int(m[2]), m[3], m[4]) for m in re.finditer(r'<<"P", <<"(\w+)", (\d+), "(\w+)", "(\w+)">>>>', g.out))
    if {p[2] for p in prods} != set(OBS) or {p[3] for p in prods} != set(KEYS) or {a for h in hists for a in h} != set(ACTS):
        raise C.CheckError('RunsGen and c20.py differ: %s' % ({p[2] for p in prods} ^ set(OBS)))
    progs, what = [], []
    def add(w, c): progs.append(c); what.append(w)
    big = [p for p in prods if p[1] in ((3, 9, 40) if q else (1, 2, 3, 9, 20, 40))]
    for c, n, o, k in (r.sample(big, 3500) if q else r.sample(big, 30000)):
        add((c, n, o, k), sess(container(c, n, k) + [OBS[o]]))
    names = [n for n in C.run_cases(drv, [{'op': 'builtins'}], nproc=1)[0]['names'] if n not in UNSAFE] + SPECIAL
    calls = [(n, ()) for n in names] + [(n, (a,)) for n in names for a in SHAPES] + [(n, (a, b)) for n in names for a in SHAPES for b in SHAPES] + [(n, (a, b, '2')) for n in names for a in SHAPES for b in SHAPES[:8]]
    for n, a in (r.sample(calls, 1500) if q else r.sample(calls, 30000)):
        add(('call', n), sess(['(struct Rx [(field u: int64)])', '(%s %s)' % (n, ' '.join(a))]))
    corpus = [json.loads(l) for l in open(os.path.join(C.VERIF, 'corpus', 'programs.ndjson'))]
    for c in (r.sample(corpus, 600) if q else corpus):
        c = dict(c); add(('corpus',), sess(c.pop('forms'), **c))
    for i in range(300 if q else 4000):
        gr = random.Random(C.SEED * 1000003 + i)
        ge = core.Gen(gr, lazy=gr.random() < .3, err=gr.choice([0, .05]), depth=4)
        add(('core',), sess([core.text(f) for f in ge.program(gr.randint(2, 4))]))
    H = Histories(drv, progs, hists, r)
    times = 8 if q else 24
    plan = []
    for t in range(times):
        order = list(range(len(progs))); r.shuffle(order)
        for o in range(0, len(order), 330):
            plan.append((order[o:o + 330], r.choice(hists)))
    for h in (r.sample(hists, 60) if q else hists):       # and as the first thing after a history
        plan.append((r.sample(range(len(progs)), 12), h))
    H.go(plan)
    t, bad = validate(H.rows())
    for k, i in C.until(bad, rep, tries=60):
        rs = H.runs[k]
        a, b = rs[0], rs[i]
        # run it again: alone in new processes, and after what went before the run that differed
        G = Histories(drv, progs, hists, random.Random(1))
        h, at = H.procs[b[0]]
        G.go([([k] * 12, ()) for _ in range(4)] + [([x for x in at[:b[1]] if x is not None][-60:] + [k] * 4, h) for _ in range(4)] + [([k], x) for x in r.sample(hists, 20)])
        s = sorted({x[2] for x in G.runs[k]})
        if len(s) > 1:
            rep.violation('%s %s' % (what[k], progs[k]['forms'][-1][:200]), diff(s[0], s[1]) + ' -- of the program ' + json.dumps(progs[k]['forms'])[:600], {'program': progs[k], 'seen': s[:2], 'history': h})
    st = scripts(rep, zy, r, 3 if q else 10)
    for k in range(0, len(progs), max(1, len(progs) // 4)): rep.sample({'program': progs[k]['forms'][-1][:200], 'runs': len(H.runs[k])})
    rep.cov.update({'model_states': states, 'histories': len(hists), 'enumerated_programs': len(prods), 'programs': len(progs), 'runs': sum(map(len, H.runs)), 'processes': len(H.procs), 'runs_without_end': H.lost, 'trace_states': t.distinct, **st})
    rep.assumptions += ['random, time, environment and pointer-printing functions are outside the property', 'an order that shows only rarely can be missed in %d runs per program' % times]
