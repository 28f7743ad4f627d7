"""C04: an evaluation that succeeds leaves nothing behind.  RestGen.tla enumerates paths of
nested contexts with a leaf that has a value; each is run on the real code
 - one form at a time, all stacks measured after each form (they must be at rest);
 - all forms in one text: same last value, same effects, same interpreter afterwards;
 - again and again: stacks, tables and heap must not grow.
Core.tla gives the meaning of random programs (value, effects), stacks measured after every form."""
import random, re, json, os
import common as C, core, c05
from c05 import CTX, norm, outcome
LEVEL = 'model_checking'
# leaf -> (definitions, expression)
LEAF = {
 'int': ('', '41'), 'str': ('', '"s"'), 'nil': ('', 'nil'), 'array': ('', '[1 [2 "x"]]'), 'hash': ('', '(hash a: 1 "b" [2])'), 'list': ('', '(list 1 (list 2))'), 'closure': ('', '(let [c 3] (fn [x] (+ c x)))'),
 'recursion': ('(defn fac [n] (cond (< n 2) 1 (* n (fac (- n 1)))))', '(fac 12)'), 'tail': ('(defn cnt [n a] (cond (== n 0) a (let [m (- n 1)] (cnt m (+ a 1)))))', '(cnt 40 0)'),
 'looplit': ('', '(for [(def i 0) (< i 3) (set i (+ i 1))] 7 "x" [i])'), 'loopbreak': ('', '(for [(def i 0) (< i 9) (set i (+ i 1))] (let [z i] (cond (== z 2) (break) (list z))))'),
 'loopcont': ('', '(for [(def i 0) (< i 4) (set i (+ i 1))] 1 2 (newScope (let [z i] (cond (== z 2) (continue) (tr z)))) 3)'),
 'looplabel': ('', '(for o: [(def i 0) (< i 3) (set i (+ i 1))] (let [w i] (for n: [(def j 0) (< j 3) (set j (+ j 1))] (let [v j] (cond (== v 1) (continue o:) (== w 2) (break o:) (tr w v))))))'),
 'loopdeep': ('', '(let [a 1] (for x: [(def i 0) (< i 2) (set i (+ i 1))] (newScope (def b i) (for y: [(def j 0) true (set j (+ j 1))] (letseq [c j] (for z: [(def k 0) true (set k (+ k 1))] (let [d k] (cond (> d 1) (continue y:) (> c 1) (break y:) (tr b c d)))))))) a)'),
 'loopcond': ('', '(cond (for [(def i 0) (< i 2) (set i (+ i 1))] i) 1 (for [(def i 0) (< i 2) (set i (+ i 1))] (break)))'),
 'letret': ('(func lr [a:int64] [r:int64] (let [x a] (newScope (letseq [y x] (return (+ y 1))))))', '(lr 4)'), 'func': ('(func ff [a:int64] [r:int64] (return (+ a 1)) 9)', '(ff a: 3)'),
 'funcloop': ('(func fl [a:int64] [r:int64] (for [(def i 0) (< i 9) (set i (+ i 1))] (let [z i] (for q: [(def j 0) (< j 4) (set j (+ j 1))] (cond (== z a) (return z) 0)))))', '(fl 2)'),
 'funcanon': ('', '((func [a:int64] [r:int64] (return (* a 2))) 4)'),
 'lazy': ('(defn lz [#a #b] (list (force #a) (force #a)))', '(lz (tr (+ 1 2)) (boom))'), 'lazyunused': ('(defn lu [#a b] b)', '(lu (boom) (tr 2))'), 'lazyvar': ('(defn lv [x & y] (force x) (list x (len y)))', '(lv (tr 1) (tr 2) 3)'),
 'eval': ('', '(eval (quote (+ 1 (tr 2))))'), 'evallet': ('', '(let [x 3] (eval (quote (let [y x] (for [(def i 0) (< i 3) (set i (+ i 1))] (cond (== i 1) (break) y)) (list x y)))))'),
 'map': ('', '(map (fn [x] (let [y x] (tr y))) [1 2 3])'), 'mapclos': ('', '(map (fn [f] (f 2)) (map (fn [x] (fn [y] (+ x y))) [1 2 3]))'), 'apply': ('', '(apply (fn [a & b] (list a b)) [1 2 3])'),
 'host': ('', '(cb (fn [x] (tr x)) 4)'), 'hostnest': ('', '(cb (fn [x] (cb (fn [y] (for [(def i 0) (< i 2) (set i (+ i 1))] (let [q i] (cb tr q)))) x)) 4)'),
 'macro': ('(defmac mm [x] ^(let [g ~x] (list g g)))', '(mm (tr 3))'), 'macroloop': ('(defmac ml [n & b] ^(for [(def i 0) (< i ~n) (set i (+ i 1))] ~@b))', '(ml 3 (tr "b") (cond (== i 1) (break) 5))'), 'macexp': ('(defmac mm [x] ^(let [g ~x] (list g g)))', '(macexpand (mm (tr 3)))'),
 'infix': ('', '{1 + 2 * 3 ** 2}'), 'infixfor': ('', '{for i := 0; i < 3; i++ { if i == 2 { break } ; (tr i) }}'), 'infixrange': ('', '{for k, v := range (hash a: 1 b: 2) { (tr v) ; for j := range [1 2] { if j == 1 { continue } ; (tr j) } }}'),
 'infixif': ('', '{if 1 > 2 { 3 } else { (let [z 4] z) }}'), 'infixswitch': ('', '{ta := 1; tb := [ta 2]; tb[0] = 9; tb}'),
 'pkg': ('', '(package "pq" { A := 3; b := (let [z 4] z); for i := 0; i < 3; i++ { 7 } })'), 'pkgcall': ('(def pw (package "pw" { s := 5; Fun := (fn [x] (let [y s] (+ x y))) }))', '(pw.Fun 3)'), 'pkgnest': ('', '(package "po" { I := (package "pi" { Z := 4; "lit" }) ; 5 6 })'),
 'struct': ('', '(Car name: "n" id: 3)'), 'structset': ('(def cc (Car name: "n" id: 3))', '{cc.id = 8}'), 'declare': ('', '(struct Bike [(field name: string e:0)])'), 'defn': ('', '(defn dn [x & y] (let [z x] z))'), 'defmac': ('', '(defmac dm [x] ^(list ~x ~x))'),
 'mdef': ('', '(mdef ma mb (list 1 2))'), 'mdefarr': ('', '(mdef mc md me (list 1 2 3))'), 'newscope': ('', '(newScope (def q 1) (newScope (set q 2) (newScope q)))'), 'tmpl': ('', '^(a (b ~(+ 1 2)) [c ~(let [z 1] z)])'), 'splice': ('', '^(a ~@(list 1 2) [~@(list 3 4)])'),
 'json': ('', '(unjson (json (hash a: 1 b: [1 2 "x"])))'), 'read': ('', '(read "(+ 1 [2 {3 + 4}])")'), 'gensym': ('', '(begin (gensym) 1)'), 'expecterr': ('', '(expectError "Error calling \'+\': operands have invalid type" (let [z 1] (for [(def i 0) (< i 2) (set i (+ i 1))] (+ 1 "a"))))'), 'assertok': ('', '(assert (== 1 1))'),
 'range': ('', '(range k v (hash a: 1 b: 2) (tr v))'), 'rangebrk': ('', '(range k v (hash a: 1 b: 2) (let [z v] (cond (== z 2) (break) (tr v))))'), 'emptybegin': ('', '(begin)'), 'emptyforms': ('', '(list (begin) (list) [] (hash))'), 'quote': ('', '(quote (a [b] {c}))'), 'strs': ('', '(concat "a" (str [1 2]))'),
 'variadic': ('(defn vv [& r] (len r))', '(list (vv) (vv 1 2 3) (apply vv [1 2]))'), 'dotset': ('(def dh (hash a: (hash b: 1)))', '{dh.a.b = 5}'), 'method': ('(def mh (hash f: 4))', '(list {mh.f} (:f mh))'), 'andor': ('', '(list (and 1 2 (or false 3)) (or false (let [z 0] z)))'),
 'condmany': ('', '(cond false 1 (> 1 2) 2 (let [z true] z) (cond false 3 4) 5)'), 'sort': ('', '(list (slice [1 2 3] 0 2) (rest [1 2]))'), 'println': ('', '(println "p")'), 'comment': ('', '(begin 1 /* c */ 2 // d\n )'), 'methodcall': ('(def mo (hash g: (fn [x] (let [y x] y))))', '((:g mo) 3)'),
 'early': ('(func ea [a:int64] [r:int64] (cond (> a 3) (return 1) 0) (let [z a] (cond (> z 1) (return 2) 0)) 3)', '(list (ea 5) (ea 2) (ea 0))'), 'ptr': ('(def pc (Car id: 3)) (def pp (& pc))', '(* pp)'), 'hashsplice': ('', '(hset (hash a: 1) b: (let [z 1] z))'), 'aliases': ('(def al (fn [x] (+ x 1))) (def al2 al)', '(map al2 [1 2])'), 'defs': ('', '(begin (def d1 (let [z 1] z)) (set d1 (for [(def i 0) (< i 2) (set i (+ i 1))] i)) d1)'),
}
# contexts whose loops only end because the hole fails
CTX4 = dict(CTX, fortest=('', '(for [(def i@ 0) (begin M HOLE (< i@ 2)) (set i@ (+ i@ 1))] X)'), forinit=('', '(for [(begin M HOLE (def i@ 0)) (< i@ 2) (set i@ (+ i@ 1))] X)'),
            forincr=('', '(for [(def i@ 0) (< i@ 3) (begin (set i@ (+ i@ 1)) HOLE)] M (cond (== i@ 1) X 0))'), splice=('', '^(a ~§(list (begin M HOLE) X) [c])'), operator=('', '((begin M HOLE (fn [x] x)) X)'), struct=('', '(Car id: (begin M HOLE 3) name: "q")'), assert_=0)
CTX4['assert'] = ('', '(assert (begin M HOLE true))'); del CTX4['assert_']
PRE = c05.PRE
BATTERY = ['log', 'gl', '(add 1 2)', '(break)', '(let [a 1] (for o: [(def i 0) (< i 2) (set i (+ i 1))] (for [(def j 0) (< j 2) (set j (+ j 1))] (tr i j))))', '((fn [x] (+ x gl)) 1)', 'zznotthere', '^(a ~gl)', '{x9 := 3}', '(+ 1 2)']
APIS = ['', 'loadrun', 'evalexprs', 'file']

def run(rep):
    thorough = C.TIER == 'thorough'
    rng = random.Random(C.SEED)
    drv = C.build_driver()
    r = C.tlc('RestGen', f'SPECIFICATION RSpec\nCONSTANTS Depth = 2\n Rounds = {3 if thorough else 2}\nINVARIANTS Rest Balanced REmit REmitK\n')
    if r.violated:
        raise C.CheckError('RestGen\n' + r.out[-2000:])
    ps, ks = [], set()
    for m in re.finditer(r'<<\s*"([FK])",\s*(?:(\d+),\s*)?((?:"\w+"(?:,\s*)?)*)\s*>>', r.out):
        if m.group(1) == 'K':
            ks.add(m.group(3).strip('"'))
        else:
            ps.append(re.findall(r'"(\w+)"', m.group(3)))
    if ks != set(LEAF) or {p[0] for p in ps} != set(CTX):
        raise C.CheckError(f'RestGen: {ks ^ set(LEAF)} {set(CTX) ^ {p[0] for p in ps}}')
    ps.sort(); ks = sorted(ks)
    plan = [([], k) for k in ks]
    for p in ps:
        if len(p) == 1:
            plan += [(p, k) for k in ks]
        else:
            plan += [(p, k) for k in rng.sample(ks, 8 if thorough else 1)]
    progs = []
    for p, k in plan:
        defs, t = c05.build(p, k, LEAF, CTX4)
        progs.append((defs, [t], '/'.join(p) + ' ' + k))
    # several forms, as a host would send them
    one = [x for x in progs if ' ' in x[2]]
    for i in range(4000 if thorough else 600):
        d, f = [], []
        for j in range(rng.choice([2, 3, 5])):
            x = rng.choice(one)
            if any(re.match(r'\(\w+ (\S+)', a).group(1) == re.match(r'\(\w+ (\S+)', b).group(1) and a != b for a in x[0] for b in d):
                continue
            d += [a for a in x[0] if a not in d]; f += x[1]
        progs.append((d, f, 'sequence'))
    cases = []
    for n, (d, f, lab) in enumerate(progs):
        api = APIS[n % 4]
        cases.append({'op': 'session', 'forms': PRE + d + f + [''] + BATTERY, 'api': api, 'depths': True, 'budget': 400000})
        cases.append({'op': 'session', 'forms': PRE + d + ['\n'.join(f)] + [''] + BATTERY, 'api': api, 'depths': True, 'budget': 400000})
        if n % 3 == 0 and lab != 'sequence':   # the definitions in the same text as well
            cases.append({'op': 'session', 'forms': PRE + ['\n'.join(d + f)] + [''] + BATTERY, 'api': api, 'depths': True, 'budget': 400000})
            progs[n] = progs[n] + (True,)
    res = C.run_cases(drv, cases)
    st = {'evaluations': 0, 'joined_texts': 0, 'unusable': 0}
    FALSEQ = {'panic', 'err'}
    def judge(c, x, q, sep=None):
        """c: case, sep: (case, result) of the same forms one at a time"""
        if 'results' not in q:
            return f'no answer {str(q)[:200]}'
        rs = q['results']
        for j, y in enumerate(rs):
            if 'err' in y or 'panic' in y:
                continue                     # not an evaluation that succeeds (C05)
            if y['depths'] != q['rest']:
                return f'after {c["forms"][j][:300]!r}: stacks {y["depths"]}, at rest {q["rest"]}'
            if c['forms'][j] == '' and y['val'] != {'k': 'nil'}:
                return f'evaluating the empty text gives {y["print"][:200]}'
        if sep:
            c0, q0 = sep
            a, b = q0['results'], rs
            nb = len(BATTERY) + 1
            a1, b1 = a[len(PRE):len(a) - nb], b[len(PRE):len(b) - nb]
            if any('err' in y or 'panic' in y for y in a1) or not a1:
                return None
            for y in b1:
                if 'err' in y or 'panic' in y:
                    return f'one at a time the forms succeed, in one text: {(y.get("err") or y.get("panic"))[:300]}'
            va, vb = norm(a1[-1].get('print', '')), norm(b1[-1].get('print', ''))
            if va != vb:
                return f'last value one at a time {va[:200]}, in one text {vb[:200]}'
            ta, tb = sum((y['trace'] for y in a1), []), sum((y['trace'] for y in b1), [])
            if ta != tb:
                return f'effects one at a time {str(ta)[:300]}, in one text {str(tb)[:300]}'
            for j in range(nb):
                u, v = outcome(a[len(a) - nb + j]), outcome(b[len(b) - nb + j])
                if u != v:
                    return f'afterwards {([""] + BATTERY)[j]!r} gives {u[:200]} one at a time, {v[:200]} after one text'
        return None
    bad = []
    i = 0
    for x in progs:
        c, q = cases[i], res[i]
        n = 3 if len(x) == 4 else 2
        if 'results' in q and any('err' in y for y in q['results'][len(PRE):len(PRE) + len(x[0]) + len(x[1])]):
            st['unusable'] += 1
        w = judge(c, x, q)
        if w:
            bad.append((c, x, None))
        for k in range(1, n):
            st['joined_texts'] += 1
            if judge(cases[i + k], x, res[i + k], (c, q) if 'results' in q else None):
                bad.append((cases[i + k], x, c))
        st['evaluations'] += sum(len(e['forms']) for e in cases[i:i + n])
        i += n
    for c, x, c0 in C.until(bad, rep, 12):
        q = C.run_cases(drv, [c], nproc=1)[0]
        w = judge(c, x, q, (c0, C.run_cases(drv, [c0], nproc=1)[0]) if c0 else None)
        if w:
            rep.violation(c['forms'][len(PRE):-len(BATTERY) - 1], f'[{x[2]}, entry {c["api"] or "EvalString"}] {w}', {'case': c})
    if os.environ.get('ZV_VERBOSE'):
        import collections
        i = 0; cc = collections.Counter(); 
        for x in progs:
            q = res[i]
            if 'results' in q and any('err' in y for y in q['results'][len(PRE):len(PRE) + len(x[0]) + len(x[1])]):
                for w in x[2].replace('/', ' ').split(): cc[w] += 1
            i += 3 if len(x) == 4 else 2
        print(len(bad), cc.most_common(30))
    if st['unusable'] > 0.3 * len(progs):
        raise C.CheckError(f'{st["unusable"]} of {len(progs)} programs fail')
    # growth
    rounds = 3000 if thorough else 1200
    g = []
    for n, (d, f, lab) in enumerate(x[:3] for x in progs):
        if lab != 'sequence' and (lab.startswith(' ') or lab.count('/') == 0 and rng.random() < (0.5 if thorough else 0.035)):
            if 'gensym' in lab or 'err' in lab:
                continue
            g.append(({'op': 'grow', 'setup': [y for y in PRE if 'mark' not in y and 'log' not in y] + ['(defn mark [x] 1)'] + d, 'forms': f, 'rounds': rounds, 'api': APIS[n % 4]}, lab))
    g.append(({'op': 'grow', 'setup': [], 'forms': ['', '/* c */', '1'], 'rounds': rounds, 'api': ''}, 'empty'))
    def grows(q):
        if 'd0' not in q:
            return f'no answer {str(q)[:200]}'
        if q['err']:
            return None
        if q['d0'] != q['d1']:
            return f'stacks grow: {q["d0"]} -> {q["d1"]}'
        if q['s0'] != q['s1']:
            return 'tables grow: ' + str({k: (q['s0'][k], q['s1'][k]) for k in q['s0'] if q['s0'][k] != q['s1'][k]})
        if q['bytes'] > 8 * rounds:
            return f'the heap grows by {q["bytes"] / rounds:.1f} bytes for each evaluation'
        return None
    gr = C.run_cases(drv, [c for c, _ in g], tmo_ms=60000)
    ng = 0
    for (c, lab), q in zip(g, gr):
        if grows(q):
            q = [C.run_cases(drv, [c], nproc=1, tmo_ms=60000)[0] for _ in range(2)]
            w = [grows(z) for z in q]
            if all(w):
                rep.violation(c['forms'], f'[{lab}, entry {c["api"] or "EvalString"}] {w[1]} ({rounds} evaluations)', {'case': c})
        ng += not q['err'] if isinstance(q, dict) and 'err' in q else 0
    st['growth_programs'] = ng
    # random core programs
    cp = []
    for i in range(5000 if thorough else 500):
        rr = random.Random(C.SEED * 1000211 + i)
        gen = core.Gen(rr, lazy=rr.random() < 0.3, err=0, depth=rr.choice([3, 4, 5]), closures=rr.choice([0.3, 1]))
        cp.append({'forms': gen.program(rr.randint(2, 5))})
    import c02
    cp += [{'forms': f} for f in c02.callshapes() + c02.jumps(thorough, rng)]
    cs, cres = core.validate(rep, drv, cp, extra={'depths': True})
    nb = 0
    for p, q in zip(cp, cres):
        for j, y in enumerate(q.get('results', [])):
            if 'err' not in y and 'panic' not in y and y.get('depths') != q['rest'] and nb < 4:
                c = {'op': 'session', 'forms': [core.text(f) + '\n' for f in p['forms']], 'depths': True, 'budget': 400000}
                a = C.run_cases(drv, [c], nproc=1)[0]
                if 'results' in a and a['results'][j].get('depths') != a['rest']:
                    nb += 1
                    rep.violation(c['forms'][:j + 1], f'after the last form the stacks are {a["results"][j]["depths"]}, at rest {a["rest"]}', {'case': c})
    c02.report(rep, cs, len(cases) + 2 * rounds * len(g), cp)
    rep.cov['states'] += r.distinct; rep.cov['transitions'] += r.generated
    rep.cov.update(contexts=len(CTX), leaves=len(LEAF), paths=len(ps), rounds=2 * rounds, **st)
    rep.cov['traces_validated_against_impl'] += len(progs) - st['unusable']
    rep.assumptions.append('growth is measured on the stacks, the interpreter\'s tables and the Go heap after a collection; a leak below 8 bytes per evaluation is not seen')
