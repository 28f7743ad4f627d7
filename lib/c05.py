"""C05: errors are contained.  (A) FailGen.tla: TLC enumerates where in nested
evaluation contexts a failure happens and which marks precede it; each behaviour is
run, and the interpreter is then compared with a twin that made the same marks and
never failed.  (B) Core.tla with a fault injected at every k-th effect of random
programs: value, error, effects, and the depths of all stacks after every form."""
import random, re, json, os
import common as C, core
LEVEL = 'model_checking'

# context -> (definitions made beforehand, text with HOLE); M1, M2.. are the marks made before
# the hole, X a mark that must never be made, @ the position in the path
CTX = {
 'begin': ('', '(begin M HOLE X)'), 'letrhs': ('', '(let [a@ M b@ HOLE] X)'), 'letbody': ('', '(let [a@ 1 b@ [2]] M HOLE X)'),
 'lsrhs': ('', '(letseq [a@ M b@ HOLE] X)'), 'lsbody': ('', '(letseq [a@ 1 b@ a@] M HOLE X)'), 'scope': ('', '(newScope (def a@ 4) M HOLE X)'),
 'condtest': ('', '(cond (begin M false) X HOLE X X)'), 'condarm': ('', '(cond M HOLE X)'), 'condlast': ('', '(cond (begin M false) X HOLE)'),
 'and': ('', '(and M HOLE X)'), 'or': ('', '(or (begin M false) HOLE X)'), 'arg': ('', '(list 7 M HOLE X)'), 'operator': ('', '((begin M HOLE) X)'),
 'array': ('', '[M HOLE X]'), 'hash': ('', '(hash "a" M "b" HOLE "c" X)'), 'call': ('(defn f@ [x] M HOLE X)', '(f@ 1)'), 'callarg': ('(defn f@ [x y] X)', '(f@ M HOLE)'),
 'rec': ('(defn r@ [n] (cond (> n 0) (+ 1 (r@ (- n 1))) (begin M HOLE X)))', '(r@ 3)'), 'tailrec': ('(defn t@ [n] (cond (> n 0) (t@ (- n 1)) (begin M HOLE X)))', '(t@ 5)'),
 'closure': ('', '((fn [x] M HOLE X) 3)'), 'thunk': ('(defn mk@ [y] (fn [] M HOLE X))', '((mk@ 2))'), 'funcform': ('(func g@ [a:int64] [r:int64] M HOLE X)', '(g@ 1)'),
 'variadic': ('(defn v@ [a & r] X)', '(v@ 1 2 M M HOLE X)'),
 'forbody': ('', '(for [(def i@ 0) (< i@ 3) (set i@ (+ i@ 1))] M (cond (== i@ 1) HOLE 0) (cond (== i@ 1) X 0))'), 'fortest': ('', '(for [(def i@ 0) (begin M HOLE) X] X)'),
 'forinit': ('', '(for [(begin M HOLE) X X] X)'), 'forincr': ('', '(for [(def i@ 0) (< i@ 3) HOLE] M (cond (== i@ 1) X 0))'),
 'fornest': ('', '(for oo@: [(def i@ 0) (< i@ 3) (set i@ (+ i@ 1))] (for ii@: [(def j@ 0) (< j@ 3) (set j@ (+ j@ 1))] M (cond (== i@ 0) (continue oo@:) (== j@ 1) HOLE 0)))'),
 'range': ('', '(range k@ v@ (hash "a" 1 "b" 2) M HOLE X)'),
 'looplet': ('', '(for [(def i@ 0) (< i@ 5) (set i@ (+ i@ 1))] (let [z@ i@] M (cond (== z@ 2) HOLE (continue))))'),
 'deffrom': ('', '(def d@ (begin M HOLE))'), 'setfrom': ('', '(set d@ (begin M HOLE))'), 'mdef': ('', '(mdef m@ n@ (list M HOLE))'),
 'map': ('', '(map (fn [x] M (cond (== x 2) HOLE x)) [1 2 3])'), 'apply': ('', '(apply (fn [x y] M HOLE X) [1 2])'), 'host': ('', '(cb (fn [x] M HOLE X) 4)'),
 'lazy': ('', '((fn [#z] M (force #z) X) HOLE)'), 'lazy2': ('(defn z@ [#p] M (force #p) X)', '((fn [#q] M (z@ (force #q))) HOLE)'),
 'eval': ('', '(eval (quote (begin M HOLE X)))'), 'evalfn': ('(defn e@ [x] (eval (quote (let [y x] M HOLE X))))', '(e@ 1)'),
 'infix': ('(def q@ 0)', '{q@ = (begin M HOLE)}'), 'infixif': ('', '{if M { HOLE } else { X }}'), 'infixfor': ('', '{for i@ := 0; i@ < 3; i@++ { M ; if i@ == 1 { HOLE } }}'),
 'macarg': ('(defmac u@ [x] ^(begin ~x X))', '(u@ (begin M HOLE))'), 'macgen': ('(defmac w@ [x] ^(let [g 1] M ~x X))', '(w@ HOLE)'),
 'template': ('', '^(a (b ~(begin M HOLE)) c)'), 'splice': ('', '^(a ~§(begin M HOLE) [c])'), 'struct': ('', '(Car id: M name: HOLE)'), 'assert': ('', '(assert (begin M HOLE))'),
 'aset': ('(def ar@ [1 2 3])', '(aset ar@ (begin M 0) HOLE)'), 'hset': ('(def ha@ (hash "k" 1))', '(hset ha@ (begin M "z") HOLE)'),
 'dotset': ('(def hd@ (hash a: 1))', '{hd@.a = (begin M HOLE)}'), 'str': ('', '(str (begin M HOLE))'),
 'package': ('', '(package "pk@" { M ; Val@ := HOLE })'), 'macexpd': ('(defmac w@ [x] ^(begin M ~x X))', '(eval (rest (macexpand (w@ HOLE))))'),
 'pkgcall': ('(def pc@ (package "pc@" { secret := 5; Fun := (fn [x] M HOLE X) }))', '(pc@.Fun 3)'), 'ret': ('(func g@ [a:int64] [r:int64] (return (begin M HOLE)))', '(g@ 1)'),
 'idx': ('(def ax@ [1 2 3])', '{ax@[(begin M HOLE)]}'), 'while': ('(def w@ 0)', '(for [(set w@ 0) (< w@ 3) (set w@ (+ w@ 1))] M (cond (== w@ 1) (begin HOLE (break)) 0))'),
}
# kind -> (definitions, failing expression, does it fail before anything runs?)
KIND = {
 'unbound': ('', 'zzundef', 0), 'type': ('', '(+ 1 "a")', 0), 'index': ('', '(aget [1 2] 9)', 0), 'notfn': ('', '(3 4)', 0), 'assert': ('', '(assert false)', 0),
 'arity': ('', '((fn [a b] a) 1)', 0), 'miss': ('', '(hget (hash "a" 1) "b")', 0), 'first': ('', '(first 3)', 0), 'div': ('', '(/ 1 0)', 0),
 'field': ('', '(Car id: "x")', 0), 'nofield': ('', '(Car zz: 3)', 0), 'host': ('', '(boom 1 2)', 0), 'hostpanic': ('', '(boomp 1)', 0), 'panic': ('', '(slice [1 2 3] 2 1)', 0),
 'stop': ('', '(stop "halt")', 0), 'lazyerr': ('(defn lz [#a] (force #a))', '(lz (+ 1 "b"))', 0), 'deep': ('(defn dd [n] (cond (> n 0) (+ 1 (dd (- n 1))) (let [q 1] (zzdeep))))', '(dd 30)', 0),
 'ccond': ('', '(cond)', 1), 'clet': ('', '(let [a] 1)', 1), 'cfn': ('', '(fn [a])', 1), 'cmac': ('(defmac badmac [] (+ 1 "m"))', '(badmac)', 1), 'cmacarity': ('(defmac mq2 [a b] ^(+ ~a ~b))', '(mq2 1)', 1),
 'cinfix': ('', '(begin {1 + })', 1), 'evalparse': ('', '(eval (read "(let"))', 0), 'evalcomp': ('', '(eval (quote (cond)))', 0), 'evalrun': ('', '(eval (quote (let [a 1] (for [(def i 0) (< i 1) (set i 1)] (zzr)))))', 0),
 'unread': ('', '(read "[1 \\"")', 0), 'applynf': ('', '(apply 3 [1])', 0), 'maperr': ('', '(map (fn [x] (for [(def i 0) (< i 2) (set i (+ i 1))] (zzm))) [1 2])', 0),
 'dupdef': ('', '(begin (def dupv 1) (def dupv "s"))', 0), 'badcolon': ('', '(:zz (hash a: 1))', 0), 'structdup': ('', '(struct S9 [(field a: nosuchtype e:0)])', 0),
}
PRE = ['(struct Car [(field name: string e:0) (field id: int64 e:1)])', '(def log ())', '(defn mark [x] (set log (cons x log)) (tr x) 1)', '(def gl 10)', '(defn add [a b] (+ a b gl))']
# everything the language offers, afterwards
BATTERY = ['log', 'gl', '(add 1 2)', '', '(+ 1 2)', '(def v1 5)', 'v1', '(set gl 11)', '(add 1 2)', '(let [a 1 b 2] (list a b gl))', '(def cl (let [n 0] (fn [] (set n (+ n 1)) n)))', '(list (cl) (cl))',
           '(for [(def i 0) (< i 4) (set i (+ i 1))] (cond (== i 1) (continue) (== i 3) (break) (tr "i" i)))', '(break)', '(continue)',
           '(for o: [(def i 0) (< i 3) (set i (+ i 1))] (for [(def j 0) (< j 3) (set j (+ j 1))] (cond (== j 1) (continue o:) (tr "ij" i j))))',
           '(defn fac [n] (cond (< n 2) 1 (* n (fac (- n 1)))))', '(fac 6)', '(defn lp [n a] (cond (== n 0) a (lp (- n 1) (+ a 1))))', '(lp 50 0)', '(map (fn [x] (+ x gl)) [1 2])', '(apply add [1 2])',
           '(defmac tw [x] ^(list ~x ~x))', '(tw (tr "tw" 3))', '{x9 := 3}', '{x9 = x9 * 2 + 1}', '{for k := 0; k < 2; k++ { (tr "k" k) }}', '(def car (Car name: "n" id: 3))', '{car.id = 8}', 'car', '(Car id: "bad")',
           '(func fs [a:int64] [r:int64] (return (+ a 1)))', '(fs 3)', '(eval (quote (+ gl 1)))', '(eval (read "(add 3 4)"))', '(def pz (package "pz" { Big := 3; small := 4; Get := (fn [] small) }))', '(pz.Get)', '{pz.small}',
           '((fn [#l] (list (force #l) (force #l))) (tr "lz" 4))', 'zznotthere', '(let [u 1] (zznotthere u))', '(begin 1 2', '(list 4 5)', '"a" 7', '[1 2 (+ 1 2)]', '(str gl)', 'log', 'a0', 'i0', 'z1', '(cb add 3 4)', '^(a ~gl ~@[1 2])', '(quote (a b))', 'log']

def norm(s):
    s = re.sub(r'stack trace:.*', '', s, flags=re.S)
    s = re.sub(r'0x[0-9a-f]+', '0x', s)
    s = re.sub(r'__(anon|loop_\w*?|gensym)\d+', r'__\1', s)
    return re.sub(r'(__\w*?)\d+', r'\1', s)

def outcome(x):
    if x.get('panic'):
        return 'panic ' + norm(x['panic'])
    o = ['err', norm(x['err'])] if 'err' in x else ['val', norm(json.dumps(x['val'])), norm(x.get('print', ''))]
    return json.dumps([o, x.get('trace')])

def build(path, kind, kinds=KIND, ctxs=CTX):
    """definitions, failing text, marks in order"""
    defs = [kinds[kind][0]] if kinds[kind][0] else []
    t = kinds[kind][1]
    for i in range(len(path) - 1, -1, -1):
        d, b = ctxs[path[i]]
        m = '(mark "%s%d")' % (path[i], i)
        f = lambda s: re.sub(r'\bX\b', '(mark "NEVER")', re.sub(r'\bM\b', lambda _: m, s.replace('@', str(i)).replace('§', '@')))
        d, b = f(d), f(b)
        if 'HOLE' in d:
            defs.append(d.replace('HOLE', t)); t = b
        else:
            if d:
                defs.append(d)
            t = b.replace('HOLE', t)
    return defs, t

def expect(path, counts):
    r = []
    for i, c in enumerate(path):
        r += ['%s%d' % (c, i)] * counts[i]
    return r

def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)

def behaviours(depth):
    r = C.tlc('FailGen', f'SPECIFICATION Spec\nCONSTANT Depth = {depth}\nINVARIANTS Contained Open Emit EmitK\n')
    if r.violated:
        raise C.CheckError('FailGen\n' + r.out[-2000:])
    ps, ks = [], set()
    for m in re.finditer(r'<<\s*"([FK])",\s*(?:(\d+),\s*)?((?:"\w+"(?:,\s*)?)*)\s*>>', r.out):
        if m.group(1) == 'K':
            ks.add(m.group(3).strip('"'))
        else:
            ps.append((int(m.group(2)), re.findall(r'"(\w+)"', m.group(3))))
    if ks != set(KIND) or {p[0] for _, p in ps} != set(CTX):
        raise C.CheckError(f'FailGen: {ks ^ set(KIND)} {set(CTX) ^ {p[0] for _, p in ps}}')
    one = {p[0]: n for n, p in ps if len(p) == 1}
    return r, sorted(ps, key=lambda x: (len(x[1]), x[1])), one, sorted(ks)

UNFINISHED = ['(mark "p") (let [', '(mark "p") "abc', '(mark "p") [1 2', '(mark "p") {a', '(mark "p") `x', '(mark "p") /* c', '(begin (mark "p") (list 1 2)', '(quote', '(def a %', '((((((1', '(hash a: ', "(list 'a", '{ "k": ', '(f (g `raw', '{x = ',
              '(mark "p") )', '(mark "p") ]', '}', '(mark "p") (1 2]', '[1 2)', '(mark "p") 0xzz', '(mark "p") #<', "(list 'ab')", '(a \\ b c)', '0b12', '(mark "p") 99999999999999999999', '1.2.3', '@', '(list a: ) )', '(mark "p") "\\q"',
              '(mark "p") (defmac)', '(mark "p") (defmac 3)', '(mark "p") (defn)', '(mark "p") (defn f)', '(mark "p") (def)', '(mark "p") (def a)', '(mark "p") (set 3 4)', '(mark "p") (fn 3 4)', '(mark "p") (for)', '(mark "p") (for [1 2] 3)', 
              '(mark "p") (package)', '(mark "p") (mdef a)', '(mark "p") (begin (cond))', '(mark "p") (fn [] (let))', '(mark "p") (defn ff [] (for))', '(mark "p") (newScope (cond))', '(mark "p") (syntaxQuote)', '(mark "p") ^(a ~(cond))', '(mark "p") {1 + + 2}', '(mark "p") {if}', '(mark "p") {for}',
              '(mark "p") (let [a 1] (break))', '(mark "p") (continue zz:)', '(mark "p") (for q: [(def i 0) (< i 1) (set i 1)] (break nolabel:))', '(mark "p") (macexpand)', '(mark "p") (assert)', '(mark "p") (include)', '(mark "p") (include "nosuch.zy")', '(mark "p") (source "nosuch.zy")', '(mark "p") (func)', '(mark "p") (func f)', '(mark "p") (struct)', '(mark "p") (struct 3)', '(mark "p") (import)', '(mark "p") (var)', '(mark "p") (expectError)', '(mark "p") (range a)']
# things that hold state of their own; used once while the flag bad is set, and again later.
# (definitions, use, text for the interpreter that never fails: None when the failure must leave no trace but the mark)
CHK = ['(def bad true)', '(defn chk [v] (mark "c") (cond bad (zzfail v) v))']
OKTW = '(begin (set bad false) %s (set bad true))'
RETRY = {
 'promise': ('(def again ((fn [#x] (fn [] (force #x))) (chk 5)))', '(again)', None), 'promise2': ('(def again ((fn [#x] (fn [] ((fn [#y] (force #y)) (force #x)))) (chk 5)))', '(again)', None),

 'promisesrc': ('(def again ((fn [#x] (fn [] (list (substitute #x) (force #x)))) (chk 5)))', '(again)', None), 'promises': ('(def again ((fn [#x #y] (fn [] (+ (force #y) (force #x)))) (chk 5) (+ 1 1)))', '(again)', None),
 'counter': ('(def again (let [n 0] (fn [] (set n (+ n 1)) (list n (chk n)))))', '(again)', OKTW), 'arr': ('(def again (let [a [1 2 3]] (fn [] (aset a 0 (+ 1 (aget a 0))) (aset a 1 (chk 7)) a)))', '(again)', '(begin (mark "c") (def again (let [a [2 2 3]] (fn [] (aset a 0 (+ 1 (aget a 0))) (aset a 1 (chk 7)) a))))'),
 'loop': ('(defn again [] (def t 0) (for [(def i 0) (< i 3) (set i (+ i 1))] (set t (+ t (chk i)))) t)', '(again)', None), 'rec': ('(defn again [] ((fn [n] (chk n)) 4))', '(again)', None),
 'tailrec': ('(defn dn [n] (cond (== n 0) (chk 3) (dn (- n 1))))', '(dn 4)', None), 'map': ('(defn again [] (map chk [1 2]))', '(again)', None), 'mac': ('(defmac again [] ^(list ~(chk 4) 1))', '(again)', None), 'mactail': ('(defmac again [] (chk 4) ^(list 1 2))', '(again)', None),
 'record': ('(def rc (Car name: "n" id: 3))', '{rc.id = (chk 5)}', None), 'hash': ('(def hh (hash a: 1))', '(begin (hset hh b: (chk 2)) hh)', None), 'pkg': ('(def pg (package "pg" { n := 0; Up := (fn [] (set n (+ n 1)) (chk n)) }))', '(pg.Up)', OKTW),
 'defn': ('(defn old [] 1)', '(begin (defn tmpf [] 2) (chk 1) (defn old [] 3) (list (old) (tmpf)))', '(begin (mark "c") (defn tmpf [] 2))'), 'let': ('(def fs [])', '(let [a (list 1)] (set fs (append fs (fn [] a))) (chk 1) (len fs))', '(begin (let [a (list 1)] (set fs (append fs (fn [] a)))) (mark "c"))'),
 'apply': ('(defn again [] (apply chk [1]))', '(again)', None), 'eval': ('(defn again [] (eval (quote (let [q 1] (chk q)))))', '(again)', None), 'host': ('(defn again [] (cb chk 4))', '(again)', None), 'evalself': ('(defn again [n] (cond (== n 0) (chk 9) (eval (list again (- n 1)))))', '(again 2)', None),
 'label': ('(defn again [] (for o: [(def i 0) (< i 2) (set i (+ i 1))] (for q: [(def j 0) (< j 2) (set j (+ j 1))] (cond (== j 1) (continue o:) (chk j)))) 7)', '(again)', None), 'tmpl': ('(defn again [] ^(a ~(chk 2) ~@(list 1)))', '(again)', None), 'infix': ('(def qq 1)', '{qq = qq + (chk 2); qq}', None),
 'struct': ('', '(begin (struct Zed [(field a: int64 e:(begin (chk 0) 0))]) (Zed a: 1))', None), 'gensym': ('(defn again [] (let [x (gensym "p")] (chk 3)))', '(again)', None), 'sym': ('(defn again [] (chk (str2sym "fresh")) (quote fresh))', '(again)', None),
}
APIS = ['', 'loadrun', 'evalexprs', 'file']

def run(rep):
    thorough = C.TIER == 'thorough'
    rng = random.Random(C.SEED)
    drv = C.build_driver()
    r, ps, one, ks = behaviours(3 if thorough else 2)
    plan = []
    for n, p in ps:
        counts = [one[c] for c in p]
        if sum(counts) != n:
            raise C.CheckError('marks')
        if len(p) == 1:
            use = ks
        elif len(p) == 2:
            use = ks if thorough else rng.sample(ks, 2)
        else:
            if rng.random() > 0.12:
                continue
            use = rng.sample(ks, 1)
        for k in use:
            defs, t = build(p, k)
            plan.append((PRE + defs, t, None if KIND[k][2] else expect(p, counts), expect(p, counts), APIS[len(plan) % 4], '/'.join(p) + ' ' + k))
    for i, u in enumerate(UNFINISHED):
        for a in (APIS if thorough else [APIS[i % 4]]):
            plan.append((PRE, u, None, ['p'], a, 'text'))
    # texts of several forms: those that ran before the failing one count
    for k in ks:
        d, e, comp = KIND[k]
        t = '(mark "s1") (def seqa 7) (defn seqf [x] (mark "in") (+ x seqa)) (set gl (seqf 3)) (mark "s2") %s (mark "NEVER") (def seqb 8)' % e
        plan.append((PRE + ([d] if d else []), t, None if comp else ['s1', 'in', 's2'], ['s1', 'in', 's2'], APIS[len(plan) % 4], 'sequence ' + k, '(mark "s1") (def seqa 7) (defn seqf [x] (mark "in") (+ x seqa)) (set gl (seqf 3)) (mark "s2")', ['seqa', '(seqf 1)', 'gl', 'seqb']))
    for k in sorted(RETRY):
        d, e, tw = RETRY[k]
        bat = ['bad', '(set bad false)', e, e, '(set bad true)', e, '(set bad false)', e]
        for api in APIS:
            for n in (1, 2):
                if tw and n == 2 and tw != OKTW:
                    continue
                if tw == OKTW:
                    t = OKTW % ' '.join([e])
                else:
                    t = tw
                plan.append((PRE + CHK + ([d] if d else []), [e] * n, ['c'] if k not in ('struct',) else None, ['c'], api, 'retry ' + k, t, bat))
    # histories: several failures one after the other
    base = [x for x in plan if len(x) == 6]
    cases, twins, info = [], [], []
    def add(pre, fails, api, exp, label, tw=None, extra=()):
        bat = BATTERY + list(extra)
        cases.append({'op': 'session', 'id': str(len(cases)), 'forms': pre + fails + bat, 'api': api, 'depths': True, 'budget': 300000, 'timeout': 0})
        info.append((len(pre), len(fails), exp, label, tw, bat))
    for x in plan:
        fl = x[1] if isinstance(x[1], list) else [x[1]]
        add(x[0], fl, x[4], [(x[2], x[3])] * len(fl), x[5], *(x[6:] if len(x) > 6 else (None, ())))
    for i in range(3000 if thorough else 500):
        seq = rng.sample(base, rng.choice([2, 3, 5]))
        pre = list(PRE)
        for s in seq:
            pre += [d for d in s[0][len(PRE):] if d not in pre]
        # definitions of the same name are made just before their text
        fails, exp = [], []
        if len({re.match(r'\(\w+ (\S+)', d).group(1) for d in pre[len(PRE):]}) < len(pre) - len(PRE):
            continue
        for s in seq:
            fails.append(s[1]); exp.append((s[2], s[3]))
        add(pre, fails, rng.choice(APIS), exp, 'history')
    res = C.run_cases(drv, cases)
    # a definition that cannot be compiled is itself a failing text
    more = []
    for c, inf, q in zip(cases, info, res):
        for i in range(inf[0] if 'results' in q and inf[3] != 'history' else 0):
            if 'err' in q['results'][i] and i >= len(PRE):
                more.append((c['forms'][:i], [c['forms'][i]], c['api'], [(None, [])], inf[3]))
                break
    for x in more:
        add(*x)
    res += C.run_cases(drv, cases[-len(more):]) if more else []
    stats = {'failures': 0, 'follow_ups': 0, 'marks': 0}
    def judge_fail(c, inf, q):
        """what the failing part itself must do; returns (why, marks observed per failing text)"""
        np, nf, exp, label, tw, bat = inf
        if 'results' not in q:
            return f'no answer: {str(q)[:300]}', None
        seen = []
        for i in range(np):
            x = q['results'][i]
            if 'err' in x or 'panic' in x:
                return None, None              # could not be set up: not a case
        for i in range(nf):
            x = q['results'][np + i]
            if x.get('panic'):
                return f'panic {x["panic"][:200]}', None
            mk = [e[0].get('v') for e in x.get('trace', [])]
            seen.append(mk)
            ex, al = exp[i]
            if 'err' not in x:
                return f'the failure is swallowed: value {x.get("print", "")[:200]} with marks {mk}', None
            if ex is not None and mk != ex:
                if x.get('budget'):
                    return None, None
                return f'the marks made before the failure are {mk}, not {ex}; error {x["err"][:200]}', None
            if ex is None and not subseq(mk, al):
                return f'marks {mk} do not precede the failure ({al}); error {x["err"][:200]}', None
        for i, x in enumerate(q['results'][np:]):
            if x['depths'] != q['rest']:
                return f'after {c["forms"][np + i][:200]!r}: stacks {x["depths"]}, at rest {q["rest"]}', None
        return None, seen
    def twin(c, inf, seen):
        np, nf, exp, label, tw, bat = inf
        f = []
        for mk in seen:
            if tw and mk:
                f.append(tw)
            else:
                f.append(' '.join('(mark "%s")' % m for m in mk) or 'nil')
        return {'op': 'session', 'id': c['id'], 'forms': c['forms'][:np] + f + bat, 'api': c['api'], 'depths': True, 'budget': 300000}
    def compare(c, inf, q, w):
        np, nf = inf[:2]
        if 'results' not in w:
            return f'twin gave no answer: {str(w)[:300]}'
        for j, (a, b) in enumerate(zip(q['results'][np + nf:], w['results'][np + nf:])):
            if outcome(a) != outcome(b):
                return f'afterwards {inf[5][j]!r} gives {outcome(a)[:300]}, in an interpreter that never failed {outcome(b)[:300]}'
        return None
    bad, todo, skipped = [], [], []
    for c, inf, q in zip(cases, info, res):
        why, seen = judge_fail(c, inf, q)
        if why:
            bad.append((c, inf))
        elif seen is None:
            skipped.append(inf[3])
        else:
            todo.append((c, inf, q, seen))
    ws = C.run_cases(drv, [twin(c, inf, seen) for c, inf, q, seen in todo])
    for (c, inf, q, seen), w in zip(todo, ws):
        if compare(c, inf, q, w):
            bad.append((c, inf))
        else:
            stats['failures'] += inf[1]; stats['follow_ups'] += len(inf[5]); stats['marks'] += sum(map(len, seen))
            if stats['failures'] % 997 == 1:
                rep.sample([inf[3], c['forms'][inf[0]:inf[0] + inf[1]]])
    for c, inf in C.until(bad, rep, 12):
        q = C.run_cases(drv, [c], nproc=1)[0]
        why, seen = judge_fail(c, inf, q)
        if not why and seen is not None:
            why = compare(c, inf, q, C.run_cases(drv, [twin(c, inf, seen)], nproc=1)[0])
        if why:
            rep.violation(c['forms'][len(PRE):inf[0] + inf[1]], f'[{inf[3]}, entry {c["api"] or "EvalString"}] {why}', {'case': c})
    if os.environ.get('ZV_VERBOSE'):
        import collections
        print(len(bad), 'bad', collections.Counter(skipped).most_common(40), len(skipped))
        cc = collections.Counter(); kk = collections.Counter()
        for c, inf in bad:
            for w in inf[3].split()[0].split('/'):
                cc[w] += 1
            kk[inf[3].split()[-1]] += 1
        print(cc.most_common(20), kk.most_common(20))
    if len(skipped) > 0.2 * len(cases):
        raise C.CheckError(f'{len(skipped)} of {len(cases)} cases could not be set up')
    # (B) faults injected at every k-th effect of Core programs
    progs = []
    for i in range(3000 if thorough else 450):
        rr = random.Random(C.SEED * 1000081 + i)
        g = core.Gen(rr, lazy=rr.random() < 0.3, err=rr.choice([0, 0.03, 0.08]), depth=rr.choice([3, 4, 5]), closures=rr.choice([0.3, 1]))
        f = g.program(rr.randint(2, 4))
        n = json.dumps(f).count('"tr"')
        for k in sorted(rr.sample(range(1, 9), 3)) if n else [0]:
            progs.append({'forms': f, 'fa': k, 'fk': 'err' if (i + k) % 3 else 'panic'})
    st, res = core.validate(rep, drv, progs, extra={'depths': True})
    nb = 0
    for p, q in zip(progs, res):
        for j, x in enumerate(q.get('results', [])):
            if 'err' in x and not x.get('budget') and x.get('depths') != q['rest']:
                c = {'op': 'session', 'forms': [core.text(f) + '\n' for f in p['forms']], 'depths': True, 'budget': 400000, 'failAt': p['fa'], 'failKind': p['fk']}
                a = C.run_cases(drv, [c], nproc=1)[0]
                if 'results' in a and a['results'][j].get('depths') != a['rest'] and nb < 5:
                    nb += 1
                    rep.violation(c['forms'][:j + 1], f'after the error {x["err"][:100]!r} the stacks are {a["results"][j]["depths"]}, at rest {a["rest"]}', {'case': c})
    import c02
    c02.report(rep, st, len(cases), progs)
    rep.cov['states'] += r.distinct; rep.cov['transitions'] += r.generated
    rep.cov.update(contexts=len(CTX), failure_kinds=len(ks), paths=len(ps), not_set_up=len(skipped), **stats)
    rep.cov['traces_validated_against_impl'] += stats['failures']
    rep.assumptions.append('error texts are compared after removing generated symbol numbers, addresses and Go stack traces')
