"""C18: package members are private unless capitalised.  Package.tla says where a dot path
leads; TLC shows that a private value is only learnt from, or changed by, the package's own
functions, and lists every short operation on a package of packages and hashes.  Those and
random operations on random packages run on the real interpreter by many routes; TLC
validates every recorded answer, and what the members hold afterwards."""
import random, os, json, re
import common as C
LEVEL = 'model_checking'
cp = lambda s: [ord(c) for c in s]
un = lambda l: ''.join(map(chr, l))
UP = ['V', 'Val', 'É', 'Жук', 'Δa', 'Zz9', 'X_y', 'L', 'Ab', 'Λ']
LOW = ['v', 'vAL', 'é', 'жУК', 'δA', '_V', '_x', '日', 'w9', 'aB', 'λ', 'k']
UPPER = set(range(65, 91)) | {201, 916, 923, 1046}
up = lambda nm: ord(nm[0]) in UPPER
KIND = {'int64': 'val', 'array': 'arr', 'hash': 'hash', 'package': 'pkg', 'func': 'fun'}

def children(h, n):
    return [(un(a), b) for a, b in h[n - 1][1]] if n and h[n - 1][0] in ('pkg', 'hash') else []

def body(h, f, r):
    k = f[1]
    if k == 'const':
        n = f[2]
        return r.choice([f'{n}', f'(+ {n} 0)', f'(let [zz1 {n}] zz1)'])
    m = un(f[3])
    if k == 'read':
        if h[dict(children(h, f[2]))[m] - 1][0] == 'arr':
            return r.choice(['(+ 0 {%s[0]})', '(aget %s 0)', '(first %s)']) % m
        return r.choice(['(+ 0 %s)', '(let [zz1 %s] zz1)', '{%s + 0}', '((fn [zz1] (+ zz1 0)) %s)', '((fn [] (+ 0 %s)))', '(first (map (fn [zz1] (+ zz1 %s)) [0]))', '%s', '((fn [#zz1] (+ 0 (force #zz1))) %s)', '(cond true %s 0)', '(begin 1 (+ %s 0))', '(apply (fn [] (+ %s 0)) [])', '(letseq [zz1 %s zz2 zz1] zz2)']) % m
    if k == 'write':
        return r.choice(['(set %s nn)', '{%s = nn}', '(begin (set %s nn) nn)', '((fn [] (set %s nn)))', '(let [zz1 nn] (set %s zz1) zz1)', '(begin (map (fn [zz1] (set %s zz1)) [nn]) nn)']) % m
    if k == 'dot':
        q = '.'.join([m] + [un(x) for x in f[4]])
        return r.choice(['(+ 0 %s)', '(let [zz1 %s] (+ 0 zz1))', '{%s + 0}', '((fn [zz1] (+ zz1 0)) %s)']) % q
    if k == 'call':
        return r.choice(['(%s)', '(+ 0 (%s))', '((fn [zz1] (zz1)) %s)']) % m

def text(h, n, r, depth=0):
    x = h[n - 1]
    if x[0] == 'val':
        return str(x[1])
    if x[0] == 'arr':
        return '[%d]' % x[1]
    if x[0] == 'fun':
        return '(fn [%s] %s)' % ('nn' if x[1] == 'write' else '', body(h, x, r))
    if x[0] == 'hash':
        return '(hash %s)' % ' '.join('%s: %s' % (a, text(h, b, r, depth + 1)) for a, b in children(h, n))
    ms = []
    for a, b in children(h, n):
        y = h[b - 1]
        if y[0] == 'fun' and r.random() < 0.5:
            ms.append('(defn %s [%s] %s)' % (a, 'nn' if y[1] == 'write' else '', body(h, y, r)))
        elif depth == 0 and y[0] != 'fun' and r.random() < 0.3:
            ms.append('(begin {%s := %s})' % (a, text(h, b, r, depth + 1)))
        else:
            ms.append('(def %s %s)' % (a, text(h, b, r, depth + 1)))
    r.shuffle(ms) if r.random() < 0.5 else None
    nm = 'p%d' % n
    return r.choice(['(package "%s" { %s })', '(package "%s" %s)', '(package %s { %s })'][:2]) % (nm, '\n'.join(ms))

# what lies outside: name -> node that is visible from the inside of n (lexically)
def parents(h, n0=1):
    up_ = {}
    def go(n, anc):
        up_.setdefault(n, anc)
        for _, b in children(h, n):
            go(b, anc + [n] if h[n - 1][0] == 'pkg' else anc)
    go(n0, [])
    return up_

def fair(h, anc, n, path):
    """a name that is missing in a package but visible in one around it is not looked at"""
    for nm in path:
        c = dict(children(h, n))
        if nm not in c:
            if n and h[n - 1][0] == 'pkg':
                for a in anc.get(n, []):
                    ca = dict(children(h, a))
                    if nm in ca and (up(nm) or h[ca[nm] - 1][0] == 'pkg'):
                        return False
            return True
        n = c[nm]
    return True

GET = ['(+ 0 P)', '(+ P 0)', '{P + 0}', '{0 + P}', '(let [zz P] (+ zz 0))', '(letseq [zz P yy zz] (+ yy 0))', '(begin (def ZN P) (+ ZN 0))', '(begin {ZN := P} (+ ZN 0))', '(begin {ZN = P} (+ ZN 0))', '(begin (set ZN P) (+ ZN 0))', '((fn [xx] (+ xx 0)) P)', '(first (map (fn [xx] (+ xx 0)) [P]))',
       '(apply + [0 P])', '(+ 0 (cond true P 0))', '(- (* 1 P) 0)', '(eval (quote (+ 0 P)))', '((fn [#xx] (+ 0 (force #xx))) P)', '(let [aa [0]] (aset aa 0 (+ 0 P)) (aget aa 0))', '(+ 0 (begin 1 P))', '(let [zz P] zz)', '((fn [xx] xx) P)', '(begin (defn ZN [] (+ 0 P)) (ZN))',
       '(+ 0 (and true P))', '(+ 0 (or false P))', '(let [zz 0] (for [(def ii P) (== zz 0) (set zz 1)] (set kk9 (+ ii 0))) (+ kk9 0))', '(begin (def ZN (fn [] P)) (+ 0 (ZN)))', '(+ 0 (let [zz P] zz))', '((fn [xx & rr] (+ 0 (first rr))) 1 P)', '(hget (hash a: (+ 0 P)) a:)']
SEE = ['(type? P)', '(let [zz P] (type? zz))', '(begin (def ZN P) (type? ZN))', '((fn [xx] (type? xx)) P)', '(begin {ZN = P} (type? ZN))']
IDX = ['(+ 0 {P[0]})', '(let [zz P] (aget zz 0))', '{P[0] + 0}']
CALL = ['(P)', '(+ 0 (P))', '(let [zz P] (zz))', '((fn [gg] (gg)) P)', '(begin (def ZN P) (ZN))', '{(P) + 0}', '(begin (defn ZN [] (P)) (ZN))', '(+ 0 (begin (P)))', '((fn [#gg] (force #gg)) (P))', '(begin {ZN = P} (ZN))', '(eval (quote (P)))']
CALL1 = ['(P N)', '(let [zz P] (zz N))', '((fn [gg] (gg N)) P)', '(begin (def ZN P) (ZN N))', '(+ 0 (P N))', '(P (+ N 0))', '(begin {ZN = P} (ZN N))']
SET = ['{P = N}', '{P := N}', '(set P N)', '(= P N)', '{P = (+ N 0)}', '(begin (def ZN Q) {ZN.M = N})', '(let [zz Q] (set zz.M N))', '(begin (def ZN N) {P = ZN})', '(eval (quote (set P N)))', '(begin (defn ZN [xx] (set P xx)) (ZN N))', '(for [(def ii 0) (< ii 1) (set ii (+ ii 1))] {P = N})', '(map (fn [xx] (set P xx)) [N])']
IDXSET = ['{P[0] = N}', '(let [zz P] (aset zz 0 N))', '(begin (def ZN P) (aset ZN 0 N))', '(let [zz P] {zz[0] = N})']
HGET = ['(+ 0 (hget Q M:))', '(+ 0 (hget Q (quote M)))', '(let [zz Q] (+ 0 (hget zz M:)))', '(begin (def ZN Q) (+ (hget ZN M:) 0))']
HSET = ['(hset Q M: N)', '(hset Q (quote M) N)', '(let [zz Q] (hset zz M: N))', '(begin (def ZN Q) (hset ZN M: N))']
TRY = ['{P++}', '{P--}', '{P += 1}', '(def P N)', '(mdef P zz9 (list N 1))', '(aset P 0 N)', '(hset P V: N)', '(hdel P V:)', '(defn P [] N)', '(let [P N] 1)', '(set (quote P) N)', '(eval (list (quote set) (quote P) N))', '((fn [P] 1) N)', '{P[0]++}', '{*P = N}', '(derefSet P N)', '(begin (def ZN (& P)) {*ZN = N})', '(for [(def P N) false 1] 1)', '{P = N; P = N}', '(begin {P, zz = (list N 1)})',
       '(hset P (quote V) N)', '(undef P)', '(let [zz P] (set zz N))', '((fn [xx] (set xx N)) P)', '(append P N)']
ROUTES = {'get': GET, 'see': SEE, 'idx': IDX, 'call': CALL, 'call1': CALL1, 'set': SET, 'idxset': IDXSET, 'hget': HGET, 'hset': HSET, 'try': TRY}
# where it is done; ROOT is what the path begins with
CTX = ['F', 'F', 'F', '(begin F)', '(let [qq ROOT] F)', '((fn [qq] F) ROOT)', '(cond true F 0)', '(begin (def ZC (package "bx" { (def Go (fn [] F)) })) (ZC.Go))', '((fn [] F))', '(eval (quote F))', '(begin (def ZC (package "by" (def go2 (fn [] F)) (def Go (fn [] (go2))))) (ZC.Go))', '(apply (fn [] F) [])', '(begin (def ZC (package "bz" { (def Pin ROOT) (def Go (fn [] F)) })) (ZC.Go))', '(first (map (fn [i9] F) [1]))', '(let [qq ROOT] ((fn [] F)))']
PRE = ['(def kk9 0)']

class Session:
    """a package in an interpreter of its own, and what is done to it"""
    def __init__(self, h, r, dirname=None, force=None):
        self.h = json.loads(json.dumps(h)); self.r = r
        self.n = 0
        self.forms = list(PRE)
        t = text(self.h, 1, r)
        how = force if force is not None else r.randrange(7)
        if how == 5 and dirname:
            f = os.path.join(dirname, 'p%d.zy' % r.getrandbits(60)); open(f, 'w').write(t)
            t = '(import pk "%s")' % f
        elif how == 6 and dirname:
            f = os.path.join(dirname, 'p%d.zy' % r.getrandbits(60)); open(f, 'w').write(t)
            t = '(def pk (source "%s"))' % f
        else:
            t = ['(def pk %s)', '{pk = %s}', '{pk := %s}', '(def pk (let [] %s))', '(def pk ((fn [] %s)))', '(def pk %s)', '(set pk %s)'][how] % t
        self.forms.append(t)
        self.roots = [('pk', 1)]
        self.anc = parents(self.h)
        self.ops = []; self.at = []; self.route = []

    def new(self, node):
        self.h.append(node); return len(self.h)

    def alias(self):
        """another way to come to the package"""
        r = self.r
        paths = [('pk', 1)]
        def go(t, n):
            for a, b in children(self.h, n):
                if self.h[b - 1][0] in ('pkg', 'hash') and (self.h[b - 1][0] == 'pkg' or self.h[n - 1][0] == 'hash' or up(a)):
                    paths.append((t + '.' + a, b)); go(t + '.' + a, b)
        go('pk', 1)
        t, n = r.choice(paths)
        self.n += 1; z = 'al%d' % self.n
        k = r.randrange(7)
        if k < 3:
            self.forms.append(['(def %s %s)', '{%s = %s}', '{%s := %s}'][k] % (z, t)); self.roots.append((z, n))
        elif k == 3:
            self.forms.append('(def %s (let [zz %s] (hash q: zz)))' % (z, t)); self.roots.append((z, self.new(['hash', [[cp('q'), n]]])))
        elif k == 4:
            inner = r.choice(['inner', 'Inner'] if self.h[n - 1][0] == 'pkg' else ['Inner'])
            self.forms.append('(def %s (package "o%d" { (def %s %s) (def Unrelated 5) }))' % (z, self.n, inner, t))
            m = self.new(['val', 5])
            self.roots.append((z, self.new(['pkg', [[cp(inner), n], [cp('Unrelated'), m]]])))
        elif k == 5:
            self.forms.append('(def %s (let [zz %s] (hash q: (hash q: zz))))' % (z, t))
            self.roots.append((z, self.new(['hash', [[cp('q'), self.new(['hash', [[cp('q'), n]]])]]])))
        else:
            self.forms.append('(def %s (first (list ((fn [xx] xx) %s))))' % (z, t)); self.roots.append((z, n))

    def do(self, op, root, path, route=None, ctx=None, num=None):
        r = self.r
        name, node = root
        if not fair(self.h, self.anc, node, path):
            return
        self.n += 1
        f = route if route is not None else r.choice(ROUTES[op])
        c = ctx if ctx is not None else r.choice(CTX)
        nm = 'qq' if '[qq' in c else 'Pin' if 'Pin' in c else name
        N = num if num is not None else 200 + self.n
        f = f.replace('ZN', 'z%d' % self.n).replace('P', '\1').replace('Q', '\2').replace('M', '\3').replace('N', str(N))
        p = '.'.join([nm] + path); q = '.'.join([nm] + path[:-1])
        f = f.replace('\1', p).replace('\2', q).replace('\3', path[-1] if path else 'X')
        c = c.replace('ZC', 'zc%d' % self.n).replace('ROOT', '\1').replace('F', '\2').replace('\1', name).replace('\2', f)
        self.at.append(len(self.forms)); self.forms.append(c)
        self.ops.append([op, node, [cp(x) for x in path]] + ([N] if op in ('set', 'idxset', 'hset', 'call1') else []))
        self.route.append((op, route, c))

    def sweep(self):
        """what everything holds now"""
        r = self.r
        def go(n, path):
            for a, b in children(self.h, n):
                k = self.h[b - 1][0]
                if k == 'val': self.do('get', ('pk', 1), path + [a], '(+ 0 P)', 'F')
                elif k == 'arr': self.do('idx', ('pk', 1), path + [a], '(+ 0 {P[0]})', 'F')
                elif k == 'fun' and self.h[b - 1][1] != 'write': self.do('call', ('pk', 1), path + [a], '(P)', 'F')
                else:
                    self.do('see', ('pk', 1), path + [a], '(type? P)', 'F')
                    go(b, path + [a])
        go(1, [])

    def case(self):
        return {'op': 'session', 'forms': self.forms, 'noprint': True}

    def record(self, res):
        out = []
        for op, i in zip(self.ops, self.at):
            x = res[i] if i < len(res) else {'err': 'none'}
            v = x.get('val')
            if op[0] in ('set', 'idxset', 'hset', 'try'):
                g = ['err'] if 'err' in x or 'panic' in x else ['ok']
            elif v is None or 'err' in x:
                g = ['err']
            elif op[0] == 'see':
                g = ['kind', KIND[v['v']]] if v['k'] == 'str' and v['v'] in KIND else ['err']
            else:
                g = ['val', int(v['v'])] if v['k'] == 'int' and abs(int(v['v'])) < 2**31 else ['err']
            out.append([op, g])
        return {'heap': self.h, 'ops': out}

def observers(h):
    """functions of the packages that tell what their private members hold"""
    h = json.loads(json.dumps(h)); cnt = 0
    for n in range(1, len(h) + 1):
        if h[n - 1][0] != 'pkg':
            continue
        for a, b in children(h, n):
            if up(a):
                continue
            k = h[b - 1]
            add = None
            if k[0] in ('val', 'arr'): add = ['fun', 'read', n, cp(a)]
            elif k[0] == 'fun' and k[1] != 'write': add = ['fun', 'call', n, cp(a)]
            elif k[0] == 'hash':
                d = [x for x, y in children(h, b) if h[y - 1][0] == 'val']
                if d: add = ['fun', 'dot', n, cp(a), [cp(d[0])]]
            if add:
                h.append(add); cnt += 1
                h[n - 1][1].append([cp('O%d' % cnt), len(h)])
    return h

def tree(r):
    """a random package of packages, hashes, numbers, arrays and functions"""
    h = []; num = [1000 + r.randrange(900)]
    used = set()
    def nxt():
        num[0] += 1; return num[0]
    def make(kind, depth, scopes):
        n = len(h); h.append(None)
        if kind == 'val': h[n] = ['val', nxt()]
        elif kind == 'arr': h[n] = ['arr', nxt()]
        elif kind == 'fun': h[n] = ['fun', 'const', nxt()]
        else:
            ms = []; pool = [x for x in (UP if kind == 'hash' else UP + LOW)]
            r.shuffle(pool)
            h[n] = [kind, ms]
            for nm in pool[:r.randrange(2, 7) if depth < 3 else 2]:
                if kind == 'pkg' and any(nm in s for s in scopes):
                    continue        # no shadowing: functions then mean what they say
                k = r.choice(['val', 'val', 'val', 'arr', 'fun'] + (['pkg', 'pkg', 'hash', 'hash'] if depth < 4 else []))
                if kind == 'hash' and k == 'fun': k = 'val'
                s = scopes + [[nm] + [un(x[0]) for x in ms]] if kind == 'pkg' else scopes
                ms.append([cp(nm), 0])
                ms[-1][1] = make(k, depth + 1, scopes + [set(pool)] if kind == 'pkg' else scopes)
        return n + 1
    make('pkg', 0, [])
    # functions over what they can see: their own package and those around it
    def go(n, anc):
        if h[n - 1][0] == 'pkg':
            mine = anc + [n]
            for _ in range(r.randrange(0, 3)):
                q = r.choice(mine)
                c = children(h, q)
                vals = [a for a, b in c if h[b - 1][0] == 'val' and not up(a)]
                cont = [(a, b) for a, b in c if h[b - 1][0] in ('pkg', 'hash')]
                k = r.choice(['read', 'write', 'dot', 'dot'])
                if k in ('read', 'write') and vals:
                    h.append(['fun', k, q, cp(r.choice(vals))])
                elif k == 'dot' and cont:
                    a, b = r.choice(cont); p = []
                    if h[b - 1][0] == 'hash' and up(a) : pass
                    m = b
                    while children(h, m) and (not p or r.random() < 0.6):
                        x, m = r.choice(children(h, m)); p.append(x)
                    if h[m - 1][0] != 'val' or not p:
                        continue
                    h.append(['fun', 'dot', q, cp(a), [cp(x) for x in p]])
                else:
                    continue
                h[n - 1][1].append([cp('%s%d' % (r.choice('FG'), len(h))), len(h)])
            for a, b in list(children(h, n)):
                go(b, mine)
        elif h[n - 1][0] == 'hash':
            for a, b in children(h, n):
                go(b, anc)
    go(1, [])
    return h

def rpath(h, r, n):
    p = []
    while True:
        c = children(h, n)
        if not c or (p and r.random() < 0.25):
            if p and r.random() < 0.93:
                return p
            return p + [r.choice(['Nope1', 'nope1'])]
        if r.random() < 0.04:
            p.append(r.choice(UP + LOW)); n = 0
            if r.random() < 0.5: return p
            continue
        a, n = r.choice(c); p.append(a)

def hidden(h, n, path):
    """does the path end at a private member of a package, and only there"""
    for i, nm in enumerate(path):
        c = dict(children(h, n))
        if nm not in c:
            return False
        m = c[nm]
        if h[n - 1][0] == 'pkg' and not up(nm) and (i == len(path) - 1):
            return True
        n = m
    return False

def run(rep):
    q = C.TIER == 'quick'
    drv = C.build_driver()
    dump = os.path.join(C.work(), 'pk.ndjson')
    g = C.tlc('PackageGen', 'SPECIFICATION Spec\nINVARIANT Secret\nINVARIANT Open\nPROPERTY Kept\n', env={'ZV_OUT': dump}, heap='8g', workers=C.NCPU)
    if g.violated:
        raise C.CheckError('the package model is wrong:\n' + g.out[-2000:])
    r = random.Random(C.SEED * 7919 + 18)
    lines = [json.loads(l) for l in open(dump)]
    heap, ops = observers(lines[0][1]), [l[1] for l in lines[1:]]
    ops.sort(key=json.dumps)
    d = os.path.join(C.work(), 'src'); os.makedirs(d, exist_ok=True)
    ss = []
    # every operation of the model by every route, from outside and from inside other code
    todo = [(o, f) for o in ops for f in ROUTES[o[0]]]
    tp = [['try', 1, o[2]] for o in ops if o[0] == 'get' and hidden(heap, 1, [un(x) for x in o[2]])]
    todo += [(o, f) for o in tp for f in TRY]
    r.shuffle(todo)
    nsweep = 0
    for rnd in range(1 if q else 3):
        for i in range(0, len(todo), 30):
            s = Session(heap, r, d)
            for _ in range(r.randrange(3)): s.alias()
            for o, f in todo[i:i + 30]:
                s.do(o[0], ('pk', 1), [un(x) for x in o[2]], f, 'F' if r.random() < 0.4 and rnd == 0 else None, o[3] + r.randrange(60) if len(o) > 3 else None)
            s.sweep()
            ss.append(s)
    nenum = len(ss)
    # random packages, reached by several names
    for _ in range(1500 if q else 12000):
        s = Session(observers(tree(r)), r, d)
        for _ in range(r.randrange(4)): s.alias()
        for _ in range(r.randrange(6, 26)):
            root = r.choice(s.roots)
            p = rpath(s.h, r, root[1])
            op = r.choice(['get', 'get', 'get', 'see', 'idx', 'call', 'call', 'call1', 'call1', 'set', 'set', 'set', 'idxset', 'hget', 'hset', 'try'])
            if op == 'try' and not hidden(s.h, root[1], p):
                continue
            s.do(op, root, p)
        s.sweep()
        ss.append(s)
    res = C.run_cases(drv, [s.case() for s in ss], tmo_ms=20000, max_bad=8)
    recs, own, nop = [], [], 0
    for s, x in zip(ss, res):
        if 'skipped' in x:
            continue
        if 'results' not in x:
            rep.violation(key='crash:' + str(x)[:60], detail='the interpreter dies: ' + str(x)[:300], replay={'case': s.case()})
            continue
        recs.append(s.record(x['results'])); own.append(s); nop += len(s.ops)
    bads, st = check(recs)
    def again(s):
        x = C.run_cases(drv, [s.case()], nproc=1)[0]
        if 'results' not in x:
            return None
        rec = s.record(x['results'])
        b, _ = check([rec])
        return (b[0], rec, x['results']) if b else None
    for k, i, want in C.until(bads, rep):
        s = own[k]
        z = again(s)
        if not z:
            continue
        (_, i, want), rec, raw = z
        f = s.forms[s.at[i - 1]]
        rep.violation(key=f'{rec["ops"][i-1][0][0]} {f[:100]}', detail=f'operation {i}: {f[:200]} gives {json.dumps(raw[s.at[i-1]])[:200]} ({rec["ops"][i-1][1]}), the specification {want}; packages: {s.forms[len(PRE)][:400]}',
                      replay={'case': s.case(), 'operation': i, 'want': want})
    rep.cov.update(states=g.distinct, transitions=g.generated, trace_states=st, sessions=len(ss), sessions_of_the_model=nenum, operations=nop, model_operations=len(ops), routes=sum(len(v) for v in ROUTES.values()), settings=len(CTX))
    for k in (0, nenum // 2, -1):
        rep.sample({'forms': [f[:300] for f in own[k].forms[4:12]]})

def check(recs):
    bad, st = [], 0
    f = os.path.join(C.work(), 'pkt.ndjson')
    for o in range(0, len(recs), 4000):
        C.write_ndjson(f, recs[o:o + 4000])
        t = C.tlc('PackageTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': f}, heap='10g', workers=C.NCPU)
        st += t.distinct
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(<<.*?>>)\s*>>', t.out, re.S):
            bad.append((o + int(m[1]) - 1, int(m[2]), re.sub(r'\s+', ' ', m[3])))
    return bad, st
