"""C17: declared struct types are enforced on every write.  Record.tla says what a declaration
accepts, where a write leads and what a refusal leaves alone; TLC shows instances stay typed and
lists every operation after every short history.  Those and random histories run on the real
interpreter by many write routes; TLC validates every outcome and what each instance holds."""
import random, os, json, re, struct
import common as C
LEVEL = 'model_checking'

def S(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'

def btext(v, r):
    t, x = v[1], v[2]
    if t == 'int64': return r.choice([x, x, '(+ %s 0)' % x, '(let [zz %s] zz)' % x])
    if t == 'uint64': return x + 'ULL'
    if t == 'float64': return r.choice([x, x, '(+ %s 0.0)' % x])
    if t == 'string': return r.choice([S(x), S(x), '(concat %s "")' % S(x)])
    if t == 'bool': return x if x == 'false' else r.choice(['true', '(== 1 1)'])
    if t == 'rune': return "'%c'" % int(x)
    if t == 'symbol': return '(quote %s)' % x

OTH = {'fn': ['(fn [q] q)', 'car'], 'hash': ['(hash q: 1)', '(hash)'], 'list': ["(list 1 2)", '(quote (1 . 2))'], 'raw': ['(raw "u")']}
def vtext(v, r):
    k = v[0]
    if k == 'nil': return r.choice(['nil', '()'])
    if k == 'b': return btext(v, r)
    if k == 'slot': return 'x%d' % v[1]
    if k == 'pslot': return '(& x%d)' % v[1]
    if k == 'oth': return r.choice(OTH[v[1]])
    es = [vtext(e, r) for e in v[1]]
    a = '[' + ' '.join(es) + ']'
    c = [a, a, a, '(array %s)' % ' '.join(es), '(let [zz %s] zz)' % a]
    if es:
        c += ['(append [%s] %s)' % (' '.join(es[:-1]), es[-1]) if len(es) > 1 else a, '(map (fn [z] z) %s)' % a, '(rest [%s])' % ' '.join([es[0]] + es), '(concat [%s] [%s])' % (es[0], ' '.join(es[1:])),
              '(begin (def zz%d [%s]) (aset zz%d %d %s) zz%d)' % ((n := r.getrandbits(40)), ' '.join([es[0]] * len(es)), n, len(es) - 1, es[-1], n) if not any('slot' == e[0] for e in v[1]) else a]
        w = [e[2] for e in v[1] if e[0] == 'b' and e[1] == 'string']
        # other arrays made from another type
        if all(e[0] == 'b' and e[1] == 'int64' for e in v[1]): c += ['(map (fn [z] %s) ["u"])' % es[0]] if len(es) == 1 else []
        if len(es) == 1 and v[1][0][0] == 'b': c += ['(map (fn [z] %s) [1.5])' % es[0], '(slice [%s %s %s] 1 2)' % (es[0], es[0], es[0]), '(append [] %s)' % es[0], '(rest [7 %s])' % es[0], '(begin (def zz%d [1 2]) (first zz%d) [%s])' % ((n := r.getrandbits(40)), n, es[0])]
        if w and len(w) == len(es) and len(set(w)) == len(w): c += ['(map (fn [z] (str2sym z)) [])' if False else a]
    else:
        c = ['[]', '[]', '(array)', '(let [zz []] zz)', '(slice [1 2] 0 0)', '(rest [5])', '(map (fn [z] z) [])']
    return r.choice(c)

def ttext(t):
    return {'b': lambda: t[1], 'nm': lambda: t[1], 'slice': lambda: '([]%s)' % ttext(t[1]), 'ptr': lambda: '(* %s)' % ttext(t[1])}[t[0]]()

# X an instance, f a field, V a value, Z a fresh name
DIRECT = ['(hset X f: V)', '(hset X (quote f) V)', '{X.f = V}', '{X.f := V}', '(set X.f V)', '(= X.f V)', '{X[%f] = V}', '{X[(quote f)] = V}']
SETS = DIRECT * 2 + ['(begin (def Z (hash k: X)) {Z.k.f = V})', '(begin (def Z [X]) {Z[0].f = V})', '(begin (def Z (& X)) (hset (* Z) f: V))', '(begin (def Z (& X)) (hset (deref Z) f: V))',
        '(begin (def Z (& X)) {(*Z).f = V})', '(let [q (deref (& X))] {q.f = V})', '((fn [q] {q.f = V}) X)', '((fn [q w] (hset q f: w)) X V)', '((fn [q w] {q.f = w}) X V)', '(let [q V] {X.f = q})', '(let [q X w V] (hset q f: w))',
        '(begin (def Z (package "pz" { (def In X) })) {Z.In.f = V})', '(eval (quote (hset X f: V)))', '(map (fn [q] {X.f = q}) [V])', '(for [(def i9 0) (< i9 1) (set i9 (+ i9 1))] {X.f = V})', '(apply hset (list X (quote f) V))', '(begin (def Z (hash k: (hash k: X))) {Z.k.k.f = V})',
        '(cond true (hset X f: V) 0)', '((fn [#q] (hset X f: (force #q))) V)', '(hset (first (list X)) f: V)', '(hset (aget [X] 0) f: V)', '(let [w (quote f)] (hset X w V))', '{X.f, zzq = (list V 1)}' if False else '(hset X f: V)',
        '(begin (defmac Z [] ^(hset X f: V)) (Z))', '(hset (begin X) f: V)', '(-> X (hset f: V))' if False else '{X.f = V}', '(begin (defn Z [q] {X.f = q}) (Z V))']
NEST = ['{X.n.f = V}', '{X.n.f = V}', '(set X.n.f V)', '(hset (hget X n:) f: V)', '(let [q X.n] (hset q f: V))', '(let [q X.n] {q.f = V})', '((fn [q] {q.f = V}) X.n)', '(hset (:n X) f: V)', '{X.n.f := V}', '(begin (def Z (hash k: X)) {Z.k.n.f = V})', '(begin (def Z (& X.n)) (hset (* Z) f: V))' if False else '(hset (:n X) (quote f) V)', '((fn [q w] (hset (hget q n:) f: w)) X V)']
VIAP = ['(hset (* (hget X n:)) f: V)', '(hset (deref (hget X n:)) f: V)', '(let [q (deref (hget X n:))] {q.f = V})', '(let [w (:n X)] (hset (* w) f: V))', '((fn [q] {q.f = V}) (deref (:n X)))', '(hset (deref (:n X)) (quote f) V)']
BAD = ['(hset X "f" V)', '(hset X 3 V)', '{X["f"] = V}', '{X[7] = V}', '(hset X [1] V)', "(hset X 'c' V)", '(hset X 2.5 V)', '((fn [q] (hset q "f" V)) X)', '(let [q "f"] (hset X q V))', '(hset (deref (& X)) "f" V)', '(begin (def Z (hash k: X)) (hset (:k Z) "f" V))', '(hset X (list 1) V)', '(hset X true V)']
DELS = ['(hdel X f:)', '(hdel X (quote f))', '((fn [q] (hdel q f:)) X)']
COPY = ['(derefSet (& X) Y)', '(begin (def Z (& X)) (derefSet Z Y))', '(let [q (& X)] (derefSet q Y))', '((fn [q] (derefSet q Y)) (& X))', '(derefSet (& X) (deref (& Y)))']
PSET = ['(let [z X.f] (derefSet (& z) V))', '(let [z (hget X f:)] (derefSet (& z) V))', '((fn [z] (derefSet (& z) V)) X.f)', '(let [z X.f] (set z V))', '((fn [z] (set z V)) X.f)', '(let [z (:f X)] {z = V})']
NEWS = ['(T ARGS)', '(T ARGS)', '(T QARGS)', '(let [K T] (K ARGS))', '((fn [K] (K ARGS)) T)', '(begin (T ARGS))', '(eval (quote (T ARGS)))', '((fn [] (T QARGS)))', '(let [q (T ARGS)] q)', '(first [(T ARGS)])']

class Session:
    def __init__(self, r):
        self.r = r; self.forms = []; self.ops = []; self.n = 0; self.nslot = 0
        self.sfx = ''.join(r.choice('abcdefghijkmnpqrstuvwxyz') for _ in range(6))
    def nm(self, s): return s + self.sfx           # the type registry belongs to the process
    def rn(self, x):
        if isinstance(x, list):
            if x and x[0] == 'nm': return ['nm', self.nm(x[1])]
            if x and x[0] == 'rec': return ['rec', self.nm(x[1])] + [self.rn(y) for y in x[2:]]
            return [self.rn(y) for y in x]
        return x
    def do(self, op, route=None):
        r = self.r; self.n += 1
        op = self.rn(op)
        if op[0] in ('decl',): op[1] = self.nm(op[1])
        if op[0] == 'new': op[2] = self.nm(op[2])
        k = op[0]; f = None
        sub = lambda t, X='', f='', V='', Y='', n='': t.replace('Z', '\1').replace('X', '\2').replace('f:', '\3:').replace('%f', '%\3').replace('quote f', 'quote \3').replace('"f"', '"\3"').replace('.f', '.\3').replace(':f ', ':\3 ').replace('V', '\4').replace('Y', '\5').replace('n:', '\6:').replace('.n', '.\6').replace(':n ', ':\6 ').replace('\1', 'z%d' % self.n).replace('\2', X).replace('\3', f).replace('\4', V).replace('\5', Y).replace('\6', n)
        if k == 'decl':
            f = '(struct %s [%s])' % (op[1], ' '.join('(field %s: %s%s)' % (a, ttext(t), r.choice(['', ' e:%d' % i])) for i, (a, t) in enumerate(op[2])))
        elif k == 'new':
            key = lambda x: {'sym': x[1] + ':', 'str': S(x[1]), 'int': '4'}[x[0]]
            qkey = lambda x: '(quote %s)' % x[1] if x[0] == 'sym' else key(x)
            vs = [vtext(x[2], r) for x in op[3]]
            a = ' '.join('%s %s' % (key(x), v) for x, v in zip(op[3], vs)); q = ' '.join('%s %s' % (qkey(x), v) for x, v in zip(op[3], vs))
            f = (route or r.choice(NEWS)).replace('QARGS', '\1').replace('ARGS', '\2').replace('T', op[2]).replace('\1', q).replace('\2', a)
            f = '(def x%d %s)' % (op[1], f)
        elif k == 'set':
            X = 'x%d' % op[1]
            if not op[2]: t = route or r.choice(SETS)
            elif op[2][0][0] == 'p': t = r.choice(VIAP)
            else: t = r.choice(NEST)
            f = sub(t, X, op[3], vtext(op[4], r), n='.'.join(op[2]))
            if len(op[2]) > 1: f = sub(r.choice(['{X.n.f = V}', '(set X.n.f V)', '{X.n.f := V}']), X, op[3], vtext(op[4], r), n='.'.join(op[2]))
        elif k == 'setbad': f = sub(route or r.choice(BAD), 'x%d' % op[1], op[2], vtext(op[3], r))
        elif k == 'del': f = sub(r.choice(DELS), 'x%d' % op[1], op[2])
        elif k == 'copy':
            X, Y = 'x%d' % op[1], 'x%d' % op[3]
            f = sub(route or r.choice(COPY), X, Y=Y) if not op[2] else '(derefSet (hget %s %s:) %s)' % (X, op[2][0], Y) if op[2][0][0] == 'p' else '(let [z (hget %s %s:)] (derefSet (& z) %s))' % (X, op[2][0], Y)
        elif k == 'ptrset': f = sub(route or r.choice(PSET), 'x%d' % op[1], op[2], vtext(op[3], r))
        elif k == 'snap': f = '(def j%d (%s x%d))' % (sum(o[0] == 'snap' for o in self.ops) + 1, op[2], op[1])
        elif k == 'dec': f = '(def x%d (%s j%d))' % (op[1], {'json': 'unjson', 'msgpack': 'unmsgpack'}[op[3]], op[2])
        elif k == 'foreign': f = '(def x%d (unjson (raw %s)))' % (op[1], S(foreign(op[2], r)))
        self.nslot = max([self.nslot] + [op[1]] * (k in ('new', 'dec', 'foreign')))
        self.ops.append(op); self.forms.append(f)
        for i in range(1, self.nslot + 1):
            self.forms.append('x%d' % i)
        self.at = getattr(self, 'at', []) + [(len(self.forms) - 1 - self.nslot, self.nslot)]
    def case(self): return {'op': 'session', 'forms': self.forms, 'noprint': True}
    def record(self, res):
        out = []
        for op, (p, n) in zip(self.ops, self.at):
            o = op
            if op[0] in ('snap', 'dec'): o = op[:2] if op[0] == 'snap' else op[:3]
            if op[0] == 'setbad': o = ['setbad', op[1]]
            out.append([o, 'ok' if 'val' in res[p] else 'err', [seen(x.get('val')) for x in res[p + 1:p + 1 + n]]])
        return out

def seen(v, d=0):
    if v is None: return ['none']
    k = v['k']
    if d > 12: return ['deep']             # no value of the histories nests like this, unless it holds itself
    if k == 'int': return ['b', 'int64', v['v']]
    if k == 'u64': return ['b', 'uint64', v['v']]
    if k == 'float': return ['b', 'float64', repr(struct.unpack('>d', bytes.fromhex(v['v']))[0]) if v['v'] != 'nan' else 'nan']
    if k == 'bool': return ['b', 'bool', 'true' if v['v'] else 'false']
    if k == 'str': return ['b', 'string', v['v']]
    if k == 'char': return ['b', 'rune', str(v['v'])]
    if k == 'sym': return ['b', 'symbol', v['v']]
    if k == 'nil': return ['nil']
    if k == 'array': return ['arr', [seen(e, d + 1) for e in v['v']]]
    if k == 'ptr': return ['ptr']
    if k == 'hash': return ['inst', v['t'], [[a['v'] if a['k'] == 'sym' else '?' + json.dumps(a), seen(b, d + 1)] for a, b in v['v']]]
    return ['oth', k]

def foreign(t, r):
    k = t[0]
    if k == 'nil': return 'null'
    if k == 'b': return json.dumps(t[2]) if t[1] == 'string' else t[2]
    if k == 'arr': return '[' + ', '.join(foreign(e, r) for e in t[1]) + ']'
    ms = ['%s: %s' % (json.dumps(a), foreign(b, r)) for a, b in t[2]]
    ks = [a for a, b in t[2]]
    o = r.randrange(6)
    if o == 0: ks = ks[::-1]
    elif o == 1: ks = ks + ['zno']
    elif o == 2: ks = ['wno', 'x'] + ks
    elif o == 3: ks = ks[:-1]
    ms.insert(0 if r.random() < 0.7 else len(ms), '"Atype": %s' % json.dumps(t[1]))
    if o < 5: ms.append('"zKeyOrder": %s' % json.dumps(list(dict.fromkeys(ks))))
    return '{' + ', '.join(ms) + '}'

# ---- the small alphabet of RecordGen
I = lambda n: ['b', 'int64', str(n)]
ST = lambda s: ['b', 'string', s]
FL = ['b', 'float64', '2.5']
OPS = [
 ['decl', 'Ra', [['x', ['b', 'int64']], ['s', ['slice', ['b', 'string']]]]],
 ['decl', 'Ra', [['x', ['b', 'string']], ['p', ['ptr', ['nm', 'Ra']]]]],
 ['decl', 'Ra', [['x', ['nm', 'Nope']]]],
 ['decl', 'Rb', [['n', ['nm', 'Ra']], ['x', ['b', 'float64']]]],
 ['new', 1, 'Ra', []], ['new', 1, 'Ra', [['sym', 'x', I(1)]]], ['new', 1, 'Ra', [['sym', 'x', ST('u')]]], ['new', 2, 'Ra', [['sym', 's', ['arr', []]]]],
 ['new', 2, 'Ra', [['str', 'x', I(1)]]], ['new', 2, 'Ra', [['sym', 'x', I(3)], ['sym', 'q', I(1)]]], ['new', 3, 'Rb', [['sym', 'n', ['slot', 1]]]], ['new', 3, 'Rb', [['sym', 'n', ['slot', 2]], ['sym', 'x', FL]]],
 ['set', 1, [], 'x', I(5)], ['set', 1, [], 'x', ST('v')], ['set', 1, [], 'x', ['nil']], ['set', 1, [], 'x', ['arr', []]], ['set', 1, [], 's', ['arr', [ST('k')]]], ['set', 1, [], 's', ['arr', [I(7)]]],
 ['set', 2, [], 'q', I(1)], ['set', 3, [], 'n', ['slot', 1]], ['set', 3, ['n'], 'x', I(8)], ['set', 3, ['n'], 'x', ST('z')], ['set', 3, [], 'n', ['nil']], ['set', 1, [], 'p', ['pslot', 2]], ['set', 1, ['p'], 'x', ST('w')], ['set', 1, ['p'], 'x', I(2)],
 ['setbad', 1, 'x', I(9)], ['del', 1, 'x'], ['copy', 1, [], 2], ['copy', 1, ['p'], 2], ['ptrset', 1, 'x', ST('t')], ['ptrset', 1, 'x', I(4)], ['snap', 3, 'json'], ['dec', 4, 1, 'json'], ['set', 4, ['n'], 'x', ST('y')],
]

def rtype(r, names, codec, d=0):
    k = r.random()
    if k < 0.55 or d > 1:
        return ['b', r.choice(['int64', 'string', 'bool', 'float64'] + ([] if codec else ['uint64', 'rune', 'symbol']))]
    if k < 0.8: return ['slice', rtype(r, names, codec, d + 1)]
    if k < 0.87 and not codec: return ['ptr', rtype(r, names, codec, d + 1)]
    return ['nm', r.choice(names)]

def rval(r, t, sl, codec, depth=0):
    """a value that fits t if the names mean what they say (they may not)"""
    if r.random() < 0.08 and depth == 0: return ['nil']
    if t[0] == 'b':
        return ['b', t[1], {'int64': lambda: str(r.choice([0, 1, -4, 12345678901])), 'uint64': lambda: str(r.randrange(9)), 'float64': lambda: r.choice(['2.5', '-0.25', '1024.5']), 'bool': lambda: r.choice(['true', 'false']),
                            'string': lambda: r.choice(['', 'a', 'uv', 'x y']), 'rune': lambda: str(r.choice([97, 66])), 'symbol': lambda: r.choice(['qa', 'qb'])}[t[1]]()]
    if t[0] == 'slice':
        if depth == 0 and r.random() < 0.15: return ['arr', []]
        es = [rval(r, t[1], sl, codec, depth + 1) for _ in range(r.randrange(1, 3))]
        return ['arr', es]
    if t[0] == 'ptr' and t[1][0] != 'nm': return ['nil'] if depth == 0 else I(3)
    c = [i for i, n in sl if n == (t[1] if t[0] == 'nm' else t[1][1])]
    if not c: return ['nil'] if depth == 0 else I(3)
    return ['slot' if t[0] == 'nm' else 'pslot', r.choice(c)]

def rany(r, names, sl, codec):
    k = r.random()
    if k < 0.08: return ['nil']
    if k < 0.16: return ['arr', []]
    if k < 0.24 and not codec: return ['oth', r.choice(list(OTH))]
    if k < 0.28 and not codec and sl: return ['pslot', r.choice(sl)[0]]
    return rval(r, rtype(r, names, codec), sl, codec)

def history(r):
    s = Session(r)
    codec = r.random() < 0.5
    names = ['Ra', 'Rb', 'Rc'][:r.randrange(1, 4)]
    cur = {}; sl = []; nsnap = 0; nslot = 0
    def fields(self):
        fs = []
        for i in range(r.randrange(1, 5)):
            k = r.random()
            if k < 0.6:
                f, t = r.choice('xyzst'), rtype(r, names, codec)
                if t[0] == 'ptr' and t[1][0] == 'nm': f = 'p' + f
                elif 'nm' in json.dumps(t): f = 'l' + f if t[0] == 'slice' else 'n' + f if t[0] == 'nm' else 'q' + f
            elif k < 0.8: f, t = 'n' + r.choice('ab'), ['nm', r.choice(names if r.random() < 0.97 else ['Nope'])]
            elif not codec: f, t = 'p' + r.choice('ab'), ['ptr', ['nm', r.choice(names)]]
            else: f, t = 'l' + r.choice('ab'), ['slice', ['nm', r.choice(names)]]
            if f not in [x[0] for x in fs]: fs.append([f, t])
        return fs
    def decl(n):
        fs = fields(n); s.do(['decl', n, fs])
        if all(u == n or u in cur or u not in names and u != 'Nope' for a, t in fs for u in re.findall(r"'nm', '(\w+)'", str(t))): cur[n] = fs
    for n in names: decl(n)
    def below(i): return [x for x in sl if x[0] < i]
    def some(n, i):
        """a field and a value for an instance of n"""
        fs = cur.get(n) or [['x', ['b', 'int64']]]
        f, t = r.choice(fs)
        if r.random() < 0.06: f = r.choice(['zz', 'x', 'na'])
        v = rval(r, t, below(i), codec) if r.random() < 0.6 else rany(r, names, below(i), codec)
        if r.random() < 0.05:
            f2, t = r.choice(cur.get(r.choice(names)) or fs); v = rval(r, t, below(i), codec)
        return f, v
    for _ in range(r.randrange(5, 14)):
        k = r.random()
        n = r.choice(names)
        if k < 0.25 or not sl:
            if nslot > 5: continue
            nslot += 1
            fs = []
            for _ in range(r.randrange(0, 4)):
                f, v = some(n, nslot)
                fs.append(['sym' if r.random() < 0.97 else r.choice(['str', 'int']), f, v])
            s.do(['new', nslot, n, fs]); sl.append((nslot, n))
        elif k < 0.33: decl(n)
        elif k < 0.37: s.do(['setbad', r.choice(sl)[0], r.choice('xyq'), rany(r, names, [], codec)])
        elif k < 0.41: i, n = r.choice(sl); s.do(['del', i, some(n, i)[0]])
        elif k < 0.47 and len(sl) > 1:
            (j, _), (i, _) = sorted(r.sample(sl, 2)); s.do(['copy', i, [], j])
        elif k < 0.50: i, n = r.choice(sl); f, v = some(n, i); s.do(['ptrset', i, f, rany(r, names, [], codec)])
        elif k < 0.56 and codec and not any(f[0] == 'p' for fs in cur.values() for f, t in fs):
            nsnap += 1; s.do(['snap', r.choice(sl)[0], r.choice(['json', 'msgpack'])])
        elif k < 0.63 and nsnap and nslot < 7:
            nslot += 1; m = r.randrange(nsnap) + 1
            fm = [o for o in s.ops if o[0] == 'snap'][m - 1][2]
            s.do(['dec', nslot, m, fm]); sl.append((nslot, n))
        elif k < 0.70 and codec and nslot < 7:
            nslot += 1
            def rec(n, d=0):
                fs = {}
                for f, t in r.sample(cur.get(n, []), r.randrange(0, len(cur.get(n, [])) + 1)):
                    def mk(t, e=0):
                        if t[0] == 'nm': return rec(t[1], d + 1) if d < 2 and t[1] in cur else ['nil']
                        if t[0] == 'slice':
                            es = [mk(t[1], 1) for _ in range(r.randrange(0 if not e else 1, 3))]
                            return ['arr', [x for x in es if x != ['nil'] or t[1][0] == 'b']] if t[1][0] == 'nm' else ['arr', es]
                        return rval(r, t, [], True, 1)
                    fs[f] = mk(t)
                    if r.random() < 0.1: fs[f] = r.choice([I(3), ST('q'), ['nil'], ['arr', []], ['arr', [I(1)]], ['arr', [ST('1')]], FL])
                if r.random() < 0.1: fs[r.choice(['x', 'zq', 'na'])] = r.choice([I(3), ST('q'), ['nil'], ['arr', []]])
                return ['rec', n, [[a, b] for a, b in fs.items()]]
            s.do(['foreign', nslot, rec(n)]); sl.append((nslot, n))
        else:
            i, n = r.choice(sl)
            path = []
            if r.random() < 0.35:
                c = [(f, t) for f, t in cur.get(n) or [] if t[0] == 'nm' or (t[0] == 'ptr' and t[1][0] == 'nm')]
                if c:
                    f, t = r.choice(c); path = [f]; m = t[1] if t[0] == 'nm' else t[1][1]
                    f, v = some(m, 0)
                    s.do(['set', i, path, f, v]); continue
            f, v = some(n, i)
            s.do(['set', i, [], f, v])
    return s

def check(recs):
    bad, st = [], 0
    for o in range(0, len(recs), 3000):
        f = C.write_ndjson('rec.ndjson', recs[o:o + 3000])
        t = C.tlc('RecordTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': f}, heap='10g', workers=C.NCPU)
        st += t.distinct
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),(.*?)>>\s*$', t.out, re.S | re.M):
            if not any(b[0] == o + int(m[1]) - 1 for b in bad): bad.append((o + int(m[1]) - 1, int(m[2]), re.sub(r'\s+', ' ', m[3])[:1500]))
    return bad, st

# found and recorded: the element writes that no check sees
ELEMENT = ['(begin (struct Rz9 [(field s: ([]string))]) (def xz (Rz9 s: ["a"])) {xz.s[0] = 5} xz)', '(begin (struct Rz9 [(field s: ([]string))]) (def xz (Rz9 s: ["a"])) (aset (hget xz s:) 0 5) xz)']

def run(rep):
    q = C.TIER == 'quick'
    drv = C.build_driver()
    r = random.Random(C.SEED * 7919 + 17)
    ops = C.write_ndjson('recops.ndjson', [[o] for o in [[x[0]] + [y for y in x[1:]] for x in OPS]])
    g = C.tlc('RecordGen', 'SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANT Good\nPROPERTY Inert\nPROPERTY Keeps\nPROPERTY Fixed\nVIEW View\n' % (5 if q else 7), env={'ZV_OPS': ops}, heap='10g', workers=C.NCPU)
    if g.violated:
        raise C.CheckError('the record model is wrong:\n' + g.out[-2000:])
    hs = [[int(x) for x in m[1].split(',')] for m in re.finditer(r'<<"H", ([\d, ]+)>>', g.out)]
    total = len(hs)
    # a history that is the beginning of another needs no run of its own
    pre = {tuple(h[:-1]) for h in hs}
    hs = sorted({tuple(h) for h in hs} - pre)
    r.shuffle(hs)
    cap = 12000 if q else 120000
    ss = []
    for h in hs[:cap]:
        s = Session(r)
        for k in h: s.do(OPS[k - 1])
        ss.append(s)
    nenum = len(ss)
    # every write route, with a value that fits and one that does not
    for kind, routes in (('set', SETS), ('setbad', BAD), ('copy', COPY), ('ptrset', PSET), ('new', NEWS)):
        for rt in sorted(set(routes)):
            for t, good, wrong in ((['b', 'int64'], I(4), ST('4')), (['b', 'string'], ST('b'), I(4)), (['slice', ['b', 'string']], ['arr', [ST('e')]], ['arr', [I(4)]]), (['b', 'float64'], FL, I(2)), (['nm', 'Rb'], ['slot', 1], ['slot', 2]), (['ptr', ['nm', 'Rb']], ['pslot', 1], ['pslot', 2]), (['b', 'bool'], ['b', 'bool', 'true'], ['nil']), (['slice', ['b', 'int64']], ['arr', []], ST(''))):
                s = Session(r)
                s.do(['decl', 'Rb', [['x', ['b', 'int64']]]]); s.do(['decl', 'Ra', [['x', t], ['y', ['b', 'int64']]]])
                s.do(['new', 1, 'Rb', [['sym', 'x', I(6)]]])
                if kind == 'new':
                    s.do(['new', 2, 'Ra', [['sym', 'x', good], ['sym', 'y', I(1)]]], rt); s.do(['new', 3, 'Ra', [['sym', 'x', wrong], ['sym', 'y', I(1)]]], rt); s.do(['new', 4, 'Ra', [['sym', 'y', I(1)], ['sym', 'zq', I(1)]]], rt); s.do(['new', 5, 'Ra', [['sym', 'y', ST('1')], ['sym', 'x', good]]], rt)
                else:
                    s.do(['new', 2, 'Ra', [['sym', 'y', I(1)]]])
                    for _ in range(2):
                        if kind == 'set':
                            for f, v in (('x', good), ('x', wrong), ('zq', good), ('y', I(5)), ('y', good)): s.do(['set', 2, [], f, v], rt)
                        elif kind == 'setbad': s.do(['setbad', 2, 'x', good], rt)
                        elif kind == 'ptrset': s.do(['set', 2, [], 'x', good]); s.do(['ptrset', 2, 'x', wrong], rt); s.do(['ptrset', 2, 'y', ST('s')], rt)
                        else: s.do(['copy', 2, [], 1], rt); s.do(['new', 3, 'Ra', [['sym', 'x', good]]]); s.do(['copy', 3, [], 2], rt)
                        s.do(['decl', 'Ra', [['x', ['b', 'symbol']], ['y', ['b', 'int64']]]])
                ss.append(s)
    nroute = len(ss) - nenum
    for _ in range(4000 if q else 60000):
        ss.append(history(r))
    res = C.run_cases(drv, [s.case() for s in ss], tmo_ms=20000, max_bad=8)
    recs, own, nop = [], [], 0
    for s, x in zip(ss, res):
        if 'skipped' in x: continue
        if 'results' not in x:
            rep.violation(key='crash:' + str(x)[:60], detail='the interpreter dies: ' + str(x)[:300] + ' ' + ' '.join(s.forms)[:500], replay={'case': s.case()}); continue
        recs.append(s.record(x['results'])); own.append(s); nop += len(s.ops)
    bads, st = check(recs)
    def again(s):
        x = C.run_cases(drv, [s.case()], nproc=1)[0]
        if 'results' not in x: return None
        rec = s.record(x['results']); b, _ = check([rec])
        return (b[0], rec, x['results']) if b else None
    for k, i, want in C.until(bads, rep):
        s = own[k]; z = again(s)
        if not z: continue
        (_, i, want), rec, raw = z
        f = s.forms[s.at[i - 1][0]]
        rep.violation(key=f'{rec[i-1][0][0]} {f[:100]}', detail=f'step {i}: {f[:200]} {rec[i-1][1]}: {json.dumps(raw[s.at[i-1][0]])[:150]}; the instances are then {json.dumps(rec[i-1][2])[:400]}; after {[s.forms[p] for p, n in s.at[:i-1]]}; state of the specification {want}',
                      replay={'case': s.case(), 'step': i})
    # the recorded finding, looked at every time
    for x, f in zip(C.run_cases(drv, [{'op': 'session', 'forms': [f], 'noprint': True} for f in ELEMENT]), ELEMENT):
        v = x.get('results', [{}])[0].get('val')
        if v is not None and seen(v) == ['inst', 'Rz9', [['s', ['arr', [I(5)]]]]]:
            rep.violation(key='element write', detail=f'{f} leaves an int64 in a []string field', replay={'form': f})
    rep.cov.update(states=g.distinct, transitions=g.generated, histories_of_the_model=total, trace_states=st, sessions=len(ss), sessions_of_the_model=nenum, sessions_of_routes=nroute, operations=nop, routes=sum(len(set(x)) for x in (SETS, NEST, VIAP, BAD, DELS, COPY, PSET, NEWS)))
    for k in (0, nenum + 3, -1):
        rep.sample({'forms': [own[k].forms[p][:300] for p, n in own[k].at]})
