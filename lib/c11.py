"""C11: JSON and msgpack encodings round-trip and are well-formed.  Codec.tla says which
code points are JSON and which bytes msgpack, what they denote, and how data is encoded;
TLC shows the encoding unambiguous on every small value.  Those values and many random
ones go through the real encoders and decoders (also in another interpreter), and TLC
validates the texts, the bytes and the values that come back."""
import random, os, json, re
import common as C, reader as R
import c12 as V
LEVEL = 'model_checking'

def unval(v):
    if v[0] == 'rec':
        return {'k': 'hash', 't': ''.join(map(chr, v[1])), 'v': [[unval(a), unval(b)] for a, b in v[2]]}
    if v[0] == 'arr':
        return {'k': 'array', 'v': [unval(x) for x in v[1]]}
    if v[0] == 'float':
        m = sum(x << (12 * i) for i, x in enumerate(v[3]))
        import math
        return V.fbits((-1 if v[2] else 1) * math.ldexp(m, v[4]))
    return V.unval(v)

def cval(v):
    k = v['k']
    if k == 'hash':
        return ['rec', R.cps(v.get('t', 'hash')), [[cval(a), cval(b)] for a, b in v['v']]]
    if k == 'array':
        return ['arr', [cval(x) for x in v['v']]]
    if k == 'selector' and 'v' in v:
        return cval(v['v'])
    return R.val(v)

RESERVED = ('Atype', 'zKeyOrder')
TYPES = ['hash', 'hash', 'hash', 'ranch', 'Zebra', 'a_b', 'λ', 'castle']
def plain(v):
    """only what the property is about"""
    k = v['k']
    if k == 'hash':
        return all(a['k'] in ('sym', 'str') and plain(a) and plain(b) for a, b in v['v'])
    if k == 'array':
        return all(plain(x) for x in v['v'])
    return k in ('int', 'float', 'u64', 'bool', 'nil', 'str', 'sym') and 'h' not in v

def rstr(r):
    while True:
        s = V.randstr(r)
        if 'h' not in s:
            return s

ESCY = ['"', '\\', '\\"', '\\n', '\\u0041', '\n', '\t', '\r', '\x00', '\x07', '\x0b', '\x1f', '\x7f', '\x80', '\x85', '\xa0', '\u2028', '\u2029', '\ufeff', '\ufffe', '\U0001f600', '\U0010ffff', "'", '`', '/', '</script>', '<', '&', '{', '}', ',', ':', '[]', 'nil', 'null', 'true', '7ULL', '1e5', '\\', '\\\\', '%s', '%d', '$', ' ', '  a ', 'é', 'e\u0301', '\u202e', 'a\\']
def name(r):
    q = r.random()
    if q < 0.55:
        return r.choice(V.KEYNAMES + ['k%d' % i for i in range(6)])
    if q < 0.8:
        return r.choice(ESCY)
    if q < 0.9:
        return r.choice(['', 'Atyp', 'Atypes', 'atype', 'zKeyOrde', 'zKeyOrder2', 'zkeyorder', 'A', 'z', 'zz', 'Azz', '1', '-', 'a.b', ' '])
    return rstr(r)['v']

def value(r, d):
    k = r.choice(['i', 'i', 'f', 'u', 's', 's', 's', 'n', 'b', 'A', 'A', 'H', 'H', 'H'] if d > 0 else ['i', 'f', 's', 's', 'n', 'b'])
    if k == 'i': return {'k': 'int', 'v': str(V.randint(r))}
    if k == 'u': return {'k': 'u64', 'v': str(r.choice([0, 1, 2**63 - 1, 2**63, 2**64 - 1, r.getrandbits(64)]))}
    if k == 'f':
        while True:
            f = V.fbits(V.randfloat(r))
            if r.random() < 0.02 or f['v'] != 'nan' and int(f['v'], 16) >> 52 & 2047 != 2047:
                return f
    if k == 's': return {'k': 'str', 'v': r.choice(ESCY)} if r.random() < 0.3 else rstr(r)
    if k == 'n': return {'k': 'nil'}
    if k == 'b': return {'k': 'bool', 'v': r.random() < 0.5}
    n = r.choice([0, 1, 1, 2, 2, 3, 3, 5, 8, 16, 17] if d < 3 else [0, 1, 2, 3])
    if k == 'A':
        return {'k': 'array', 'v': [value(r, d - 1) for _ in range(n)]}
    out, seen = [], set(RESERVED)
    for _ in range(n):
        s = name(r)
        if s in seen:
            continue
        seen.add(s)
        out.append([{'k': 'sym' if r.random() < 0.75 else 'str', 'v': s}, value(r, d - 1)])
    return {'k': 'hash', 't': r.choice(TYPES) if r.random() < 0.95 else r.choice(ESCY), 'v': out}

SRC = ['(defmap ranch) (ranch cowboy:"Jim" cows:["Zelda" "\\"B\\"" "\\\\"] n:nil)', '(defmap ranch) (ranch a:(ranch z:1 y:(ranch) x:[(ranch b:2 a:1)]) b:(hash q:1 p:2))',
       '{"a":1, "b":[true, false, nil], "c":{"d":"e\\n", "A":1.5}}', '{`a"b`: 1, "c": `x\\y`}', '{"z":{"y":{"x":[{"w":1},{"v":"\\u2028"}]}}}', '{"":""}', '{"\\"":"\\"", "\\\\":"\\\\"}',
       '(struct Car [(field id: int64) (field name: string)]) (Car name:"a\\"b" id:3)', '(struct Inner [(field x: int64)]) (struct Outer [(field a: string) (field i: Inner) (field b: string)]) (Outer b:"1" i:(Inner x:4) a:"2")',
       '(eventdemo id:123 user: (persondemo first:"Liz" last:"C") flight:"AZ\\tD" pilot:["Roger" "Ernie"] cancelled:true)',
       '(let [h (hash z: 1 a: 2 m: 3)] (hdel h %a) (hset h %a 4) (hset h %z 9) h)', '(let [h (hash b: 1 a: 2)] (hdel h %b) h)', '(let [h (hash a: 1)] (hdel h %a) h)', '(let [h (hash a: 1)] (hdel h %a) (hset h %b 2) (hset h %a 3) h)',
       '(hash a: (rest [1 2 3]) b: (slice ["x" "y" "z"] 1 2))', '(let [h (hash)] (hset h (str2sym "a\\"b") 1) (hset h (str2sym ",") 2) (hset h (str2sym ":") 3) (hset h (str2sym "") 4) h)',
       '(let [a [1 2] ] (hash x: a y: a))', '(let [h (hash q: 1)] (hash x: h y: [h h]))', '(hash f: 1e5 g: 1E22 h: 1.50 i: -1e-5 j: 0x10 k: 1_000 l: 0.1e1 m: 123456789012345678901234567890.0)',
       '(hash a: `raw"\\x` b: (concat `a` "`"))', '[1e100 1e21 1e20 5e-324 -0.0 2.5e-8 1E3]', '"\\x41\\u00e9\\U0001f600"', '`back\\slash`', '{a: 1, b: {c: -1}}', '(hash a: 7ULL b: 0xffffffffffffffffULL)',
       '(map (fn [x] (hash v: x)) [1 2 3])', '(append [1] {"a":2})', '(unjson (json (hash b: 1 a: 2)))', '(let [h (unjson (json (hash b: 1 a: 2)))] (hset h %c 3) (hdel h %b) h)', '(let [h (unmsgpack (msgpack (hash zz: 1 b: 2)))] (hset h %a 3) (hset h %zz 4) h)']
# reserved names: the value of such a field is taken for metadata
KNOWN = [('F-C11-reserved', {'k': 'hash', 't': 'hash', 'v': [[{'k': 'sym', 'v': n}, {'k': 'str', 'v': 'x'}], [{'k': 'sym', 'v': 'b'}, {'k': 'int', 'v': '2'}]]}) for n in RESERVED]

class Codec:
    def __init__(self, rep, drv):
        self.rep, self.drv, self.recs, self.src = rep, drv, [], []
        self.n = dict(values=0, json_texts=0, msgpack_messages=0, values_decoded=0, refused=0)

    def run(self, vals, per=40):
        cases = [{'op': 'codec', 'vals': vals[i:i + per]} for i in range(0, len(vals), per)]
        for c, rr in zip(cases, C.run_cases(self.drv, cases, tmo_ms=20000, max_bad=6)):
            if 'skipped' in rr:
                continue
            if 'r' not in rr:
                for v in c['vals']:      # which of them
                    one = {'op': 'codec', 'vals': [v]}
                    x = C.run_cases(self.drv, [one], nproc=1)[0]
                    if 'r' not in x:
                        self.rep.violation(key='crash:' + json.dumps(v)[:80], detail=f'encoding {json.dumps(v)[:200]} kills the interpreter: {str(x)[:300]}', replay={'case': one})
                        break
                continue
            for v, x in zip(c['vals'], rr['r']):
                self.add(v, x)

    def record(self, v, x):
        was = x['was'] if 'was' in x else v
        if not plain(was):
            return None
        def text(t):
            s = R.cps(t['t']) if 't' in t else [0]
            return s
        j = [[t['how'], t['st'], text(t) if t['st'] == 'ok' else [], 1 if t.get('valid') else 0] for t in x['j']]
        m = [[t['how'], t['st'], list(bytes.fromhex(t['h'])) if t['st'] == 'ok' else []] for t in x['m']]
        d = [[t['how'], t['st'], cval(t['v']) if t['st'] == 'ok' else ['nil']] for t in x['d']]
        # the same text or value by several ways is checked once
        def uniq(l):
            seen, out = {}, []
            for e in l:
                k = json.dumps(e[1:])
                if k not in seen:
                    seen[k] = len(out); out.append([e[0]] + e[1:])
            return out
        return {'v': cval(was), 'j': uniq(j), 'm': m, 'd': uniq(d)}

    def add(self, v, x):
        if 'srcerr' in x:
            return
        rec = self.record(v, x)
        if rec is None:
            return
        self.n['values'] += 1; self.n['json_texts'] += len(x['j']); self.n['msgpack_messages'] += len(x['m']); self.n['values_decoded'] += len(x['d'])
        self.n['refused'] += any(t['st'] == 'err' for t in x['j'])
        self.recs.append(rec); self.src.append(v)

    def tlc(self, recs):
        f = os.path.join(C.work(), 'codec.ndjson')
        bad, st = [], [0, 0]
        for o in range(0, len(recs), 20000):
            C.write_ndjson(f, recs[o:o + 20000])
            t = C.tlc('CodecTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': f}, heap='8g')
            st[0] += t.distinct; st[1] += t.generated
            bad += [(o + int(m.group(1)) - 1,) + tuple(int(m.group(i)) for i in range(2, 6)) for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', t.out)]
        return bad, st

    def validate(self):
        bad, st = self.tlc(self.recs)
        self.n['mismatches'] = len(bad)
        for b in C.until(sorted(bad, key=lambda b: len(json.dumps(self.src[b[0]]))), self.rep):
            self.confirm(self.src[b[0]])
        return st

    def confirm(self, v, key=None):
        one = {'op': 'codec', 'vals': [v]}
        x = C.run_cases(self.drv, [one], nproc=1)[0]
        if 'r' not in x:
            return
        rec = self.record(v, x['r'][0])
        bad, _ = self.tlc([rec])
        if not bad:
            return False
        _, j, m, d, g = bad[0]
        if g and not (j or m or d):
            raise C.CheckError('encoding/json and Codec.tla differ on ' + repr(x['r'][0]['j']))
        say = []
        if j: say.append(f"the JSON text from {rec['j'][j - 1][0]} is malformed or denotes something else: {[t for t in x['r'][0]['j'] if t['how'] == rec['j'][j - 1][0]][0]}")
        if m: say.append(f"the msgpack message is malformed or denotes something else: {x['r'][0]['m']}")
        if d: say.append(f"{rec['d'][d - 1][0]} gives something else: {[t for t in x['r'][0]['d'] if t['how'] == rec['d'][d - 1][0]][0]}")
        what = json.dumps(v.get('src', v))
        self.rep.violation(key=key or what[:100], detail=f'value {what[:300]}: ' + ('; '.join(say))[:700], replay={'case': one})
        return True

def run(rep):
    r = random.Random(C.SEED * 6007 + 11)
    thorough = C.TIER == 'thorough'
    drv = C.build_driver()
    out = os.path.join(C.work(), 'values.ndjson')
    g = C.tlc('CodecGen', 'SPECIFICATION Spec\nINVARIANT RoundTrip\nINVARIANT Unique\nINVARIANT Cut\n', env={'ZV_OUT': out}, heap='8g')
    if g.violated:
        raise C.CheckError('the model breaks its own invariant' + g.out[-1500:])
    K = Codec(rep, drv)
    small = [unval(json.loads(l)) for l in open(out)]
    K.run(small)
    one = lambda s: {'k': 'str', 'v': s}
    sym = lambda s: {'k': 'sym', 'v': s}
    rec = lambda *ps, t='hash': {'k': 'hash', 't': t, 'v': [list(p) for p in ps]}
    singles = [{'k': 'int', 'v': str(x)} for x in V.INTS] + [V.fbits(x) for x in V.FLTS] + [one(s) for s in V.SPECIAL] + [one(s) for s in ESCY] + [V.fbits(V.randfloat(r)) for _ in range(200)]
    # every code point up to 0x180, and around the borders of UTF-8's and UTF-16's ranges
    cps = list(range(0x180)) + [0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x100000, 0x10ffff]
    singles += [one('x' + chr(x) + 'y') for x in cps] + [rec([sym('k' + chr(x)), one(chr(x))], [{'k': 'str', 'v': chr(x)}, {'k': 'nil'}]) for x in cps]
    # sizes at the borders of msgpack's formats
    for n in (15, 16, 31, 32, 255, 256, 300):
        singles += [one('s' * n), one('é' * n), {'k': 'array', 'v': [{'k': 'int', 'v': str(i % 2)} for i in range(n)]}]
    for n in (13, 14, 15, 16, 17, 40):
        singles.append(rec(*[[sym('f%d' % ((i * 7) % n if n % 7 else i)), {'k': 'int', 'v': str(i)}] for i in range(n)]))
    for e in range(0, 65):
        for x in (2**e - 1, 2**e, -2**e, -2**e - 1):
            if -2**63 <= x < 2**63:
                singles.append({'k': 'array', 'v': [{'k': 'int', 'v': str(x)}, V.fbits(float(x))]})
    K.run(singles)
    K.run([value(r, r.randint(1, 4)) for _ in range(30000 if thorough else 2500)])
    v = {'k': 'str', 'v': '"'}
    for i in range(60):
        v = rec([sym('z'), {'k': 'nil'}], [sym('a'), v], t=['hash', 'ranch'][i % 2]) if i % 3 else {'k': 'array', 'v': [v]}
    K.run([v])
    K.run([{'k': 'src', 'src': s} for s in SRC], per=1)
    st = K.validate()
    for key, v in KNOWN:
        K.confirm(v, key)
    rep.cov.update(values_enumerated=len(small), states=g.distinct + st[0], transitions=g.generated + st[1], traces_validated_against_impl=len(K.recs), **K.n)
    rep.sample({'value': K.src[100], 'record': K.recs[100]})
    rep.assumptions = ['infinities and NaN have no JSON representation: the encoders must refuse them', 'string keys come back as symbols of the same name', 'numbers are compared by value', 'strings are valid UTF-8']
