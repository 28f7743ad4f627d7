"""C12: what is printed reads back as the same data; literals denote exactly what is
written.  Printer.tla gives the meaning of a text and a printer that TLC shows correct
on every small value; the real printer prints those values and many random ones, the
real reader reads the texts, and TLC validates both against the value.  Literals in
every notation go through the real reader and TLC compares their exact value."""
import random, os, json, struct, re
import common as C, reader as R
LEVEL = 'model_checking'

# ------------------------------------------------------------ values
def unval(v):
    """Reader.tla's value -> the driver's"""
    k = v[0]
    num = lambda l: sum(x << (12 * i) for i, x in enumerate(l))
    if k == 'int':
        return {'k': 'int', 'v': str(-num(v[2]) if v[1] else num(v[2]))}
    if k == 'u64':
        return {'k': 'u64', 'v': str(num(v[1]))}
    if k == 'bool':
        return {'k': 'bool', 'v': v[1] == 1}
    if k == 'nil':
        return {'k': 'nil'}
    if k == 'char':
        return {'k': 'char', 'v': v[1]}
    if k == 'str':
        return string(b''.join(bytes([x - 1114112]) if x >= 1114112 else chr(x).encode('utf8') for x in v[1]))
    if k == 'sym':
        return {'k': 'sym', 'v': ''.join(map(chr, v[1]))}
    if k == 'list':
        return {'k': 'list', 'v': [unval(x) for x in v[1]]}
    if k == 'dotted':
        return {'k': 'dotted', 'v': [unval(x) for x in v[1]], 'tail': unval(v[2])}
    if k == 'arr':
        return {'k': 'array', 'v': [unval(x) for x in v[1]]}
    if k == 'hash':
        return {'k': 'hash', 'v': [[unval(a), unval(b)] for a, b in v[1]]}
    raise C.CheckError('unval ' + str(v))

def string(b):
    try:
        return {'k': 'str', 'v': b.decode('utf8')}
    except UnicodeDecodeError:
        return {'k': 'str', 'v': '', 'h': b.hex()}

def val(v):
    if v['k'] == 'hash':
        if v.get('t', 'hash') != 'hash':
            return ['other', 'record']
        return ['hash', [[val(a), val(b)] for a, b in v['v']]]
    if v['k'] == 'array':
        return ['arr', [val(x) for x in v['v']]]
    if v['k'] == 'list':
        return ['list', [val(x) for x in v['v']]]
    if v['k'] == 'dotted':
        return ['dotted', [val(x) for x in v['v']], val(v['tail'])]
    return R.val(v)

def fbits(x):
    return {'k': 'float', 'v': 'nan' if x != x else '%016x' % struct.unpack('>Q', struct.pack('>d', x))[0]}

INTS = [0, 1, -1, 9, 10, -10, 2**31, -2**31, 2**53, 2**53 + 1, -2**53 - 1, 2**63 - 1, -2**63, -2**63 + 1]
FLTS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.1, 1e15, 1e16, 1e17, 123456789012345680.0, 1e18, 9.2e18, 2.0**63, -2.0**63, 2.0**64, 1e19, 1e20, 1e21, 1e22, -1e22, 1e100, 1.7976931348623157e308, -1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, 1e-5, 1e-7, 1.5e-10, 123.456,
        float('inf'), float('-inf'), float('nan'), 2.0**53, 2.0**53 + 2, 4503599627370496.5, 1/3, 2/3, 1e23, 8.5e22, 100.0, -7.0]
SPECIAL = '\x00\x01\x07\x08\t\n\x0b\x0c\r\x1b !"#$%&\'()*+,-./0:;<=>?@A[\\]^_`ax{|}~\x7f\x80\x85\xa0\xadéλ\u0300\u200b\u2028\u202e\u20ac\ud7ff\ue000\ufeff\ufffd\uffff\U00010000\U0001f600\U000e0001\U0010ffff'
NAMES = ['a', 'b', 'abc', 'x1', 'A', 'Inf2', 'nilly', 'e5', 'E', 'truex', 'λ', 'a.b', '.a', 'a.b.c', '+', '-', '*', '/', '**', '=', ':=', '==', '!=', '<', '<=', '>=', '->', '<-', '++', '--', '+=', '-=', 'and', 'or', 'not', 'if', 'for', 'quote', 'hash', 'infix', 'def', '#x', '?b', '$', '$a', '_', 'a_b', '!', 'x?', 'ULL', 'FULL', 'null', 'NULL', 'inf1']
KEYNAMES = ['a', 'b', 'c', 'name', 'x1', 'for', 'if', 'true1', 'λ', 'hash', 'and', 'infix', 'x', 'Zebra', 'a_b', 'e5', 'nil2']

def randfloat(r):
    q = r.random()
    if q < 0.3:
        return r.choice(FLTS)
    if q < 0.5:
        return struct.unpack('>d', struct.pack('>Q', r.getrandbits(64)))[0]
    if q < 0.7:
        return float(r.randint(-10**r.randint(1, 22), 10**r.randint(1, 22)))
    if q < 0.85:
        return round(r.uniform(-1000, 1000), r.randint(0, 6))
    return r.uniform(-1, 1) * 10.0 ** r.randint(-320, 308)

def randchar(r):
    while True:
        q = r.random()
        c = r.choice(SPECIAL) if q < 0.5 else chr(r.randint(32, 126)) if q < 0.7 else chr(r.randint(0, 0x2ff)) if q < 0.8 else chr(r.randint(0, 0x10ffff))
        if not 0xd800 <= ord(c) <= 0xdfff:
            return c

def randstr(r):
    b = ''.join(randchar(r) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 20]))).encode('utf8')
    if r.random() < 0.1:
        b = b[:r.randint(0, len(b))] + bytes([r.randint(128, 255)]) + b[r.randint(0, len(b)):]
    return string(b)

def randint(r):
    return r.choice(INTS) if r.random() < 0.4 else r.randint(-2**63, 2**63 - 1) if r.random() < 0.5 else r.randint(-300, 300)

def data(r, d):
    k = r.choice(['i', 'i', 'f', 'f', 'c', 's', 's', 'y', 'y', 'n', 'b', 'u', 'L', 'L', 'A', 'A', 'D'] if d > 0 else ['i', 'f', 'c', 's', 'y', 'n', 'b', 'u'])
    if k == 'i': return {'k': 'int', 'v': str(randint(r))}
    if k == 'f': return fbits(randfloat(r))
    if k == 'c': return {'k': 'char', 'v': ord(randchar(r))}
    if k == 's': return randstr(r)
    if k == 'y': return {'k': 'sym', 'v': r.choice(NAMES)}
    if k == 'n': return {'k': 'nil'}
    if k == 'b': return {'k': 'bool', 'v': r.random() < 0.5}
    if k == 'u': return {'k': 'u64', 'v': str(r.choice([0, 1, 2**63, 2**64 - 1, r.getrandbits(64)]))}
    n = r.choice([0, 1, 1, 2, 2, 3, 5])
    if k == 'A':
        return {'k': 'array', 'v': [data(r, d - 1) for _ in range(n)]}
    xs = [data(r, d - 1) for _ in range(max(n, 1))]
    if k == 'D':
        t = data(r, d - 1)
        if t['k'] not in ('list', 'nil', 'dotted'):
            return {'k': 'dotted', 'v': xs, 'tail': t}
    return {'k': 'list', 'v': xs}

def jsonv(r, d):
    k = r.choice(['i', 'i', 'f', 's', 's', 'n', 'b', 'A', 'A', 'H', 'H'] if d > 0 else ['i', 'f', 's', 'n', 'b'])
    if k == 'i': return {'k': 'int', 'v': str(randint(r))}
    if k == 'f': return fbits(randfloat(r))
    if k == 's': return randstr(r)
    if k == 'n': return {'k': 'nil'}
    if k == 'b': return {'k': 'bool', 'v': r.random() < 0.5}
    n = r.choice([0, 1, 1, 2, 2, 3, 5])
    if k == 'A':
        return {'k': 'array', 'v': [jsonv(r, d - 1) for _ in range(n)]}
    out, seen = [], set()
    for _ in range(n):
        key = {'k': 'sym', 'v': r.choice(KEYNAMES)} if r.random() < 0.6 else randstr(r)
        s = json.dumps(key)
        if s in seen:
            continue
        seen.add(s)
        out.append([key, jsonv(r, d - 1)])
    return {'k': 'hash', 'v': out}

def deep(r, d, kind):
    """long chains of nesting"""
    v = jsonv(r, 0) if kind == 'eval' else data(r, 0)
    for _ in range(d):
        q = r.random()
        if kind == 'eval' and q < 0.5:
            v = {'k': 'hash', 'v': [[{'k': 'sym', 'v': 'a'}, v]]}
        elif kind == 'data' and q < 0.5:
            v = {'k': 'list', 'v': r.choice([[v], [{'k': 'int', 'v': '-1'}, v], [v, {'k': 'sym', 'v': '-'}]])}
        else:
            v = {'k': 'array', 'v': r.choice([[v], [v, {'k': 'nil'}]])}
    return v

# values that programs compute, rather than ones built by the harness
SRC = ['(concat `a` "`")', '(concat "`" `b`)', '(append `a` \'`\')', '(concat `x"y` "\\n")', '(+ 1.5 1.5)', '(/ 10 2)', '(/ 1 3)', '(* 1.0 10000000000000000000000.0)', '(* 3000000000.0 4000000000.0 2.0)', '(- 0.0 5)', '1e5', '1e300', '1E22', '-1e-5', '1.0e0', '(* 1e5 10)', '0.1', '1_000.5',
       '(list 1 2)', '(cons 1 2)', '(cons 1 (cons 2 3))', '(quote (a b \\ c))', '(rest [1 2 3])', '(slice [1 2 3] 1 2)', '(rest (list 1 2 3))', '(map (fn [x] (* x 2)) [1 2])', '(append [1] 2)', '(concat [1] [2])', '(array 3)', '(makeArray 2 "x")', '(hash a: 1 b: [1 2])', '(let [h (hash a: 1 b: 2)] (hdel h %a) h)',
       '(let [h (hash a: 1)] (hset h %b nil) h)', '{"a":1, "b":[true, false, nil]}', '{`a`: 1}', '{a: {b: {c: -1}}}', '(quote `raw "x"`)', '(sget "é" 1)', '(quote (- Inf))', '(list -Inf Inf)', '[Inf -Inf NaN]', '(list (quote -) Inf)', '(list (quote +) -1)', '[[] [[]] ()]', '(list () ())', '(quote ())', '%a', '^(a ~(+ 1 2))', "'\\n'", "'é'", '"\\x41\\u00e9"', '(str2sym "abc")', '(split "a,b" ",")', '(raw2str (raw "x"))', '(chomp "x\\n")', '(nsplit "a\\nb")', '(type? 3)', '(cons nil nil)', '(list %a: 1)']

# ------------------------------------------------------------ literals
def under(r, s):
    """underscores between digits, not at the front"""
    out = s[0]
    for ch in s[1:]:
        if r.random() < 0.25:
            out += '_' * r.choice([1, 1, 2])
        out += ch
    return out + ('_' if r.random() < 0.1 else '')

def literal(r):
    q = r.random()
    sgn = r.choice(['', '', '-'])
    big = lambda: r.choice([r.randint(0, 20), r.getrandbits(r.randint(1, 64)), 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64, 10**r.randint(0, 20)])
    if q < 0.12: return sgn + str(big())
    if q < 0.2: return sgn + under(r, str(big()))
    if q < 0.28: return sgn + '0x' + r.choice([str, str.upper])('%x' % big())
    if q < 0.34: return sgn + '0o%o' % big()
    if q < 0.4: return sgn + '0b' + bin(big())[2:]
    if q < 0.48: return r.choice([str(big()), '0x%x' % big(), '0o%o' % big(), str(big())]) + 'ULL'
    if q < 0.62:
        a, b = str(r.choice([0, 1, 12, big()])), ''.join(r.choice('0123456789') for _ in range(r.choice([0, 1, 2, 5, 17, 25])))
        if r.random() < 0.3:
            a = under(r, a)
        if b and r.random() < 0.3:
            b = under(r, b)
        if r.random() < 0.15 and b and b[0] != '_':
            return sgn + '.' + b
        return sgn + a + '.' + b
    if q < 0.74:
        m = r.choice([str(big()), '%d.%d' % (r.randint(0, 999), r.randint(0, 10**9)), '1.', under(r, str(big()))])
        return sgn + m + r.choice('eE') + r.choice(['', '-', '+']) + str(r.choice([0, 1, 5, 10, 22, 23, 100, 300, 308, 309, 323, 324, 325, r.randint(0, 340)]))
    if q < 0.78:
        # half way between two doubles, and next to it
        import fractions
        x = abs(struct.unpack('>d', struct.pack('>Q', r.getrandbits(63)))[0])
        if x != x or x in (float('inf'), 0.0) or not 1e-30 < x < 1e30:
            x = r.uniform(1, 2**60)
        y = struct.unpack('>d', struct.pack('>Q', struct.unpack('>Q', struct.pack('>d', x))[0] + 1))[0]
        h = (fractions.Fraction(x) + fractions.Fraction(y)) / 2
        n, d, k = h.numerator, h.denominator, 0
        while d % 10 == 0: d //= 10
        while d > 1:
            n *= 5 if d % 2 == 0 else 1; d = d // 2; k += 1
        s = str(n + r.choice([0, 0, 1, -1])).rjust(k + 1, '0')
        return sgn + (s[:-k] + '.' + s[-k:] if k else s + '.0')
    if q < 0.82: return r.choice(['Inf', '-Inf', '+Inf', 'inf', '-inf', '- Inf', '+ Inf', 'NaN', 'nan', 'true', 'false', 'nil', '()'])
    if q < 0.91: return "'" + escaped(r, randchar(r), "'") + "'"
    t = ''.join(escaped(r, randchar(r), '"') for _ in range(r.choice([0, 1, 2, 4])))
    if r.random() < 0.3:
        return '`' + ''.join(randchar(r) for _ in range(r.randint(0, 6))).replace('`', '') + '`'
    return '"' + t + '"'

def escaped(r, c, q):
    simple = {'\n': 'n', '\r': 'r', '\t': 't', '\a': 'a', '\b': 'b', '\f': 'f', '\v': 'v', '\\': '\\', '"': '"', "'": "'", '#': '#'}
    x = r.random()
    if c in simple and (x < 0.5 or c in ('\\', q)):
        return '\\' + simple[c]
    if x < 0.7 and c not in ('\\', q):
        return c
    n = ord(c)
    if n < 256 and (n < 128 or q == "'") and x < 0.85:
        return '\\x%02x' % n
    if n < 65536 and x < 0.95:
        return '\\u%04x' % n if r.random() < 0.5 else '\\u%04X' % n
    return '\\U%08x' % n

def setting(r, l):
    return r.choice(['%s', '%s', '%s', '(%s)', '(a %s)', '[%s 1]', '[1, %s]', '[1,%s]', '{a:%s}', '{a: %s}', '(f x:%s)', '(- %s)', '(a \\ %s)', ' %s // c', '{x = %s}', '{x=%s}', '{1 + %s}', '%%%s', '(%s -1)', '\n%s\n', '{x - %s}', '/* c */%s']) .replace('%%', '\x00').replace('%s', l).replace('\x00', '%')

# ------------------------------------------------------------ the check
def text_cps(b):
    return R.cps(b)

class Prints:
    def __init__(self, rep, drv):
        self.rep, self.drv = rep, drv
        self.recs, self.src = [], []
        self.n = dict(values=0, texts=0, readings=0)

    def run(self, kind, vals, pretty, per=40):
        cases = [{'op': 'print', 'vals': vals[i:i + per], 'eval': kind == 'eval', 'pretty': pretty} for i in range(0, len(vals), per)]
        res = C.run_cases(self.drv, cases, tmo_ms=20000, max_bad=6)
        for c, rr in zip(cases, res):
            if 'skipped' in rr:
                continue
            if 'r' not in rr:
                again = C.run_cases(self.drv, [c], tmo_ms=30000, nproc=1)[0]
                if 'r' not in again:
                    self.rep.violation(key='crash:' + json.dumps(c)[:100], detail=str(again)[:400], replay={'case': c})
                continue
            for v, x in zip(c['vals'], rr['r']):
                self.add(kind, c, v, x)

    def add(self, kind, c, v, x):
        if 'srcerr' in x:
            return
        self.n['values'] += 1
        orig = val(x['was'] if 'was' in x else v)
        for t in x['texts']:
            self.n['texts'] += 1
            if 'panic' in t:
                self.recs.append({'v': orig, 't': [], 'e': 0, 'r': [['panic', ['nil']]]}); self.src.append((kind, c, v, t, [['print']])); continue
            rs, hows = [], []
            def put(st, x, how):
                if [st, x] in rs:
                    hows[rs.index([st, x])].append(how)
                else:
                    rs.append([st, x]); hows.append([how])
            for how, q in sorted(t['reads'].items()):
                st = q['st']
                xs = q.get('xs', [])
                if st == 'ok' and len(xs) != 1:
                    st = 'not one'
                if kind == 'eval' and how in ('parse', 'read', 'quote', 'listed'):
                    # as data a hash is still the form that builds it
                    if st != 'ok':
                        put(st, ['nil'], how)
                    continue
                put(st, val(xs[0]) if st == 'ok' else ['nil'], how)
                self.n['readings'] += 1
            b = t['t'].encode('utf8', 'surrogatepass')
            self.recs.append({'v': orig, 't': R.cps(t['t']), 'e': 1 if kind == 'eval' else 0, 'r': rs}); self.src.append((kind, c, v, t, hows))

    def validate(self):
        w = C.work(); st = [0, 0]
        seen, uniq = {}, []
        for i, x in enumerate(self.recs):
            k = json.dumps(x)
            if k not in seen:
                seen[k] = i; uniq.append(i)
        self.uniq = len(uniq)
        f = os.path.join(w, 'prints.ndjson')
        for o in range(0, len(uniq), 50000):
            C.write_ndjson(f, [self.recs[i] for i in uniq[o:o + 50000]])
            t = C.tlc('PrintTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': f}, heap='8g')
            st[0] += t.distinct; st[1] += t.generated
            bads = list(re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\d+)\s*>>', t.out))
            self.n['mismatches'] = self.n.get('mismatches', 0) + len(bads)
            for m in C.until(bads, self.rep):
                i = uniq[o + int(m.group(1)) - 1]
                self.confirm(i, m.group(2) == '1', int(m.group(3)))
        return st

    def confirm(self, i, textok, j):
        kind, c, v, t, hows = self.src[i]
        one = {**c, 'vals': [v]}
        again = C.run_cases(self.drv, [one], nproc=1)[0]
        if 'r' not in again:
            return
        texts = again['r'][0].get('texts', [])
        same = [x for x in texts if x.get('t') == t.get('t')]
        if not same:
            return
        how = hows[j - 1][0] if j else 'text'
        got = same[0].get('reads', {}).get(how) if j and 'reads' in same[0] else None
        if j and got != t.get('reads', {}).get(how):
            return
        what = json.dumps(v.get('src', v))
        self.rep.violation(key=f'{how}:{what[:80]}', detail=f"value {what[:200]} prints as {t.get('t')!r:.200}{'' if textok else ' (which denotes something else)'}; {how}: {json.dumps(got)[:300]}", replay={'case': one})

def run(rep):
    import time, sys; T0 = time.time()
    def tick(x):
        if os.environ.get('ZV_VERBOSE'): print('%6.1f %s' % (time.time() - T0, x), file=sys.stderr)
    r = random.Random(C.SEED * 7919 + 12)
    thorough = C.TIER == 'thorough'
    drv = C.build_driver()
    out = os.path.join(C.work(), 'values.ndjson')
    g = C.tlc('PrintGen', 'SPECIFICATION Spec\nINVARIANT RoundTrip\n', env={'ZV_OUT': out}, heap='8g')
    if g.violated:
        raise C.CheckError('the model breaks its own invariant' + g.out[-1500:])
    P = Prints(rep, drv)
    small = [json.loads(l) for l in open(out)]
    for kind in ('data', 'eval'):
        vals = [unval(v) for k, v in small if k == kind]
        if not thorough:
            vals = [v for i, v in enumerate(vals) if (i + C.SEED) % 2 == 0 or v['k'] not in ('list', 'array', 'hash', 'dotted')]
        P.run(kind, vals, False)
        P.run(kind, r.sample(vals, min(len(vals), 4000 if thorough else 400)), True)
    n = 30000 if thorough else 2500
    singles = [{'k': 'int', 'v': str(x)} for x in INTS] + [fbits(x) for x in FLTS] + [{'k': 'char', 'v': ord(x)} for x in SPECIAL] + [string(x.encode()) for x in SPECIAL] + [{'k': 'sym', 'v': x} for x in NAMES] + [fbits(randfloat(r)) for _ in range(n // 5)] + [string(bytes([x])) for x in range(128, 256)]
    P.run('data', singles, False)
    P.run('eval', [x for x in singles if x['k'] not in ('sym', 'char')], False)
    P.run('data', [data(r, r.randint(1, 4)) for _ in range(n)] + [deep(r, d, 'data') for d in ([5, 20, 60] if not thorough else [5, 20, 60, 200, 500])], False)
    P.run('data', [data(r, r.randint(1, 3)) for _ in range(n // 5)], True)
    P.run('eval', [jsonv(r, r.randint(1, 4)) for _ in range(n)] + [deep(r, d, 'eval') for d in ([5, 20, 60] if not thorough else [5, 20, 60, 200])], False)
    P.run('eval', [jsonv(r, r.randint(1, 3)) for _ in range(n // 5)], True)
    P.run('data', [{'k': 'src', 'src': s} for s in SRC if 'hash' not in s and '{' not in s and 'h' != s[1:2]], False)
    P.run('eval', [{'k': 'src', 'src': s} for s in SRC if 'hash' in s or '{' in s], False)
    # values as literals make them: how a number was written can change how it prints
    wr = [repr(randfloat(r)) for _ in range(60)] + ['%.*e' % (r.randint(0, 17), randfloat(r)) for _ in range(120)] + [literal(r) for _ in range(240)]
    wr = [w for w in wr if '\n' not in w and w not in ('nan', 'inf', '-inf')]
    P.run('data', [{'k': 'src', 'src': '(quote %s)' % w} for w in wr], False)
    P.run('data', [{'k': 'src', 'src': r.choice(['(list %s)', '[%s]', '(cons 1 (list %s))', '(quote (a %s))', '(list [%s])']) % ' '.join(x)} for x in ([r.choice(wr) for _ in range(r.randint(1, 4))] for _ in range(80))], False)
    tick('validate')
    st = P.validate()
    tick('literals')
    # literals
    lits = []
    for _ in range(60000 if thorough else 8000):
        l = literal(r)
        lits.append(setting(r, l))
    lits = list(dict.fromkeys(lits))
    cases = [{'op': 'read', 'own': True, 'texts': [[t] for t in lits[i:i + 100]]} for i in range(0, len(lits), 100)]
    res = C.run_cases(drv, cases, tmo_ms=10000, max_bad=6)
    recs, src = [], []
    for c, x in zip(cases, res):
        if 'r' not in x:
            if 'skipped' not in x:
                rep.violation(key='literals:' + json.dumps(c)[:60], detail=str(x)[:300], replay={'case': c})
            continue
        for t, q in zip(c['texts'], x['r']):
            recs.append(R.record(t[0], q, [len(t[0])])); src.append(t[0])
    tick('check')
    bad, st2 = R.check(recs)
    tick('end')
    for i in C.until(sorted(bad), rep):
        one = {'op': 'read', 'own': True, 'texts': [[src[i]]]}
        x = C.run_cases(drv, [one], nproc=1)[0]
        if 'r' not in x:
            continue
        b, _ = R.check([R.record(src[i], x['r'][0], [len(src[i])])], say=True)
        if b:
            rep.violation(key='literal:' + src[i][:60], detail=f"{src[i]!r}: the specification says {b[0][1]}{b[0][2][:200]}; the reader gave {json.dumps(x['r'][0])[:300]}", replay={'case': one})
    rep.cov.update(values=P.n['values'], mismatches=P.n.get('mismatches', 0) + len(bad), texts=P.n['texts'], readings=P.n['readings'], values_enumerated=len(small), literals=len(lits), literal_errors=sum(x['q'][0][1] == 'err' for x in recs),
                   states=g.distinct + st[0] + st2[0], transitions=g.generated + st[1] + st2[1], traces_validated_against_impl=P.uniq + len(recs))
    rep.sample({'value': small[17], 'literal': lits[0]})
    rep.assumptions = ['a float may print as an integer of equal value', 'symbols are the ones that a reader can produce', 'characters are Unicode scalar values']
