"""C07: numbers.  Numbers.tla defines order and arithmetic exactly (arbitrary
precision in TLA+); the real interpreter evaluates every operation on pairs of
operands, and NumbersTrace.tla judges every answer."""
import json, random, re, struct, itertools
import common as C
LEVEL = 'model_checking'
M64 = (1 << 64) - 1
def fb(x): return struct.unpack('>Q', struct.pack('>d', x))[0]

INTS = sorted({v & M64 for v in [0, 1, -1, 2, -2, 3, 7, -7, 10, 255, 2**31 - 1, -2**31, 2**32, 2**52 + 1, 2**53 - 1, 2**53, 2**53 + 1, -2**53 - 1, 2**53 + 3,
         2**62, -2**62, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 2**63 - 512, 2**63 - 1024, 3037000500, 6148914691236517205]})
U64S = sorted({0, 1, 2, 3, 2**53 + 1, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 1, 2**64 - 2, 2**32, 10})
CHARS = [0, 1, 97, 98, 0x10FFFF, 0x7FFFFFFF, 0xFFFFFFFF, 0x80000000]
FLTS = sorted({fb(x) for x in [0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 3.0, 97.0, 1e308, -1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308, 2.225073858507201e-308,
         2.0**53, 2.0**53 + 2, 2.0**62, 2.0**63, -2.0**63, 2.0**63 - 1024, -2.0**63 - 2048, 2.0**64, 0.1, 1/3, 1e-10, 1e22, 9007199254740993.0, float('inf'), float('-inf')]}
         | {fb(-0.0), 0x7FF8000000000001, 0xFFF8000000000000, 0x7FF0000000000001})

def pool():
    return ([('int', v) for v in INTS] + [('u64', v) for v in U64S] + [('char', v) for v in CHARS] + [('float', v) for v in FLTS])

def randnum(rng):
    k = rng.choice(['int', 'int', 'float', 'float', 'u64', 'char'])
    if k == 'char':
        return k, rng.choice([rng.getrandbits(32), rng.randrange(0x110000), rng.randrange(256)])
    if k == 'float':
        m = rng.random()
        if m < 0.3:
            return k, rng.getrandbits(64)
        if m < 0.6:      # exponents close together, so that rounding matters
            return k, (rng.getrandbits(1) << 63) | (rng.randrange(1023 - 60, 1023 + 66) << 52) | rng.getrandbits(52)
        if m < 0.7:
            return k, (rng.getrandbits(1) << 63) | (rng.choice([0, 1, 2, 2045, 2046]) << 52) | rng.getrandbits(52)
        return k, fb(float(rng.choice([rng.randrange(-1000, 1000), rng.randrange(-2**63, 2**63), rng.randrange(-1000, 1000) / 8])))
    v = rng.choice([rng.getrandbits(64), rng.getrandbits(rng.randrange(1, 64)), -rng.getrandbits(rng.randrange(1, 64)), rng.choice(INTS) + rng.randrange(-3, 4)])
    return k, v & M64

def near(rng, a):
    """an operand close to a, possibly of another kind"""
    k, v = a
    if k == 'float':
        x = struct.unpack('>d', struct.pack('>Q', v))[0]
        if x == x and abs(x) < 2**63 - 2048 and rng.random() < 0.5:
            return 'int', (int(x) + rng.randrange(-2, 3)) & M64
        return 'float', (v + rng.randrange(-2, 3)) & M64
    if k == 'char':
        return rng.choice([('char', (v + rng.randrange(-1, 2)) & 0xFFFFFFFF), ('int', (v + rng.randrange(-1, 2)) & M64)])
    sv = v - (1 << 64) if k == 'int' and v >> 63 else v
    return rng.choice([(k, (v + rng.randrange(-1, 2)) & M64), ('float', (fb(float(sv)) + rng.randrange(-1, 2)) & M64), (k, (-v) & M64), (k, v ^ (1 << 63))])

def run(rep):
    rng = random.Random(C.SEED)
    thorough = C.TIER == 'thorough'
    drv = C.build_driver()
    forms = ['prefix', 'infix', 'apply', 'elem']
    cases = []
    P = pool()
    for n, (a, b) in enumerate(itertools.product(P, P)):
        cases.append({'op': 'num', 'a': [a[0], '%x' % a[1]], 'b': [b[0], '%x' % b[1]], 'form': forms[n % 4 if n % 3 == 0 else 0]})
    nex = len(cases)
    for n in range(60000 if thorough else 3500):
        a = randnum(rng)
        b = near(rng, a) if rng.random() < 0.5 else randnum(rng)
        if rng.random() < 0.5:
            a, b = b, a
        if rng.random() < 0.15 and a[0] != 'float' and b[0] == a[0]:     # an exact multiple
            q = rng.randrange(1, 1 << 20)
            a = (a[0], (b[1] * q) & (M64 if a[0] != 'char' else 0xFFFFFFFF))
        cases.append({'op': 'num', 'a': [a[0], '%x' % a[1]], 'b': [b[0], '%x' % b[1]], 'form': rng.choice(forms)})
    res = C.run_cases(drv, cases)
    rows, back = [], []
    for ci, (c, r) in enumerate(zip(cases, res)):
        if 'cmp' not in r:
            rep.violation(['nores', c['a'], c['b']], r, {'case': c})
            continue
        rows.append(r); back.append(ci)
    bad = {}
    states = trans = 0
    B = 12000
    for s in range(0, len(rows), B):
        pc = C.write_ndjson('num.ndjson', rows[s:s+B])
        t = C.tlc('NumbersTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': pc}, heap='10g')
        states += t.distinct; trans += t.generated
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\{[^}]*\})\s*>>', t.out):
            bad[back[s + int(m.group(1)) - 1]] = m.group(2)
    for ci in C.until(sorted(bad), rep):
        again = C.run_cases(drv, [cases[ci]], nproc=1)[0]
        ops = set(re.findall(r'"([^"]+)"', bad[ci]))
        got = [x for x in again.get('cmp', []) + again.get('arith', []) if x[0] in ops]
        rep.violation([cases[ci]['a'], cases[ci]['b'], sorted(ops)], f'form {cases[ci]["form"]}: {json.dumps(got)}', {'case': cases[ci]})
    rep.cov.update(states=states, transitions=trans, traces_validated_against_impl=len(rows), boundary_pairs=nex, random_pairs=len(cases) - nex,
                   results_judged=11 * len(rows))
    for ci in (0, nex // 2, len(cases) - 1):
        rep.sample(cases[ci])
    rep.assumptions += ['signed/unsigned mixed comparison and division are not promised and not judged', 'a float divisor of zero may give the IEEE result or an error',
                        'char arithmetic is judged modulo 2^32 when the answer is a char']
