"""C14: hashes are insertion-ordered maps.  OMapGen.tla enumerates every history
of set/delete over a universe of key expressions; every history is replayed on
the real hash; OMapTrace.tla validates what the real hash showed after every
operation (and after long random histories with other write routes)."""
import json, random, re
import common as C

def universe(keys):
    def unwrap(s):
        while s.startswith('arr1:'):
            s = s[5:]
        return s
    def cls(s):
        s = unwrap(s)
        kind, _, rest = s.partition(':')
        if kind in ('intsym', 'chrsym'):
            return 'n:sym:' + rest
        if kind == 'intstr':
            return 'n:str:' + rest
        if kind in ('int', 'chr'):
            return 'n:' + rest
        return s
    norm, classes, cl = [], {}, []
    for k in keys:
        norm.append([unwrap(x) for x in keys].index(unwrap(k)) + 1)
        cl.append(classes.setdefault(cls(k), len(classes) + 1))
    enc = all(k.startswith('sym:') for k in keys)
    return {'n': len(keys), 'keys': keys, 'norm': norm, 'class': cl, 'enc': enc}

COLLIDE = ['sym:a', 'intsym:a', 'chrsym:a', 'str:x', 'intstr:x']
ARRAYS = ['int:7', 'arr1:int:7', 'arr2:int:7', 'chr:97', 'int:97']
SYMS = ['sym:a', 'sym:b', 'sym:c', 'sym:d']
WIDE = ['sym:a', 'intsym:a', 'chrsym:a', 'str:x', 'intstr:x', 'str:a', 'arr1:str:a', 'arr2:sym:a', 'arr2:int:3',
        'int:3', 'arr1:arr1:int:3', 'int:-1', 'chr:3', 'int:9223372036854775807', 'str:', 'sym:x']
SYMW = ['sym:' + x for x in 'a b c d e f zeta Alpha k1 k2'.split()]

def histories(u, depth):
    p = C.write_ndjson('univ.ndjson', [u])
    r = C.tlc('OMapGen', f'SPECIFICATION Spec\nCONSTANT Depth = {depth}\nINVARIANTS Distinct Latest Emit\nPROPERTIES Frame Order\n', env={'ZV_UNIV': p})
    if r.violated:
        raise C.CheckError('OMapGen law violated\n' + r.out[-2000:])
    hs = [json.loads('[' + m + ']') for m in re.findall(r'<<"H"((?:, \d+)+)>>', r.out.replace('\n', ' ')) for m in [m[2:]]]
    return r, hs

def run(rep):
    rng = random.Random(C.SEED)
    thorough = C.TIER == 'thorough'
    drv = C.build_driver()
    univs, cases, meta = [], [], []
    states = trans = 0
    for keys, depth in ([(COLLIDE, 5), (ARRAYS, 5), (SYMS, 6), (WIDE[:7], 4)] if thorough else [(COLLIDE, 4), (ARRAYS, 3), (SYMS, 4)]):
        u = universe(keys)
        univs.append(u)
        r, hs = histories(u, depth)
        states += r.distinct; trans += r.generated
        for h in hs:
            ops = []
            for n, x in enumerate(h):
                k = x // 2
                if x % 2:
                    ops.append(['del', k, 0])
                else:
                    nm = 'set'
                    if n % 2 == 1:
                        nm = 'seti'
                    if u['enc'] and n % 3 == 2:
                        nm = 'setd'
                    ops.append([nm, k, 700001 + n])
            cases.append({'op': 'omap', 'keys': keys, 'ops': ops, 'json': u['enc']})
            meta.append((len(univs), [], 'exhaustive'))
    nex = len(cases)
    # long random histories over wider universes, with constructor arguments
    for keys in (WIDE, SYMW):
        univs.append(universe(keys)); u = univs[-1]
        for _ in range(1500 if thorough else 150):
            sub = rng.sample(range(1, len(keys) + 1), rng.randint(2, len(keys)))
            bias = rng.choice([0.25, 0.5, 0.7])
            ctor = [['set', rng.choice(sub), 700100 + i] for i in range(rng.choice([0, 0, 1, 3, 6]))]
            ops = []
            for n in range(rng.choice([8, 16, 30])):
                k = rng.choice(sub)
                if rng.random() < bias:
                    ops.append(['del', k, 0])
                else:
                    ops.append([rng.choice(['set', 'seti'] + (['setd'] if u['enc'] else [])), k, 700200 + n])
            cases.append({'op': 'omap', 'keys': keys, 'ops': ops, 'ctor': ctor, 'json': u['enc'], 'obs0': True, 'via': rng.choice(['', 'json', 'msgpack']) if u['enc'] else ''})
            meta.append((len(univs), ctor, 'random'))
    def todict(o):
        return {'name': o[0], 'k': o[1], 'v': o[2]}
    res = C.run_cases(drv, cases)
    rows, back = [], []
    seen = set()
    for ci, (c, r, mt) in enumerate(zip(cases, res, meta)):
        if 'steps' not in r or 'panic' in r:
            rep.violation(['nores', c['keys'], c['ops']], r.get('panic') or r, {'case': c})
            continue
        steps = r['steps']
        if mt[2] == 'exhaustive':   # prefixes shared between histories are validated once
            pre = json.dumps([mt[0], c['ops'][:-1]])
            body = json.dumps(steps[:-1])
            if (pre, body) in seen:
                # same prefix, same observation: TLC re-validates the last step only
                pass
            seen.add((pre, body))
        rows.append({'u': mt[0], 'ctor': [todict(o) for o in mt[1]], 'steps': steps})
        back.append(ci)
    pu = C.write_ndjson('univs.ndjson', univs)
    bads = {}
    nst = 0
    B = 6000
    for s in range(0, len(rows), B):
        pc = C.write_ndjson('hist.ndjson', rows[s:s+B])
        r = C.tlc('OMapTrace', 'SPECIFICATION Spec\nINVARIANTS Check Fine\n', env={'ZV_UNIV': pu, 'ZV_CASES': pc}, heap='10g')
        if r.violated:
            raise C.CheckError('OMapTrace\n' + r.out[-2000:])
        nst += r.distinct; trans += r.generated
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(\{[^}]*\})\s*>>', r.out):
            ci = back[s + int(m.group(1)) - 1]
            i = int(m.group(2))
            if ci not in bads or bads[ci][0] > i:
                bads[ci] = (i, m.group(3))
    if bads:
        # re-run the failing histories alone, in a fresh process each, before reporting
        for ci in C.until(sorted(bads, key=lambda x: (bads[x][0], x)), rep):
            i, fields = bads[ci]
            c = dict(cases[ci]); c['ops'] = c['ops'][:max(0, i - (1 if c.get('obs0') else 0))]
            again = C.run_cases(drv, [c], nproc=1)[0]
            last = again.get('steps', [{}])[-1] if again.get('steps') else again
            rep.violation([c['keys'], c.get('ctor', []), c['ops']], f'{fields} observed {json.dumps(last)[:600]}', {'case': c})
    rep.cov.update(states=states + nst, transitions=trans, traces_validated_against_impl=len(rows), exhaustive_histories=nex,
                   random_histories=len(cases) - nex, observations=sum(len(r['steps']) for r in rows))
    for r in rows[:2] + rows[-2:]:
        rep.sample({'keys': univs[r['u'] - 1]['keys'], 'ops': [list(s['op'].values()) for s in r['steps']], 'last': r['steps'][-1]})
    rep.assumptions += ['key equality is the language equality (char = integer with the same code, [k] = k)', 'values are small integers; value types do not influence the map']
LEVEL = 'model_checking'
