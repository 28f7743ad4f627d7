"""C19: symbol interning across a family of interpreters.  SymtabGen.tla explores
the interning mechanism and shows it refines the contract; its histories are
replayed on real families, and SymtabTrace.tla validates what they returned."""
import json, random, re
import common as C
LEVEL = 'model_checking'
def histories(depth, fam, maxg):
    r = C.tlc('SymtabGen', f'SPECIFICATION Spec\nCONSTANTS Depth = {depth}\n MaxFam = {fam}\n MaxG = {maxg}\nINVARIANTS Inv Emit\nPROPERTIES Refines\n')
    if r.violated:
        raise C.CheckError('SymtabGen: the mechanism does not refine the contract\n' + r.out[-2000:])
    return r, [json.loads('[' + m[2:] + ']') for m in re.findall(r'<<"H"((?:, \d+)+)>>', r.out.replace('\n', ' '))]

def run(rep):
    rng = random.Random(C.SEED)
    thorough = C.TIER == 'thorough'
    drv = C.build_driver()
    cases = []
    states = trans = 0
    hist = []
    for a in ([(5, 3, 2), (6, 2, 1)] if thorough else [(4, 3, 2)]):
        r, h = histories(*a)
        states += r.distinct; trans += r.generated
        hist += h
    for n, h in enumerate(hist):
        ops = []
        script = n % 8 == 0      # an eighth of the histories through script-level routes
        for j, x in enumerate(h):
            i, code = divmod(x, 100)
            if code == 0:
                ops.append({'o': 'mk', 'i': i, 'name': 'zvq', 'r': ('str2sym', 'quote', 'json', 'load')[j % 4] if script else ''})
            elif code < 50:
                ops.append({'o': 'mk', 'i': i, 'name': '__gensym', 'g': code - 10, 'r': ('quote', 'str2sym', 'inlist')[j % 3] if script else ''})
            elif code == 50:
                ops.append({'o': 'gen', 'i': i, 'r': ('script', 'macro')[j % 2] if script else ''})
            else:
                ops.append({'o': 'dup' if code == 60 else 'clone', 'i': i})
        cases.append({'op': 'symtab', 'ops': ops, 'macro': script, 'scripteq': script})
    nex = len(cases)
    # long random histories: more interpreters, several prefixes, colliding concatenations
    prefixes = ['__gensym', 'g', 'g1', 'x', '', '__range_i', '1', '#z']
    for _ in range(3000 if thorough else 400):
        ops, fam = [], 1
        script = rng.random() < 0.5
        for _ in range(rng.choice([8, 15, 40])):
            i = rng.randint(1, fam)
            w = rng.random()
            if w < 0.12 and fam < 6:
                ops.append({'o': rng.choice(['dup', 'clone']), 'i': i}); fam += 1
            elif w < 0.4:
                p = rng.choice(prefixes)
                rt = rng.choice(['', 'script', 'prefix', 'macro']) if script else ''
                ops.append({'o': 'gen', 'i': i, 'name': p, 'r': rt})
            elif w < 0.8:
                p = rng.choice(prefixes)
                ok = p and p[0] not in '1#'
                ops.append({'o': 'mk', 'i': i, 'name': p, 'g': rng.randint(-2, 14), 'r': rng.choice(['', 'str2sym'] + (['quote', 'inlist', 'json'] if ok else [])) if script else ''})
            else:
                nm = rng.choice(['a', 'b', 'Zq', 'x.y', 'a:', '$m', '?q', 'é', 'car', 'zz12', '.a', 'A', 'a b', '"', 'nil'])
                ops.append({'o': 'mk', 'i': i, 'name': nm, 'r': rng.choice(['', 'str2sym']) if script and nm not in '"' else ''})
        cases.append({'op': 'symtab', 'ops': ops, 'macro': script, 'scripteq': script, 'std': rng.random() < 0.1})
    res = C.run_cases(drv, cases)
    rows, back, fails = [], [], 0
    for ci, (c, r) in enumerate(zip(cases, res)):
        if 'events' not in r:
            if 'fail' in r:     # the script route itself did not deliver a symbol: not about interning
                fails += 1
                rep.sample({'route failed': r['fail']}, 3)
                continue
            rep.violation(['nores', json.dumps(c['ops'])], r, {'case': c})
            continue
        rows.append(r); back.append(ci)
    if fails * 10 > len(cases):
        raise C.CheckError(f'{fails} of {len(cases)} histories could not be replayed: {rep.samples}')
    rep.cov['not_replayable'] = fails
    bads = {}
    B = 20000
    for s in range(0, len(rows), B):
        pc = C.write_ndjson('sym.ndjson', rows[s:s+B])
        t = C.tlc('SymtabTrace', 'SPECIFICATION Spec\nACTION_CONSTRAINT Watch\nINVARIANT Final\n', env={'ZV_CASES': pc}, heap='10g')
        if t.violated:
            raise C.CheckError('SymtabTrace\n' + t.out[-2000:])
        states += t.distinct; trans += t.generated
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"(\w+)"\s*>>', t.out):
            ci = back[s + int(m.group(1)) - 1]
            if ci not in bads:
                bads[ci] = (int(m.group(2)), m.group(3))
    for ci in C.until(sorted(bads, key=lambda x: len(cases[x]['ops'])), rep):
        again = C.run_cases(drv, [cases[ci]], nproc=1)[0]
        rep.violation(json.dumps(cases[ci]['ops']), f'{bads[ci]} events {json.dumps(again.get("events", again))[:700]}', {'case': cases[ci]})
    rep.cov.update(states=states, transitions=trans, traces_validated_against_impl=len(rows), exhaustive_histories=nex, random_histories=len(cases) - nex)
    for r in (rows[0], rows[-1]) if rows else ():
        rep.sample(r['events'])
    rep.assumptions += ['symbols interned by the library itself at start-up are only observed through the names scripts ask for']
