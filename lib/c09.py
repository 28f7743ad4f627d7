"""C09: tail calls are free and invisible.  TailGen.tla enumerates the positions a
self-call can have in a body and says which of them are tail positions.  For every
position: (1) the function's values, effects and what its closures observe are those
of Core.tla, which knows no tail calls; (2) in a tail position the marks of all
interpreter stacks, and of the Go stack, are the same for every recursion depth."""
import random, re, itertools
import common as C, core
from core import V, I, call, tr, text
LEVEL = 'model_checking'
B = lambda b: ('lit', ['bool', b])
fn = lambda ps, *b: ('fn', ps, [0] * len(ps), '', list(b))

def place(path, hole, n='n', i=0):
    """the body that has hole at the position path"""
    if i == len(path):
        return hole
    c = path[i]
    e = place(path, hole, n, i + 1)
    t = tr('%s%d' % (c, i), V(n)) if i == 0 else V(n)
    if c == 'begin':
        return ('begin', [t, e])
    if c == 'let':
        return ('let', [('y%d' % i, V(n)), ('z', I(1))], [t, e])
    if c == 'letseq':
        return ('letseq', [('y', V(n)), ('z%d' % i, V('y'))], [e])
    if c == 'scope':
        return ('scope', [('def', 's%d' % i, V(n)), e])
    if c == 'shadow':   # a scope that hides a parameter of the function
        return ('let', [('a', call('+', V('a'), I(1)))], [e])
    if c == 'condlast':
        return ('cond', [B(0), I(5), call('<', V(n), I(0)), I(6), e])
    if c == 'condarm':
        return ('cond', [call('<', I(-1), V(n)), e, I(0)])
    if c == 'condarm2':
        return ('cond', [B(0), I(5), B(1), e, I(7)])
    if c == 'and':
        return ('and', [I(1), t, B(1), e] if i else [I(1), B(1), e])
    if c == 'or':
        return ('or', [B(0), I(0), e])
    if c == 'arg':
        return call('+', I(1), e)
    if c == 'condtest':
        return ('cond', [e, I(1), I(2)])
    if c == 'andfirst':
        return ('and', [e, I(3)])
    if c == 'letrhs':
        return ('let', [('q', e)], [V('q')])
    if c == 'stmt':
        return ('begin', [e, V(n)])
    if c == 'array':
        return call('first', ('arr', [e]))
    return call(fn([], e))       # thunk

def paths(depth):
    r = C.tlc('TailGen', f'SPECIFICATION Spec\nCONSTANT Depth = {depth}\nINVARIANTS TailOK Emit\n')
    if r.violated:
        raise C.CheckError('TailGen\n' + r.out[-2000:])
    out = []
    for m in re.finditer(r'<<\s*"P",\s*(\d),\s*\d+((?:,\s*"\w+")*)\s*>>', r.out):
        out.append((m.group(1) == '1', re.findall(r'"(\w+)"', m.group(2))))
    if len(out) != r.distinct:
        raise C.CheckError(f'TailGen: {len(out)} of {r.distinct} paths read')
    return r, sorted(out, key=lambda x: (len(x[1]), x[1]))

dn = lambda b, ps=('n', 'a', 'b'), rest='', lz=None: ('defn', 'f', list(ps), lz or [0] * len(ps), rest, b)
step = call('-', V('n'), I(1))
stop = lambda r, e: ('cond', [call('<', V('n'), I(1)), r, e])

def progs(path, tail, rich):
    """programs whose meaning Core decides"""
    out = []
    P = lambda hole: place(path, hole)
    # parameters change places: every new argument is computed before any is bound
    out.append([dn([stop(call('list', V('a'), V('b')) if tail else V('a'), P(call('f', step, V('b'), call('+', V('a'), V('n')))))]), call('f', I(4), I(10), I(20)), call('f', I(0), I(1), I(2))])
    # closures made on the way keep their own variables
    cap = ('let', [('k', V('n'))], [fn([], ('set', 'k', call('+', V('k'), I(10))), ('set', 'n', call('+', V('n'), I(1))), call('list', V('k'), V('n'), V('b')))])
    keep = ('set', 'fs', call('cons', cap, V('fs')))
    out.append([('def', 'fs', call('list')), dn([stop(I(1), ('begin', [keep, P(call('f', step, V('a'), call('+', V('b'), I(1))))]))]), call('f', I(3), I(0), I(5)),
                call('map', fn(['g'], call('g')), V('fs')), call('map', fn(['g'], call('g')), V('fs'))])
    if rich:
        # a closure from inside the innermost scope, a definition in the body, effects in the arguments
        out.append([('def', 'fs', call('list')), dn([('def', 'd', call('*', V('n'), I(2))), stop(I(1), P(('begin', [('set', 'fs', call('cons', fn([], call('list', V('a'), V('d'), V('n'))), V('fs'))), call('f', tr('x', step), tr('y', call('+', V('a'), I(1))), tr('z', V('d')))])))]),
                    call('f', I(3), I(0), I(5)), call('map', fn(['g'], call('g')), V('fs'))])
        # variable argument counts, lazily evaluated arguments, wrong argument counts
        out.append([dn([stop(call('len', V('r')), P(call('f', step, V('n'), V('n'))))], ('n', 'a'), 'r'), call('f', I(3), I(1), I(2), I(3)), call('f', I(2), I(0)), call('f', I(1))])
        out.append([dn([stop(I(0), P(call('f', step, I(0))))], ('n', 'a'), 'r'), call('f', I(2), I(0), I(7))])
        out.append([dn([stop(I(0), P(call('f', step)))]), call('f', I(2), I(0), I(0)), call('f', I(0), I(0), I(0))])
        out.append([dn([stop(I(0), P(call('f', step, V('a'), V('b'), V('a'))))]), call('f', I(2), I(0), I(0))])
        out.append([dn([tr('in', V('n')), stop(I(0), ('begin', [tr('forced', call('force', V('#a'))), P(call('f', step, tr('late', call('+', V('n'), I(100))), V('b')))]))], ('n', '#a', 'b'), '', [0, 1, 0]), call('f', I(2), tr('early', I(5)), I(0))])
        # the name is bound to something else meanwhile, or is a parameter
        out.append([dn([stop(V('a'), ('begin', [('cond', [call('==', V('n'), I(2)), ('set', 'f', fn(['x', 'y', 'z'], tr('other', V('x')), I(42))), I(0)]), P(call('f', step, V('a'), V('b')))]))]), call('f', I(4), I(1), I(2))])
        out.append([('defn', 'f', ['n', 'f'], [0, 0], '', [stop(I(9), place([c for c in path if c != 'shadow'], call('f', step)))]), call('f', I(3), fn(['x'], tr('param', V('x'))))])
        out.append([dn([('def', 'f', fn(['x', 'y', 'z'], I(77))), stop(I(9), P(call('f', step, V('a'), V('b'))))]), call('f', I(3), I(1), I(2))])
        # inside of another function, several closures of one defn
        out.append([('defn', 'mk', ['m'], [0], '', [dn([stop(call('list', V('m'), V('a')), P(call('f', step, call('+', V('a'), V('m')), V('b')))) if tail else stop(V('a'), P(call('f', step, V('b'), V('m'))))]), V('f')]),
                    ('def', 'g', call('mk', I(1))), ('def', 'h', call('mk', I(100))), call('list', call('g', I(3), I(0), I(0)), call('h', I(3), I(0), I(0))), call('g', I(2), I(5), I(6))])
        # an error on the way out leaves the function usable
        out.append([dn([stop(('assert', B(0)), P(call('f', step, V('a'), V('b'))))]), call('f', I(3), I(1), I(2)), call('f', I(3), I(1), I(2)), I(1)])
    return out

def space(path):
    """functions for the space measurement: (name, definition, call(n))"""
    P = lambda hole: place(path, hole)
    tick = tr('t', V('n'))
    yield 'plain', [dn([tick, stop(V('a'), P(call('f', step, V('b'), V('a'))))])], lambda n: call('f', I(n), I(1), I(2))
    yield 'rest', [dn([tick, stop(I(0), P(call('f', step, V('n'), V('n'), I(3))))], ('n', 'a'), 'r')], lambda n: call('f', I(n), I(1), I(2))
    yield 'closure', [dn([tick, ('def', 'c', fn([], V('n'))), stop(V('a'), P(call('f', call('-', call('c'), I(1)), V('a'), V('c'))))])], lambda n: call('f', I(n), I(1), I(2))
    yield 'inner', [('defn', 'mk', ['m'], [0], '', [dn([tick, stop(V('m'), P(call('f', step, V('b'), V('a'))))]), V('f')]), ('def', 'g', call('mk', I(3)))], lambda n: call('g', I(n), I(1), I(2))
    yield 'lazy', [dn([tick, stop(I(0), P(call('f', step, V('n'), V('b'))))], ('n', '#a', 'b'), '', [0, 1, 0])], lambda n: call('f', I(n), I(1), I(2))

def run(rep):
    thorough = C.TIER == 'thorough'
    rng = random.Random(C.SEED)
    drv = C.build_driver()
    r, ps = paths(4 if thorough else 3)
    short = [p for p in ps if len(p[1]) <= 2]
    deep = [p for p in ps if len(p[1]) > 2]
    pl = []
    for t, p in short + (deep if thorough and len(deep) < 4000 else rng.sample(deep, 4000 if thorough else 350)):
        pl += [{'forms': f} for f in progs(p, t, len(p) <= 2)]
    nsys = len(pl)
    for i in range(6000 if thorough else 600):
        rr = random.Random(C.SEED * 1000037 + i)
        g = core.Gen(rr, err=rr.choice([0, 0.02]), depth=4, closures=2)
        f = []
        for _ in range(2):     # recursive functions only, then calls
            g.size = 0
            prm, lz, rest = ['n'] + rr.sample(['p', 'q'], rr.choice([0, 1, 2])), None, ''
            g.scopes[-1]['f'] = 'x'
            f.append(('defn', 'f', prm, [0] * len(prm), '', g.recursive('f', prm, 4)))
            f.append(call('f', I(rr.choice([0, 1, 3, 5])), *[I(k) for k in range(len(prm) - 1)]))
        pl.append({'forms': f})
    st, _ = core.validate(rep, drv, pl)
    # space
    cases, meta = [], []
    tails = [p for t, p in ps if t]
    chosen = [p for p in tails if len(p) <= 2] + [p for p in tails if len(p) > 2 and (thorough or rng.random() < 0.12)]
    for p in chosen:
        for nm, defs, mk in space(p):
            if nm == 'lazy' and 'shadow' in p or nm == 'rest' and 'shadow' in p and False:
                continue
            ns = [25, 60, 400 if len(p) < 2 else 150]
            cases.append({'op': 'session', 'id': str(len(cases)), 'hwm': True, 'budget': 0, 'forms': [text(d) for d in defs] + [text(mk(n)) for n in ns], 'noprint': True})
            meta.append((p, nm, len(defs), ns))
    res = C.run_cases(drv, cases, tmo_ms=20000)
    def judge(c, m, q):
        p, nm, k, ns = m
        if 'results' not in q:
            return str(q)[:300]
        marks = []
        for n, x in zip(ns, q['results'][k:]):
            if 'err' in x or 'panic' in x:
                return f"n={n}: {x.get('err') or x.get('panic')}"
            its = sum(ev[0].get('v') == 't' for ev in x['trace'])
            if its != n + 1:
                return f"n={n}: {its} iterations"
            marks.append(x['hwm'])
        if not marks[0]:
            raise C.CheckError('no marks sampled')
        if any(mk != marks[0] for mk in marks):
            return ' '.join(f'n={n}: {mk}' for n, mk in zip(ns, marks))
    spaces = 0
    for c, m, q in zip(cases, meta, res):
        why = judge(c, m, q) if len(rep.violations) < 12 else None
        if why:
            again = C.run_cases(drv, [c], nproc=1, tmo_ms=20000)[0]
            why = judge(c, m, again)
            if why:
                rep.violation(c['forms'], f"the call {'/'.join(m[0]) or 'as the whole body'} ({m[1]}) is a tail call but its stacks grow with the recursion depth: {why}", {'case': c})
        else:
            spaces += 1
    # arbitrarily deep: completes
    big, bm = [], []
    N = 300000 if thorough else 60000
    for p in [p for p in tails if len(p) <= 1] + rng.sample([p for p in tails if len(p) == 2], 40 if thorough else 6):
        big.append({'op': 'session', 'id': str(len(big)), 'forms': [text(dn([stop(V('b'), place([c for c in p], call('f', step, V('a'), call('+', V('b'), I(1)))))])).replace('(tr "', '(list "'), f'(f {N} 1 0)']})
        bm.append(p)
    if len(rep.violations) >= 3:
        big = []        # decided already, and every one of these may take its time
    for c, q in zip(big, C.run_cases(drv, big, tmo_ms=60000, max_bad=3)):
        if 'skipped' in q or len(rep.violations) >= 3:
            continue
        x = q.get('results', [{}, {}])[-1]
        if x.get('val', {}).get('v') != str(N):
            again = C.run_cases(drv, [c], nproc=1, tmo_ms=120000)[0]
            x = again.get('results', [{}, {}])[-1]
            if x.get('val', {}).get('v') != str(N):
                rep.violation(c['forms'], f'tail recursion {N} deep does not complete with {N}: {str(again)[:400]}', {'case': c})
    import c02
    c02.report(rep, st, nsys, pl)
    rep.cov['states'] += r.distinct; rep.cov['transitions'] += r.generated
    rep.cov.update(positions=len(ps), tail_positions_measured=len(chosen), space_runs=spaces, deep_runs=len(big), deepest=N)
    rep.assumptions.append('space = the marks of every interpreter stack and of the Go stack before each call; heap reachable from live closures is not measured')
