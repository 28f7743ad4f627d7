"""C16: lazy parameters delay, memoise and stay lexical; strict ones do not.
Every combination of formals, use of the lazy parameter, way to call, argument
expression and caller runs on the real interpreter and on Core.tla, whose thunks
hold an expression, the environment it belongs to, and its value once forced."""
import random, itertools
import common as C, core
from core import V, I, call, tr, text
LEVEL = 'model_checking'
S = lambda s: ('lit', ['str', s])
B = lambda b: ('lit', ['bool', b])
fn = lambda ps, *b, lz=None, rest='': ('fn', ps, lz or [1 if p[0] == '#' else 0 for p in ps], rest, list(b))
defn = lambda n, ps, *b, rest='': ('defn', n, ps, [1 if p[0] == '#' else 0 for p in ps], rest, list(b))
F = lambda p: call('force', V(p))

def uses(p):
    """what a body does with its lazy parameter"""
    yield 'none', []
    yield 'once', [tr('got', F(p))]
    yield 'twice', [tr('got', F(p)), tr('again', F(p))]
    yield 'source', [call('tr', S('src'), call('substitute', V(p)))]
    yield 'source after', [tr('got', F(p)), call('tr', S('src'), call('substitute', V(p))), tr('got', F(p))]
    yield 'hidden', [('let', [('x', I(70)), ('y', I(71)), ('k', I(72))], [('scope', [('def', 'x', I(73)), tr('got', F(p))])]), ('set', 'x', I(74)), tr('got', F(p))]
    yield 'closure', [('def', 'th', fn([], F(p))), tr('before', I(0)), tr('got', call('th')), tr('got', call('th'))]
    yield 'later', [('set', 'kept', fn([], F(p)))]
    yield 'passed', [call(fn(['#w'], tr('mid', I(0)), tr('inner', F('#w')), tr('inner', F('#w'))), F(p)), tr('got', F(p))]
    yield 'passedno', [call(fn(['#w'], tr('mid', I(0))), F(p))]
    yield 'strictpass', [call(fn(['w'], tr('inner', V('w')), tr('inner', V('w'))), F(p)), tr('got', F(p))]
    yield 'loop', [('for', '', ('def', 'i', I(0)), call('<', V('i'), I(3)), ('set', 'i', call('+', V('i'), I(1))), [tr('got', F(p))])]
    yield 'half', [('cond', [B(0), F(p), tr('skip', I(0))]), ('and', [B(0), F(p)]), ('or', [I(1), F(p)])]
    yield 'map', [call('tr', S('m'), call('map', fn(['q'], call('+', V('q'), F(p))), ('arr', [I(0), I(0)])))]
    yield 'data', [('let', [('a', ('arr', [fn([], F(p))]))], [tr('got', call(call('aget', V('a'), I(0))))])]
    yield 'eval', [tr('got', ('let', [('g', F(p))], [V('g')])), tr('type', S('x'))]
    yield 'isnull', [call('tr', S('nul'), call('null?', F(p)), ('cond', [F(p), I(1), I(2)]), ('or', [F(p), I(3)]))]
    yield 'evalsrc', [call('tr', S('src'), call('substitute', V(p)))]

def argexprs():
    yield 'value', I(5), []
    yield 'traced', tr('ARG', I(5)), []
    yield 'var', tr('ARG', V('x')), []
    yield 'sum', call('+', tr('A1', V('x')), tr('A2', V('k'))), []
    yield 'assign', ('begin', [('set', 'x', call('+', V('x'), I(1))), tr('ARG', V('x'))]), []
    yield 'call', call('inc', tr('ARG', V('k'))), []
    yield 'fail', ('begin', [tr('ARG', I(1)), ('assert', B(0))]), []
    yield 'closure', call(fn(['z'], ('set', 'k', call('+', V('k'), V('z'))), V('k')), I(3)), []
    yield 'let', ('let', [('x', call('*', V('x'), I(2)))], [tr('ARG', V('x'))]), []
    for n, v in (('nil', ('lit', ['nil'])), ('false', B(0)), ('zero', I(0)), ('empty', S('')), ('emptyarr', ('arr', [])), ('emptylist', call('list')), ('emptyhash', call('hash')), ('fnval', fn([], I(1))), ('list', call('list', I(1), I(2)))):
        yield n, tr('ARG', v), []
    yield 'retry', ('begin', [tr('ARG', I(1)), ('assert', call('==', V('g9'), I(1))), I(3)]), []
    yield 'condset', ('cond', [call('==', V('g9'), I(0)), ('begin', [('set', 'g9', I(1)), tr('ARG', B(0))]), tr('ARG', B(1))]), []

def routes(ps, args, rest):
    """ways to have the function f called with the expressions args"""
    yield 'name', [('call', V('f'), args)]
    yield 'alias', [('def', 'g', V('f')), ('call', V('g'), args)]
    yield 'param', [call(fn(['h', 'k2'], ('call', V('h'), args)), V('f'), I(0))]
    yield 'computed', [('call', ('cond', [tr('callee', B(1)), V('f'), V('inc')]), args)]
    yield 'hash', [('let', [('hh', call('hash', S('a'), V('f')))], [('call', call('hget', V('hh'), S('a')), args)])]
    yield 'array', [('call', call('aget', ('arr', [V('inc'), V('f')]), I(1)), args)]
    yield 'returned', [('def', 'give', fn([], tr('callee', I(0)), V('f'))), ('call', call('give'), args)]
    yield 'applylist', [call('apply', V('f'), call('list', *args))]
    yield 'applyarr', [call('apply', V('f'), ('arr', args))]
    yield 'applyparam', [call(fn(['h'], call('apply', V('h'), ('arr', args))), V('f'))]
    if len(ps) == 1:
        yield 'map', [call('map', V('f'), ('arr', [args[0], I(6)]))]
        yield 'maplist', [call('map', V('f'), call('list', args[0]))]
        yield 'mapparam', [call(fn(['h'], call('map', V('h'), ('arr', args[:1]))), V('f'))]
    yield 'tail', [defn('t', ['h'], ('let', [('u', I(1))], [('cond', [B(1), ('call', V('f'), args), I(0)])])), call('t', I(0))]
    yield 'lazycall', [call(fn(['#c'], tr('outer', I(0)), F('#c')), ('call', V('f'), args))]
    yield 'operand', [call('list', ('call', V('f'), args), tr('next', I(0)))]

def callers(forms):
    yield 'top', forms
    yield 'fn', [call(fn(['x', 'k'], *forms), I(30), I(40))]
    yield 'let', [('let', [('x', I(30)), ('y', I(31))], forms)]
    yield 'closure', [('def', 'mkc', fn(['x'], fn(['k'], *forms))), call(call('mkc', I(30)), I(40))]

SHAPES = [(['#a'], ''), (['p', '#a'], ''), (['#a', 'p'], ''), (['#a', '#b'], ''), (['#a'], 'r'), (['p', '#a', 'q'], ''), (['p'], 'r'), (['p', 'q'], ''), ([], '#r'), (['p'], '#r'), (['#a'], '#r'), (['#a', 'p'], 'r')]

def program(shape, use, aname, route, caller, how):
    ps, rest = shape
    pre = [('def', 'g9', I(0)), ('def', 'x', I(10)), ('def', 'y', I(11)), ('def', 'k', I(12)), ('def', 'kept', I(0)), defn('inc', ['n'], call('+', V('n'), I(1)))]
    lzs = [p for p in ps if p[0] == '#']
    body = [tr('in', I(0))]
    for p in ps:
        if p[0] != '#':
            body += [call('tr', S('strict ' + p), call('type?', V(p)))]
    if rest:
        body += [call('tr', S('rest'), V(rest))]
    for p in lzs:
        body += dict(uses(p))[use]
    res = lzs[0] if lzs and use in ('once', 'twice') else None
    body += [F(res) if res else I(9)]
    pre += [defn('f', ps, *body, rest=rest) if how == 'defn' else ('def', 'f', fn(ps, *body, rest=rest))]
    if how == 'later':
        pass
    ae = dict((n, e) for n, e, _ in argexprs())[aname]
    args = []
    for p in ps:
        args.append(ae if p[0] == '#' or not lzs else tr('strict', V('y')))
    if rest:
        args += [tr('r1', V('y')), tr('r2', I(8))]
    forms = pre + dict(callers(dict(routes(ps, args, rest))[route]))[caller]
    forms += [('set', 'x', I(60)), ('set', 'k', I(61))]
    if use == 'later':
        forms += [tr('late', call('kept')), tr('late', call('kept'))]
    if aname in ('retry', 'condset'):
        forms += [('set', 'g9', I(1))] + ([tr('late', call('kept')), tr('late', call('kept'))] if use == 'later' else forms[-4 if use == 'later' else -2:-1])
    forms += [call('list', V('x'), V('k'))]
    return forms

def systematic(rng, thorough):
    U = [n for n, _ in uses('#a')]; A = [n for n, _, _ in argexprs()]
    CL = ['top', 'fn', 'let', 'closure']
    out = []
    for sh in SHAPES:
        ps, rest = sh
        R = [n for n, _ in routes(ps, [I(0)] * len(ps), rest)]
        for u in (U if any(p[0] == '#' for p in ps) else ['none']):
            for a in A:
                for r in R:
                    for c in CL:
                        out.append((sh, u, a, r, c))
    if not thorough:
        # every pair of choices, several times over, rather than the whole product
        keep, seen = [], {}
        rng.shuffle(out)
        for x in out:
            d = [(str(x[0])), *x[1:]]
            prs = [(i, j, d[i], d[j]) for i in range(5) for j in range(i)]
            if sum(seen.get(p, 0) < 14 for p in prs) >= 2:
                keep.append(x)
                for p in prs:
                    seen[p] = seen.get(p, 0) + 1
        out = keep
    return [{'forms': program(sh, u, a, r, c, rng.choice(['defn', 'fn']))} for sh, u, a, r, c in out]

def named():
    """the typed (func …) form takes arguments by name: laziness goes with the name"""
    out = []
    def prog(ps, body, calls):
        f = ('defn', 'f', ps, [1 if p[0] == '#' else 0 for p in ps], '', body)
        decl = ('begin', [('mac', '(func f [%s] [r:int64] %s)' % (' '.join(p + ':int64' for p in ps), ' '.join(text(b) for b in body)), f), I(0)])
        forms = [('def', 'x', I(10)), decl]
        for order in calls:
            pos = [tr(p, call('+', V('x'), I(i))) for i, p in enumerate(ps)]
            by = dict(zip(ps, pos))
            named = ('mac', '(f %s)' % ' '.join('%s: %s' % (p, text(by[p])) for p in order), ('call', V('f'), pos))
            forms += [named, ('let', [('x', I(20))], [named]), ('call', V('f'), pos)]
        out.append({'forms': forms})
    for ps in (['#a', 'b'], ['b', '#a'], ['#a', '#b'], ['#a', '#c', 'b'], ['b', '#a', '#c']):
        lz = [p for p in ps if p[0] == '#']
        for u in ('none', 'once', 'twice', 'source', 'closure'):
            body = [tr('in', I(0))] + [call('tr', S('type'), call('type?', V(p))) for p in ps if p[0] != '#'] + sum((dict(uses(p))[u] for p in lz), []) + [I(9)]
            prog(ps, body, [list(o) for o in itertools.permutations(ps)])
    return out

def run(rep):
    thorough = C.TIER == 'thorough'
    rng = random.Random(C.SEED)
    drv = C.build_driver()
    progs = systematic(rng, thorough) + named()
    # a lazy parameter of a self tail call, and thunks of every activation kept until the end
    for keep in (0, 1):
        for wrap in ('', 'let', 'shadow'):
            rec = call('f', call('-', V('n'), I(1)), tr('ARG', call('*', V('n'), I(10))))
            if wrap == 'let':
                rec = ('let', [('y', V('n'))], [rec])
            if wrap == 'shadow':
                rec = ('let', [('n', call('+', V('n'), I(0)))], [rec])
            b = [('set', 'fs', call('cons', fn([], F('#a')), V('fs')))] if keep else [tr('got', F('#a'))]
            progs.append({'forms': [('def', 'fs', call('list')), defn('f', ['n', '#a'], *b, ('cond', [call('<', V('n'), I(1)), F('#a'), rec])), call('f', I(3), tr('first', I(7))),
                                    call('map', fn(['g'], call('g')), V('fs')), call('map', fn(['g'], call('g')), V('fs'))]})
    nsys = len(progs)
    for i in range(15000 if thorough else 1500):
        r = random.Random(C.SEED * 1000039 + i)
        g = core.Gen(r, lazy=True, err=r.choice([0, 0.03]), depth=r.choice([3, 4, 5]), closures=1.5, names=list('abcd'))
        progs.append({'forms': g.program(r.randint(2, 4))})
    st, _ = core.validate(rep, drv, progs)
    import c02
    c02.report(rep, st, nsys, progs)
