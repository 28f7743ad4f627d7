"""C03: lexical scoping.  Programs that create closures in every kind of scope,
through every kind of binding, and use them from every kind of caller that has
variables of the same name, run on the real interpreter and on Core.tla."""
import random, itertools
import common as C, core
from core import V, I, call, tr, text
LEVEL = 'model_checking'
S = lambda s: ('lit', ['str', s])
fn = lambda ps, *b: ('fn', ps, [0] * len(ps), '', list(b))
defn = lambda n, ps, *b: ('defn', n, ps, [0] * len(ps), '', list(b))
TRUE = ('lit', ['bool', 1])

def trio(kind):
    """reader, writer and incrementer of x made in one activation"""
    inc = [('set', 'x', call('+', V('x'), I(1))), V('x')]
    if kind == 'fn':
        return [call('list', fn([], V('x')), fn(['v'], ('set', 'x', V('v'))), fn([], *inc))]
    if kind == 'defn':
        return [defn('rd', [], V('x')), defn('wr', ['v'], ('set', 'x', V('v'))), defn('up', [], *inc), call('list', V('rd'), V('wr'), V('up'))]
    if kind == 'deep':   # functions made by functions that use nothing of x themselves
        return [call('list', fn([], call(fn([], call(fn([], V('x')))))), fn(['v'], call(fn(['w'], ('let', [('u', V('w'))], [('set', 'x', V('u'))])), V('v'))),
                     call(fn([], fn([], ('scope', [call(fn([], *inc))])))))]
    # stored in data, by way of let
    return [('let', [('rd', fn([], V('x'))), ('wr', fn(['x2'], ('set', 'x', V('x2'))))], [('def', 'box', ('arr', [V('rd'), V('wr')])), call('list', call('aget', V('box'), I(0)), call('aget', V('box'), I(1)), fn([], *inc))])]

def makers(t):
    yield 'param', defn('mk', ['x'], *t)
    yield 'fnparam', ('def', 'mk', fn(['x'], *t))
    yield 'let', defn('mk', ['p'], ('let', [('x', V('p'))], t))
    yield 'letseq', defn('mk', ['p'], ('letseq', [('q', V('p')), ('x', V('q'))], t))
    yield 'def', defn('mk', ['p'], ('def', 'x', V('p')), *t)
    yield 'latedef', defn('mk', ['p'], ('def', 'r', ('let', [], t)), ('def', 'x', V('p')), V('r'))
    yield 'scope', defn('mk', ['p'], ('scope', [('def', 'x', V('p'))] + t))
    yield 'mdef', defn('mk', ['p'], ('mdef', ['x', 'y'], call('list', V('p'), I(0))), *t)
    yield 'inner', defn('mk', ['p'], call(fn(['x'], *t), V('p')))
    yield 'innerdefn', defn('mk', ['p'], defn('mk2', ['x'], *t), call('mk2', V('p')))
    yield 'outer', defn('mk', ['x'], call(fn([], ('let', [('z', I(1))], t))))
    yield 'shadow', defn('mk', ['x'], ('let', [('y', V('x'))], [('let', [('x', V('y'))], t)]))
    yield 'loop', defn('mk', ['p'], ('def', 'res', I(0)), ('for', '', ('def', 'i', I(0)), call('<', V('i'), I(1)), ('set', 'i', call('+', V('i'), I(1))), [('let', [('x', V('p'))], [('set', 'res', ('begin', t))])]), V('res'))
    yield 'cond', defn('mk', ['x'], ('cond', [('lit', ['bool', 0]), I(1), ('begin', t)]))
    yield 'curried', defn('mk', ['x'], call(call(fn([], fn([], *t)))))
    yield 'map', defn('mk', ['p'], call('first', call('map', fn(['x'], *t), ('arr', [V('p')]))))
    yield 'apply', defn('mk', ['p'], call('apply', fn(['x'], *t), call('list', V('p'))))
    yield 'rest', defn('mk', ['p'], call(('fn', [], [], 'r', [('let', [('x', call('first', V('r')))], t)]), V('p')))

def users(f, args):
    """ways to call f while variables named x, v, y … of the caller are live"""
    F = ('call', f, args)
    yield 'direct', F
    yield 'fntail', call(fn(['x'], F), I(99))
    yield 'fn', call('+', I(0), call(fn(['x', 'v'], call('+', I(0), F)), I(99), I(98)))
    yield 'let', ('let', [('x', I(99)), ('v', I(98))], [F])
    yield 'letseq', ('letseq', [('x', I(99))], [call('+', I(0), F)])
    yield 'scope', ('scope', [('def', 'x', I(99)), F])
    yield 'apply', call(fn(['x'], call('apply', f, ('arr', args))), I(99))
    yield 'map', call('first', call('map', fn(['x'], F), ('arr', [I(99)])))
    yield 'param', call(fn(['g', 'x'], ('call', V('g'), args)), f, I(99))
    yield 'hash', ('let', [('x', I(99)), ('h', call('hash', S('k'), f))], [('call', call('hget', V('h'), S('k')), args)])
    yield 'loop', ('begin', [('def', 'rr', I(0)), ('for', '', ('def', 'x', I(90)), call('<', V('x'), I(92)), ('set', 'x', call('+', V('x'), I(1))), [('set', 'rr', F), ('break', '')]), V('rr')])
    yield 'defn', ('begin', [defn('caller', ['x'], ('let', [('y', V('x'))], [('cond', [TRUE, F, I(0)])])), call('caller', I(99))])
    yield 'rec', ('begin', [defn('down', ['x'], ('cond', [call('<', V('x'), I(1)), F, call('down', call('-', V('x'), I(1)))])), call('down', I(3))])
    yield 'rec2', ('begin', [defn('down', ['x'], ('cond', [call('<', V('x'), I(1)), F, call('+', I(0), call('down', call('-', V('x'), I(1))))])), call('down', I(3))])
    yield 'lazy', call(('fn', ['#a', 'x'], [1, 0], '', [call('force', V('#a'))]), F, I(99))
    yield 'other', call(fn(['x'], call(fn(['v'], call(fn([], F))), I(97))), I(99))
    yield 'and', ('let', [('x', I(99))], [('and', [TRUE, ('or', [('lit', ['bool', 0]), F])])])

def systematic(thorough):
    out = []
    add = lambda *f: out.append(list(f))
    for kind in ('fn', 'defn', 'deep', 'data'):
        for mn, mk in makers(trio(kind)):
            ulist = list(users(V('f'), []))
            for un, _ in ulist:
                def use(n, *args):
                    a = [I(x) for x in args]
                    return dict(users(V(n), a))[un]
                pick = lambda v, k: call({0: 'first', 1: 'second'}.get(k), V(v)) if k < 2 else call('first', call('rest', call('rest', V(v))))
                forms = [('def', 'x', I(7)), mk]
                for t, v in (('A', 1), ('B', 2)):
                    forms += [('def', t, call('mk', I(v))), ('def', 'r' + t, pick(t, 0)), ('def', 'w' + t, pick(t, 1)), ('def', 'u' + t, pick(t, 2))]
                forms += [call('list', tr('rA', use('rA')), tr('rB', use('rB')))]
                if mn == 'latedef' and kind != 'deep' or True:
                    forms += [call('list', tr('w', use('wA', 10)), tr('rA', use('rA')), tr('rB', use('rB'))),
                              call('list', tr('uB', use('uB')), tr('uB', use('uB')), tr('rA', use('rA')), tr('rB', use('rB')))]
                forms += [V('x')]
                if not thorough and un not in ('direct', 'fn', 'let', 'apply', 'lazy', 'rec', 'loop', 'other', 'map', 'fntail') and kind in ('deep', 'data'):
                    continue
                add(*forms)
    # a function that uses a global, or nothing bound at all, never finds its callers' variables
    for glob in (1, 0):
        for un, _ in users(V('f'), []):
            for body in ([V('x')], [('let', [('z', I(1))], [V('x')])], [call(fn([], V('x')))], [('set', 'x', I(5)), V('x')], [('def', 'x', I(6)), call(fn([], V('x')))]):
                add(*([('def', 'x', I(1))] if glob else []), ('def', 'f', fn([], *body)), dict(users(V('f'), []))[un], V('x'))
    # shadowing follows the text: chains of scopes, reading and assigning at every level
    def wrap(kinds, i, upd):
        if i == len(kinds):
            return [tr('in', V('x'))] + ([('set', 'x', I(50))] if upd else [('def', 'x', I(60))]) + [tr('in2', V('x')), I(0)]
        inner = wrap(kinds, i + 1, upd)
        k = kinds[i]
        after = [tr('after%d' % i, V('x'))]
        if k == 'let':
            return [('let', [('x', I(10 + i))], inner)] + after
        if k == 'lety':
            return [('let', [('y', I(20 + i))], inner)] + after
        if k == 'letrec':
            return [('letseq', [('x', call('+', V('x'), I(1)))], inner)] + after
        if k == 'fnx':
            return [call(fn(['x'], *inner), I(30 + i))] + after
        if k == 'fn':
            return [call(fn(['y'], *inner), I(40 + i))] + after
        if k == 'scope':
            return [('scope', [('def', 'x', I(70 + i))] + inner)] + after
        if k == 'set':
            return [('scope', [('set', 'x', I(80 + i))] + inner)] + after
        return [('for', '', ('def', 'i%d' % i, I(0)), call('<', V('i%d' % i), I(1)), ('set', 'i%d' % i, I(1)), inner)] + after
    kinds = ['let', 'lety', 'letrec', 'fnx', 'fn', 'scope', 'set', 'for']
    for n in (2, 3) if not thorough else (2, 3, 4):
        for ks in itertools.product(kinds, repeat=n):
            for upd in (1, 0):
                add(('def', 'x', I(1)), *wrap(ks, 0, upd), V('x'))
    # one closure per activation of a (tail-)recursive function, with every way to reach the call
    for shape in ('plain', 'let', 'letseq', 'scope', 'begin', 'and', 'or', 'notail', 'def', 'nested', 'inner'):
        for cap in (fn([], V('n')), fn([], ('set', 'n', call('+', V('n'), I(10))), V('n')), ('let', [('k', V('n'))], [fn([], ('set', 'k', call('+', V('k'), I(1))), V('k'))])):
            rec = lambda: call('f', call('-', V('n'), I(1)), call('cons', cap, V('acc')))
            step = {'plain': rec(), 'let': ('let', [('y', V('n'))], [rec()]), 'letseq': ('letseq', [('y', V('n')), ('n', V('y'))], [rec()]), 'scope': ('scope', [('def', 'y', V('n')), rec()]),
                    'begin': ('begin', [I(1), rec()]), 'and': ('and', [I(1), rec()]), 'or': ('or', [I(0), rec()]), 'notail': ('begin', [('def', 'r', rec()), V('r')]),
                    'def': ('begin', [('def', 'z', cap), call('f', call('-', V('n'), I(1)), call('cons', V('z'), V('acc')))]),
                    'nested': ('let', [('y', cap)], [('let', [('n2', V('n'))], [call('f', call('-', V('n2'), I(1)), call('cons', V('y'), V('acc')))])]),
                    'inner': call(fn(['m'], call('f', call('-', V('m'), I(1)), call('cons', cap, V('acc')))), V('n'))}[shape]
            add(('defn', 'f', ['n', 'acc'], [0, 0], '', [('cond', [call('<', V('n'), I(1)), V('acc'), step])]), ('def', 'l', call('f', I(3), call('list'))),
                call('map', fn(['g'], call('g')), V('l')), call('map', fn(['g'], call('g')), V('l')))
    # closures made in a loop, and three levels of functions outliving their makers
    add(('def', 'fs', call('list')), ('for', '', ('def', 'i', I(0)), call('<', V('i'), I(3)), ('set', 'i', call('+', V('i'), I(1))), [('let', [('j', V('i'))], [('set', 'fs', call('cons', fn([], ('set', 'j', call('+', V('j'), I(10))), V('j')), V('fs')))])]),
        call('map', fn(['g'], call('g')), V('fs')), call('map', fn(['g'], call('g')), V('fs')))
    lv = lambda b: [fn(['a'], ('let', [('p', call('*', V('a'), I(2)))], [fn(['b'], ('def', 'q', call('+', V('a'), V('b'))), fn(['c'], b))]))]
    for b in (call('list', V('a'), V('p'), V('b'), V('q'), V('c')), ('begin', [('set', 'a', call('+', V('a'), V('c'))), ('set', 'q', call('+', V('q'), I(1))), call('list', V('a'), V('q'))])):
        add(('def', 'm', lv(b)[0]), ('def', 'f1', call('m', I(1))), ('def', 'f2', call('f1', I(2))), ('def', 'f3', call('f1', I(3))),
            call('list', call('f2', I(4)), call('f3', I(5)), call('f2', I(6)), call(call(call('m', I(7)), I(8)), I(9))), call('f1', I(0)), call('f2', I(0)))
    return out

def late(thorough):
    """a closure made before the definition it uses exists: the definition arrives later
    in the same scope, in the scope around it, or in the function's own scope"""
    out = []
    mks = {'fn': lambda b: fn([], *b), 'fnp': lambda b: call(fn(['q'], fn([], *b)), I(0)), 'scopefn': lambda b: ('scope', [fn([], *b)]), 'letfn': lambda b: ('let', [], [fn([], *b)]), 'letqfn': lambda b: ('let', [('q', I(1))], [fn([], *b)]),
           'scope2': lambda b: ('scope', [('scope', [fn([], *b)])]), 'scopeq': lambda b: ('scope', [('def', 'q', I(2)), fn([], *b)]), 'fn0': lambda b: call(fn([], fn([], *b))), 'fn00': lambda b: call(call(fn([], fn([], fn([], *b))))),
           'letseqfn': lambda b: ('letseq', [], [fn([], *b)]), 'defnf': lambda b: ('begin', [defn('inner', [], *b), V('inner')]), 'scopedefn': lambda b: ('scope', [defn('inner', [], *b), V('inner')])}
    bodies = {'rd': [V('x')], 'up': [('set', 'x', call('+', V('x'), I(10))), V('x')], 'let': [('let', [('z', V('x'))], [V('z')])], 'scope': [('scope', [V('x')])]}
    latedefs = {'def': ('def', 'x', I(5)), 'set': ('set', 'x', I(5)), 'mdef': ('mdef', ['x', 'yy'], call('list', I(5), I(6))), 'defn': None, 'two': ('begin', [('def', 'x', I(4)), ('set', 'x', I(5))])}
    outer = {'scope': lambda b: ('scope', b), 'let': lambda b: ('let', [], b), 'letq': lambda b: ('let', [('w', I(1))], b), 'letseq': lambda b: ('letseq', [], b), 'fn': lambda b: call(fn([], *b)), 'fnp': lambda b: call(fn(['w'], *b), I(1)),
             'scopescope': lambda b: ('scope', [('scope', b)]), 'fnscope': lambda b: call(fn([], ('scope', b))), 'fnlet': lambda b: call(fn([], ('let', [], b))), 'begin': lambda b: ('begin', b)}
    for (on, o), (mn, m), (bn, b), (ln, l) in itertools.product(sorted(outer.items()), sorted(mks.items()), sorted(bodies.items()), sorted(latedefs.items(), key=lambda z: z[0])):
        if l is None:
            l = defn('x', ['k'], V('k')); b = [call('x', I(8))]
            if bn != 'rd':
                continue
        for glob in (0, 1):
            pre = [('def', 'x', I(1))] if glob and ln != 'defn' else []
            use = [tr('u', call('g')), tr('v', call('g')), tr('w', V('x')) if ln != 'defn' else I(0)]
            body = [('def', 'g', m(b)), l] + use + [V('g')]
            out.append(pre + [('def', 'k', o(body)), call('k')])
            if mn in ('fn', 'scopefn', 'fn0', 'letfn', 'defnf'):
                # the late definition is made after other scopes have come and gone, and by another activation
                out.append(pre + [('defn', 'mk', ['n'], [0], '', [o([('def', 'g', m(b)), ('let', [('x', I(70))], [tr('s', V('x'))]), l] + ([('set', 'x', V('n'))] if ln != 'defn' else []) + [V('g')])]),
                                  ('def', 'A', call('mk', I(20))), ('def', 'B', call('mk', I(30))), call('list', call('A'), call('B'), call('A')), ('let', [('x', I(99))], [call('list', call('A'), call('B'))])])
    # two closures of one activation, one made before and one after the definition
    for on, o in sorted(outer.items()):
        for m1, m2 in itertools.product(sorted(mks), sorted(mks)):
            out.append([('def', 'x', I(1)), ('def', 'fs', o([('def', 'g', mks[m1](bodies['up'])), ('def', 'x', I(5)), ('def', 'h', mks[m2](bodies['up'])), call('list', V('g'), V('h'))])),
                        call('list', call(call('first', V('fs'))), call(call('second', V('fs'))), call(call('first', V('fs')))), V('x')])
    return out

def funcs():
    """the typed (func …) form creates closures as well"""
    def func(n, p, *body):
        f = ('defn', n, [p], [0], '', list(body))
        return ('mac', '(func %s [%s:int64] [r:int64] %s)' % (n, p, ' '.join(text(b) for b in body)), f)
    out = []
    # the value of a func form is the function itself, of a defn form nil: do not look at it
    q = lambda f: ('begin', [f, I(0)])
    for upd in (0, 1):
        use = [('set', 'x', call('+', V('x'), V('a'))), V('x')] if upd else [call('+', V('x'), V('a'))]
        out.append([('def', 'x', I(1)), q(func('g', 'a', *use)), ('let', [('x', I(99))], [call('g', I(2))]), call(fn(['x'], call('g', I(2))), I(50)), V('x')])
        for mk in (defn('mk', ['x'], q(func('g', 'a', *use)), V('g')), defn('mk', ['p'], ('let', [('x', V('p'))], [q(func('g', 'a', *use)), V('g')])),
                   defn('mk', ['p'], ('def', 'x', V('p')), call(fn([], q(func('g', 'a', *use)), V('g'))))):
            out.append([('def', 'x', I(7)), mk, ('def', 'A', call('mk', I(1))), ('def', 'B', call('mk', I(2))), ('let', [('x', I(99))], [call('list', call('A', I(1)), call('B', I(1)), call('A', I(1)), call('apply', V('B'), ('arr', [I(5)])))]), V('x')])
    return out

def run(rep):
    thorough = C.TIER == 'thorough'
    drv = C.build_driver()
    progs = [{'forms': f} for f in systematic(thorough) + late(thorough) + funcs()]
    nsys = len(progs)
    for i in range(15000 if thorough else 1500):
        r = random.Random(C.SEED * 1000033 + i)
        g = core.Gen(r, lazy=r.random() < 0.2, err=r.choice([0, 0.01]), depth=r.choice([4, 5]), closures=2.5, names=list('abc'))
        progs.append({'forms': g.program(r.randint(2, 4))})
    st, _ = core.validate(rep, drv, progs)
    import c02
    c02.report(rep, st, nsys, progs)
