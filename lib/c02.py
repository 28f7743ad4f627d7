"""C02: evaluation matches the reference semantics.  Core.tla is the reference
evaluator; every program below is run by the real interpreter and by the machine
(TLC), and value, error and effect order must agree."""
import random, itertools
import common as C, core
from core import V, I, call, tr, text
LEVEL = 'model_checking'
L = lambda *v: ('lit', list(v))
TV = [L('bool', 0), L('bool', 1), I(0), I(2), L('nil'), L('str', ''), ('arr', [])]

def t(k, e):
    return tr(k, e)

NIL0 = ('lit', ['nil'], '()')
def simple_arms():
    return [L('bool', 1), L('bool', 0), L('nil'), NIL0, I(0), I(2), L('str', ''), L('str', 'x'), ('arr', []), ('arr', [I(0)]), L('char', 99), call('list'), L('list', [['int', 1]]), L('sym', 'q'),
            V('va'), call('f0'), ('begin', []), ('scope', []), ('let', [('q', I(0))], [V('q')]), call('hash'), ('fn', [], [], '', [I(1)])]

def literals(thorough, rng):
    """and / or / cond over arms that are literals or other simple expressions,
    in every position"""
    out = []
    pre = [('def', 'va', I(0)), ('def', 'f0', ('fn', [], [], '', [NIL0]))]
    S = simple_arms()
    add = lambda *e: out.append(pre + [call('list', *e)])
    for a in S:
        for b in S:
            add(('and', [a, b]), ('or', [a, b]), ('cond', [a, b, I(5)]), ('cond', [a, I(6), b]))
            add(t('1', ('or', [a, t('2', b)])), t('3', ('and', [a, t('4', b)])), ('and', [t('5', a), b, t('6', a)]), ('or', [t('7', b), a, t('8', b)]))
            add(('cond', [('or', [a, b]), I(1), I(2)]), ('cond', [('and', [a, b]), I(1), I(2)]), ('cond', [('not', a) if 0 else call('not', a), b, I(5)]),
                ('or', [('and', [a, b]), I(3)]), ('and', [('or', [a, b]), I(3)]), ('or', [a, ('or', [b, I(4)])]), ('and', [('and', [a, b]), I(4)]))
            out.append(pre + [('and', [a, b, I(7)])]); out.append(pre + [('or', [a, b, I(7)])])
    for a, b, c in itertools.product(S, S, S):
        if rng.random() < (1 if thorough else 0.06):
            add(('and', [a, b, c]), ('or', [a, b, c]), ('cond', [a, I(1), b, c, I(2)]), ('cond', [a, b, c]))
    return out

def jumps(thorough, rng, full=False):
    """break and continue out of every kind of place a loop body can have, to depth 3.
    Every context keeps the number of values its form leaves."""
    J = [('break', ''), ('continue', ''), ('break', 'O'), ('continue', 'O'), ('break', 'N'), ('continue', 'N')]
    on = lambda e: ('cond', [('and', [call('==', V('i'), I(1)), call('==', V('j'), I(1))]), e, I(0)])
    ctx = {
        'let': lambda h: ('let', [('x', V('j'))], [h, t('x', V('x'))]), 'letrhs': lambda h: ('let', [('x', I(1)), ('y', h)], [t('y', V('y'))]), 'letseq': lambda h: ('letseq', [('x', V('i')), ('y', V('x'))], [t('y', V('y')), h]),
        'letseqrhs': lambda h: ('letseq', [('x', h), ('y', V('x'))], [t('y', V('y'))]),
        'scope': lambda h: ('scope', [('def', 'x', V('i')), h, t('s', V('x'))]), 'scopelast': lambda h: ('scope', [('def', 'x', V('i')), h]), 'begin': lambda h: ('begin', [h, t('b', I(0))]), 'beginlast': lambda h: ('begin', [t('b', I(0)), h]),
        'and1': lambda h: ('and', [h, t('a', I(1))]), 'and2': lambda h: ('and', [t('a', I(1)), h]), 'andmid': lambda h: ('and', [I(1), h, t('a', I(2))]), 'or1': lambda h: ('or', [h, t('o', I(1))]), 'or2': lambda h: ('or', [t('o', I(0)), h]),
        'ormid': lambda h: ('or', [I(0), h, t('o', I(2))]), 'test': lambda h: ('cond', [h, t('c', I(1)), t('c', I(2))]), 'arm': lambda h: ('cond', [t('c', I(1)), h, I(3)]), 'else': lambda h: ('cond', [t('c', I(0)), I(1), h]),
        'test2': lambda h: ('cond', [t('c', I(0)), I(1), h, I(2), I(3)]), 'def': lambda h: ('def', 'dd', h), 'set': lambda h: ('set', 'i9', h), 'mdef': lambda h: ('mdef', ['m1', 'm2'], h), 'assert': lambda h: ('assert', ('begin', [h, I(1)])),
    }
    # operand positions hold values of the surrounding expression: a jump there is not possible
    loop = lambda h: [('def', 'i9', I(0)), ('for', 'O', ('def', 'i', I(0)), call('<', V('i'), I(3)), ('set', 'i', call('+', V('i'), I(1))),
                      [t('i', V('i')), ('for', 'N', ('def', 'j', I(0)), call('<', V('j'), I(3)), ('set', 'j', call('+', V('j'), I(1))), [t('j', V('j')), h, t('je', V('j'))]), t('ie', V('i'))]), call('list', L('str', 'end'), V('i9'))]
    out = []
    ks = sorted(ctx)
    paths = [[a] for a in ks] + [[a, b] for a in ks for b in ks]
    tri = [[a, b, c] for a in ks for b in ks for c in ks]
    paths += tri if thorough else rng.sample(tri, 250)
    for p in paths:
        for j in J if len(p) == 1 or thorough else rng.sample(J, 2 if len(p) == 2 else 1):
            e = on(j)
            for k in reversed(p):
                e = ctx[k](e)
            f = loop(e)
            if rng.random() < 0.3:
                f = [('defn', 'ff', ['p'], [0], '', f), call('list', call('ff', I(1)), call('ff', I(2)))]
            out.append(f)
    return out

def callshapes():
    """every number of formals, with and without a variadic tail, called with every number
    of arguments, at top level and elsewhere"""
    out = []
    for np in range(4):
        for rest in (0, 1):
            for lz in (0, 1):
                if lz and not np:
                    continue
                ps = (['#a'] if lz else ['a']) * (np > 0) + ['b', 'c'][:max(0, np - 1)]
                z = [lz] * (np > 0) + [0] * max(0, np - 1)
                for bi, body in enumerate(([I(7)], [V('r') if rest else I(1)], [call('list', *[call('force', V(p)) if p[0] == '#' else V(p) for p in ps] + ([V('r')] if rest else []))],
                             [('let', [('q', I(1))], [t('b', V('q'))]), I(3)])):
                    for na in range(6):
                        args = [t('x%d' % i, I(i)) for i in range(na)]
                        R = 'r' if rest else ''
                        top = ('defn', 'f', ps, z, R, body)
                        out.append([top, ('call', V('f'), args), I(5), ('let', [('w', I(1))], [('call', V('f'), args)]), call('list', ('call', V('f'), args))])
                        if bi == 2:
                            out.append([('call', ('fn', ps, z, R, body), args), ('def', 'g', ('fn', ps, z, R, body)), ('call', V('g'), args), call('apply', V('g'), ('arr', args)) if args else I(1), call('map', V('g'), ('arr', args)) if na < 3 else I(0)])
                            out.append([('defn', 'f', ps, z, R, [('cond', [call('<', call('tr', L('str', 'n'), I(2)), I(1)), ('call', V('f'), args), I(4)])]), ('call', V('f'), args)])
                            out.append([top, ('defn', 'h', ['p'], [0], '', [('call', V('p'), args)]), call('h', V('f')), ('and', [('call', V('f'), args), I(2)]), ('cond', [('call', V('f'), args), I(1), I(2)])])
    return out

def systematic(thorough):
    out = []
    add = lambda *forms: out.append(list(forms))
    rng = random.Random(C.SEED)
    out += literals(thorough, rng) + jumps(thorough, rng) + callshapes()
    # cond / and / or: which arms are evaluated, in which order, and what is returned
    for n in (1, 2, 3):
        for vs in itertools.product(TV, repeat=n) if n < 3 else itertools.product(TV[:4], repeat=3):
            add(('and', [t('a%d' % i, v) for i, v in enumerate(vs)]))
            add(('or', [t('a%d' % i, v) for i, v in enumerate(vs)]))
            add(call('list', ('and', list(vs)), ('or', list(vs)), call('not', vs[0])))
    for a, b in itertools.product(TV, TV):
        add(('cond', [t('p', a), t('x', I(1)), t('q', b), t('y', I(2)), t('z', I(3))]))
        add(call('+', I(1), ('cond', [t('p', a), ('cond', [t('q', b), I(10), I(20)]), ('and', [t('r', b), I(5)])])))
    for a in TV:
        add(('cond', [a, ('begin', [t('x', I(1)), t('y', I(2))]), ('begin', [t('z', I(3))])]))
        add(('or', [('and', [t('1', a), t('2', I(7))]), ('and', [t('3', I(8)), t('4', a)]), t('5', I(9))]))
    # calls: order of callee and operands, arity, variadic tails, every route
    for np in range(4):
        for rest in (0, 1):
            ps = ['a', 'b', 'c'][:np]
            body = [call('list', *[V(p) for p in ps + (['r'] if rest else [])])]
            fn = ('fn', ps, [0] * np, 'r' if rest else '', body)
            for na in range(5):
                args = [t('x%d' % i, I(i + 1)) for i in range(na)]
                add(('def', 'f', fn), ('call', t('callee', V('f')), args))
                add(('call', fn, args))
                add(('defn', 'f', ps, [0] * np, 'r' if rest else '', body), ('call', V('f'), args), ('def', 'g', V('f')), ('call', V('g'), args))
                if na:
                    add(('def', 'f', fn), call('apply', t('fn', V('f')), ('arr', args)))
                    add(('def', 'f', fn), call('apply', V('f'), call('list', *args)))
                else:
                    add(('def', 'f', fn), call('apply', V('f'), ('arr', [])))
                if na < 4:
                    add(('def', 'f', fn), call('map', t('fn', V('f')), ('arr', args)))
                    add(('def', 'f', fn), call('map', V('f'), call('list', *args)))
                    add(('def', 'h', ('fn', ['p', 'q'], [0, 0], '', [('call', V('p'), args), V('q')])), call('h', fn, I(3)))
    for fa in ('+', 'list', 'array', 'cons', 'hash', '<', '=='):
        add(('call', t('f', V(fa)), [t('1', I(1)), t('2', I(2))]))
    add(('arr', [t('1', I(1)), ('arr', [t('2', I(2)), t('3', I(3))]), t('4', I(4))]))
    add(call('hash', t('k1', L('str', 'a')), t('v1', I(1)), t('k2', L('str', 'b')), t('v2', I(2))))
    # the callee is looked up before the operands are evaluated, the operands before the body
    add(('def', 'f', ('fn', ['a'], [0], '', [I(1)])), call('f', ('begin', [('set', 'f', ('fn', ['a'], [0], '', [I(2)])), I(0)])), call('f', I(0)))
    add(call(I(3), t('x', I(1)))); add(call('zz', t('x', I(1)))); add(call(L('str', 's'), t('x', I(1))))
    add(('def', 'a', I(1)), call('list', V('a'), ('begin', [('set', 'a', I(2)), V('a')]), V('a')))
    # def, set, mdef, let, letseq, newScope, begin
    for form in ('let', 'letseq'):
        add(('def', 'a', I(1)), (form, [('b', t('1', I(5))), ('c', t('2', V('a')))], [('set', 'a', I(9)), ('def', 'b', I(7)), call('list', V('a'), V('b'), V('c'))]), call('list', V('a')), V('b'))
        add((form, [], [I(4)]))
        add(('def', 'a', I(1)), (form, [('a', I(2))], [(form, [('a', I(3))], [('set', 'a', I(4)), t('in', V('a'))]), t('mid', V('a'))]), V('a'))
    add(('letseq', [('a', I(1)), ('b', call('+', V('a'), I(1))), ('a', call('+', V('b'), I(1)))], [call('list', V('a'), V('b'))]))
    add(('def', 'a', I(1)), ('scope', [('def', 'a', I(2)), ('scope', [('set', 'a', I(3)), ('def', 'b', V('a'))]), V('a')]), V('a'), V('b'))
    add(('scope', [])); add(('begin', []))
    add(('mdef', ['a', 'b'], call('list', t('1', I(1)), t('2', I(2)))), call('list', V('a'), V('b')))
    add(('mdef', ['a', 'b', 'c'], call('list', I(1), I(2)))); add(('mdef', ['a'], call('list', I(1), I(2))), V('a'))
    add(('def', 'a', ('def', 'b', t('x', I(3)))), call('list', V('a'), V('b'))); add(('set', 'a', I(3)), V('a'))
    add(('def', 'a', I(1)), ('def', 'a', L('str', 's')), V('a')); add(('def', 'a', I(1)), ('set', 'a', L('str', 's')), V('a'))
    # loops
    for lo, hi in ((0, 0), (0, 1), (0, 3), (2, 1)):
        for body in ([], [t('b', V('i'))], [t('b', V('i')), t('c', V('i'))]):
            add(('for', '', t('init', ('def', 'i', I(lo))), t('test', call('<', V('i'), I(hi))), t('incr', ('set', 'i', call('+', V('i'), I(1)))), body), V('i'))
    jmps = [(j, l) for j in ('break', 'continue') for l in ('', 'A', 'B', 'C')]
    wraps = [lambda j: j, lambda j: ('begin', [t('w', I(0)), j]), lambda j: ('let', [('x', I(1))], [t('w', V('x')), j]),
             lambda j: ('letseq', [('x', I(1)), ('y', V('x'))], [j, t('dead', I(0))]), lambda j: ('scope', [('def', 'x', I(1)), j]),
             lambda j: ('let', [('x', I(1))], [('scope', [('cond', [L('bool', 1), j, I(0)])])])]
    def loop(lab, v, hi, body):
        return ('for', lab, ('def', v, I(0)), call('<', V(v), I(hi)), ('set', v, call('+', V(v), I(1))), body)
    def jstmt(j, w, at):
        return ('cond', [('and', [call('==', V(v), I(k)) for v, k in at]), w(j), I(0)])
    for (j, l) in jmps:
        for w in wraps:
            # three nested loops A > B > C; the jump sits in the innermost / middle / outer body
            if l in ('', 'A', 'B', 'C'):
                add(loop('A', 'i', 3, [t('a', V('i')), loop('B', 'j', 3, [t('b', V('j')), loop('C', 'k', 3, [jstmt((j, l), w, [('i', 1), ('j', 1), ('k', 1)]), t('c', V('k'))]), t('b2', V('j'))]), t('a2', V('i'))]), L('str', 'end'))
            if l in ('', 'A', 'B'):
                add(loop('A', 'i', 3, [loop('B', 'j', 3, [jstmt((j, l), w, [('i', 1), ('j', 1)]), t('b', V('j')), loop('C', 'k', 2, [t('c', V('k'))])]), t('a2', V('i'))]), L('str', 'end'))
            if l in ('', 'A'):
                add(loop('A', 'i', 4, [jstmt((j, l), w, [('i', 2)]), t('a', V('i')), loop('B', 'j', 2, [t('b', V('j'))])]), ('let', [('i', I(9))], [V('i')]))
                add(('def', 'f', ('fn', ['n'], [0], '', [loop('A', 'i', 4, [jstmt((j, l), w, [('i', 1)]), t('a', call('+', V('n'), V('i')))]), t('after', V('n'))])), call('list', call('f', I(1)), call('f', I(10))))
            # several jumps in one body, and two loops after each other
            if l in ('', 'A', 'B'):
                add(loop('A', 'i', 3, [loop('B', 'j', 4, [jstmt((j, l), w, [('j', 2)]), jstmt(('continue', ''), wraps[0], [('j', 0)]), t('b', V('j'))]), loop('C', 'k', 2, [t('k', V('k'))])]))
    # a loop inside an operand, a call inside a loop, loops in recursive functions
    add(call('list', I(1), ('begin', [loop('', 'i', 2, [t('a', V('i'))]), I(5)]), I(3)))
    add(('defn', 'f', ['n'], [0], '', [loop('', 'i', 3, [('cond', [call('<', I(0), V('n')), call('f', call('-', V('n'), I(1))), t('x', V('i'))]), ('cond', [call('==', V('i'), V('n')), ('break', ''), I(0)])]), V('n')]), call('f', I(2)))
    # arithmetic, comparison, containers: operand counts and kinds
    for op in ('+', '-', '*', '/', 'mod', '<', '>', '<=', '>=', '==', '!=', 'not', 'cons', 'first', 'rest', 'second', 'len', 'append', 'concat', 'aget', 'aset', 'hget',
               'hset', 'hdel', 'keys', 'null?', 'empty?', 'list?', 'zero?', 'str', 'hpair', 'slice', 'appendslice', 'makeArray', 'list', 'array', 'hash', 'type?', 'map', 'apply', 'int?', 'func?'):
        pool = [I(2), I(0), L('str', 'ab'), ('arr', [I(5), I(6)]), call('list', I(1), I(2)), call('hash', L('str', 'ab'), I(4)), L('nil'), L('bool', 1), V('+')]
        add(call(op))
        for a in pool:
            add(call(op, a))
            for b in pool:
                add(call(op, a, b))
        for a in pool[:7]:
            for b in pool[:4]:
                for c in (I(1), I(2), L('str', 'z')):
                    add(call(op, a, b, c))
    # mutation is seen through every alias; results of append/concat/apply do not share storage
    mk = [('def', 'a', ('arr', [I(1), I(2), I(3)]))]
    for e in (V('a'), call('append', V('a'), I(4)), call('concat', V('a'), ('arr', [I(4)])), call('map', ('fn', ['x'], [0], '', [V('x')]), V('a')), call('apply', V('array'), V('a')),
              call('appendslice', V('a'), ('arr', [I(9)])), call('apply', ('fn', ['x', '&', 'y'][:1], [0], 'y', [V('y')]), V('a')), call('first', call('list', V('a'))), call('hget', call('hash', I(1), V('a')), I(1))):
        add(*mk, ('def', 'b', e), call('aset', V('a'), I(0), I(7)), call('list', V('a'), V('b')), call('aset', V('b'), I(1), I(8)), call('list', V('a'), V('b')))
    for e in (V('h'), call('first', call('list', V('h')))):
        add(('def', 'h', call('hash', L('str', 'a'), I(1))), ('def', 'g', e), call('hset', V('g'), L('str', 'b'), I(2)), call('hdel', V('h'), L('str', 'a')), call('list', V('h'), V('g')))
    add(('def', 'a', ('arr', [I(1), I(2), I(3)])), ('def', 'x', call('append', V('a'), I(4))), ('def', 'y', call('append', V('a'), I(5))), ('def', 'z', call('append', V('x'), I(6))), ('def', 'w', call('append', V('x'), I(7))), call('list', V('x'), V('y'), V('z'), V('w')))
    add(('def', 'a', ('arr', [I(1), I(2), I(3)])), call('map', ('fn', ['x'], [0], '', [call('aset', V('a'), I(2), I(9)), V('x')]), V('a')))
    # recursion
    add(('defn', 'f', ['n'], [0], '', [('cond', [call('<', V('n'), I(2)), I(1), call('*', V('n'), call('f', call('-', V('n'), I(1))))])]), call('f', I(6)))
    add(('defn', 'f', ['n'], [0], '', [('cond', [call('<', V('n'), I(2)), V('n'), call('+', call('f', call('-', V('n'), I(1))), call('f', call('-', V('n'), I(2))))])]), call('map', V('f'), ('arr', [I(1), I(5), I(8)])))
    add(('defn', 'e', ['n'], [0], '', [('cond', [call('==', V('n'), I(0)), L('bool', 1), call('o', call('-', V('n'), I(1)))])]), ('defn', 'o', ['n'], [0], '', [('cond', [call('==', V('n'), I(0)), L('bool', 0), call('e', call('-', V('n'), I(1)))])]), call('list', call('e', I(7)), call('o', I(7))))
    return out

def run(rep):
    thorough = C.TIER == 'thorough'
    drv = C.build_driver()
    progs = [{'forms': f} for f in systematic(thorough)]
    nsys = len(progs)
    for i in range(20000 if thorough else 3500):
        r = random.Random(C.SEED * 1000003 + i)
        g = core.Gen(r, err=r.choice([0, 0.02, 0.05]), depth=r.choice([3, 4, 5]), closures=r.choice([0.3, 1]))
        progs.append({'forms': g.program(r.randint(1, 4))})
    st, _ = core.validate(rep, drv, progs)
    report(rep, st, nsys, progs)

def report(rep, st, nsys, progs):
    ok = st.pop('ok_idx')
    rep.cov.update(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=st['checked'], programs=st['programs'], forms=st['forms'],
                   effects=st['effects'], error_outcomes=st['errors'], systematic=nsys, outside_spec=st['beyond'])
    for i in ok[:1] + ok[len(ok) // 2:len(ok) // 2 + 1] + ok[-3:]:
        rep.sample([text(f) for f in progs[i]['forms']])
    rep.assumptions += ['integers stay below 10^9 in the generated programs', 'hash keys are integers, strings and symbols', 'error text is compared by class, not word for word']
