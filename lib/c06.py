"""C06: infix blocks mean what the precedence table says.
 - InfixGen.tla: over every operator/operand sequence to a length, the binding-power machine of
   Infix.tla and the declarative table give one and the same tree.
 - the same sequences, and random statements with calls, blocks, selectors, slices, paths, if/else,
   loops and comments, in several spacings, are expanded by the real code; TLC reads each text with
   Reader.tla and compares the forms with Infix.tla.
 - the block and its prefix forms are run in fresh interpreters: same value, effects, variables.
 - Core programs written with infix blocks wherever possible are compared with the Core machine."""
import random, re, json, os, itertools
import common as C, core, reader
LEVEL = 'model_checking'
BIN = ['=', ':=', '+=', '-=', 'and', 'or', '==', '!=', '<', '<=', '>', '>=', '+', '-', '*', '/', 'mod', '**', ',']
FEW = ['=', '+=', 'and', 'or', '==', '<', '+', '-', '*', 'mod', '**', ',']
AFTER = ['++', '--', '[0]', '.b']
PRE = ['not', '*']
WORD = re.compile(r'[A-Za-z0-9_]')

def join(toks, tight):
    """tight: 0 = spaces everywhere, 1 = as few as possible"""
    if not tight:
        return '{' + ' '.join(toks) + '}'
    s = ''
    for t in toks:
        glue = s and ((WORD.match(t[0]) and WORD.match(s[-1])) or (s[-1] in '+-*=<>!&|:' and t[0] in '+-*=<>!&|:') or (s[-1] in ')"\'}]`' and WORD.match(t[0])) or (WORD.match(s[-1]) and t[0] in '"\'`%({') or t[0] == ':')
        s += (' ' if glue else '') + t
    return '{' + s + '}'

def sequences(n, ops):
    """complete sequences to n tokens"""
    out = []
    def go(t, want):
        if not want:
            out.append(t)
        if len(t) == n:
            return
        if want:
            go(t + ['abcdefg'[sum(x in 'abcdefg' for x in t)]], False)
            for p in PRE:
                go(t + [p], True)
        else:
            for o in ops:
                go(t + [o], True)
            for o in AFTER:
                go(t + [o], False)
    go([], True)
    return out

# ------------------------------------------------------------ random statements (for the trees)
class Soup:
    def __init__(self, r):
        self.r = r
    def prim(self, d, first):
        r = self.r
        k = r.choices(['var', 'int', 'lit', 'call', 'block', 'path', 'quote', 'arr'], [8, 5, 3, 2 if d else 0, 2 if d else 0, 2, 1, 2 if first else 0])[0]
        if k == 'var': return r.choice(['a', 'b', 'c', 'i', 'j', 'xs', 'notx', 'andy', 'modx', 'iff', 'forx', 'x_1', 'inf2', 'Inff'])
        if k == 'int': return r.choice(['0', '1', '2', '10', '-3', '0x1F', '1_000', '-9223372036854775808', '7ULL', '0b11'])
        if k == 'lit': return r.choice(['1.5', '-2.5e-3', '"s"', '"a{b}"', "'c'", 'true', 'false', 'nil', '`raw`', '.5', '1e3', '()', '{}'])
        if k == 'call': return '(%s)' % ' '.join([r.choice(['f', 'g', '+', 'list', '-'])] + [self.block(d - 1) if r.random() < .3 else self.prim(d - 1, True) for _ in range(r.randint(0, 3))])
        if k == 'block': return self.block(d - 1)
        if k == 'path': return r.choice(['h.a', 'h.a.b', 'p.Q', 'h.x.y.z'])
        if k == 'quote': return r.choice(['%s', '%(a b)', "^(a ~b)", '(quote {a + b})'])
        return '[%s]' % ' '.join(self.prim(d - 1 if d else 0, True) for _ in range(r.randint(0, 3)))
    def sel(self, d):
        r = self.r
        k = r.random()
        if k < .3: return '.' + r.choice(['b', 'x.y', 'Zed', 'b.c'])
        if k < .5: return '[%s]' % r.choice(['0', 'i', '-1', '"k"', 'i j', '0, 1', 'a:', "'c'", '%s', 'h.a'])
        e = lambda: ' '.join(self.expr(max(0, d - 1), 3))
        if k < .7: return '[%s]' % e()
        return r.choice(['[%s:%s]', '[%s : %s]', '[%s: %s]', '[%s :%s]']) % (e() if r.random() < .8 else '', e() if r.random() < .8 else '')
    def operand(self, d):
        r = self.r
        t = []
        while r.random() < .12:
            t.append(r.choice(PRE))
        t.append(self.prim(d, not t))
        while r.random() < .22:
            t.append(self.sel(d))
        while r.random() < .06:
            t.append(r.choice(['++', '--']))
        return t
    def expr(self, d, n):
        r = self.r
        t = self.operand(d)
        for _ in range(r.randint(0, n)):
            t.append(r.choice(BIN)); t += self.operand(d)
        return t
    def stmt(self, d):
        r = self.r
        k = r.choices(['e', 'if', 'jump', 'for'], [12, 3 if d else 0, 1, 1 if d else 0])[0]
        if k == 'e': return self.expr(d, 5)
        if k == 'jump': return [r.choice(['break', 'continue'])] + r.choice([[], ['lab'], ['lab:']])
        if k == 'if':
            t = ['if'] + self.expr(d - 1, 3) + self.arm(d - 1)
            while r.random() < .3:
                t += ['else', 'if'] + self.expr(d - 1, 2) + self.arm(d - 1)
            if r.random() < .6:
                t += ['else'] + self.arm(d - 1)
            return t
        t = r.choice([[], ['lab:']]) + ['for']
        t += r.choice([['i', ':=', '0', ';', 'i', '<', '3', ';', 'i', '++'], ['a', '<', 'b'], ['k', ',', 'v', ':=', 'range', 'xs'], []])
        return t + [self.block(d - 1)]
    def arm(self, d):
        r = self.r
        return [self.block(d)] if r.random() < .7 else self.expr(d, 2)
    def tokens(self, d):
        t = []
        for k in range(self.r.randint(1, 4 if d > 1 else 2)):
            if k: t.append(self.r.choice([';', ';', '\n', '\n', ';\n', '; ;' if d > 1 else ';']))
            t += self.stmt(d)
        if self.r.random() < .1: t.append(';')
        return t
    def block(self, d):
        return join(self.tokens(max(d, 0)), self.r.choice([0, 0, 1])) if self.r.random() < .95 else '{}'
    def text(self):
        r = self.r
        t = self.tokens(r.choice([0, 1, 1, 2, 2, 3]))
        how = r.random()
        if how < .35: return join(t, 1)
        if how < .7: return join(t, 0)
        s = '{'
        for x in t:
            s += x + r.choice(['', '', ' ', ' ', '  ', '\n', '\t', ' /* c */ ', ' // d\n'])
        return s + '}'

# ------------------------------------------------------------ writing forms as prefix text
def unlimb(q):
    n = 0
    for x in reversed(q):
        n = n * 4096 + x
    return n

def ptext(v):
    """a value as the text of a prefix form; None if that cannot be said"""
    k = v['k']
    if k in ('list', 'array'):
        q = v['v']
        if k == 'list' and q and q[0] == {'k': 'sym', 'v': 'infix'}:
            if len(q) < 2: return '{}'
            a = [ptext(x) for x in q[1]['v']]
            return None if None in a else '{' + ' '.join(a) + '}'
        a = [ptext(x) for x in q]
        return None if None in a else ('(%s)' if k == 'list' else '[%s]') % ' '.join(a)
    if k == 'int': return str(v['v'])
    if k == 'sym': return v['v']
    if k == 'str': return json.dumps(v['v']) if 'v' in v else None
    if k == 'bool': return 'true' if v['v'] else 'false'
    if k == 'nil': return 'nil'
    if k == 'comma': return ','
    if k == 'semi': return ';'
    if k == 'hash' and not v['v']: return '{}'
    if k == 'char' and 97 <= v['v'] <= 122: return "'%s'" % chr(v['v'])
    return None

# ------------------------------------------------------------ statements that can be run
EVPRE = ['(def a 5) (def b -2) (def c 7) (def i 1) (def j 2) (def t true) (def u false) (def s "abc") (def xs [10 20 30 40 50]) (def m [[1 2] [3 4] [5 6]])',
         '(def h (hash a: 3 b: (hash c: 4 d: [7 8 9]) e: xs))', '(def f (fn [x] (tr "f" x))) (def g (fn [x y] (tr "g" (- x y)))) (def ys (list 1 2 3))',
         '(def r (hash k: 1 l: (hash m: 2)))']
EVPOST = ['(list a b c i j t u s)', '(list xs m h r)']
class Run(Soup):
    """statements over the variables of EVPRE"""
    def int(self, d):
        r = self.r
        k = r.choices(['v', 'n', 'tr', 'fn', 'idx', 'path', 'block', 'len', 'if'], [8, 5, 3 if d else 0, 2 if d else 0, 3, 3, 3 if d else 0, 1, 0])[0]
        if k == 'v': return [r.choice('abcij')]
        if k == 'n': return [str(r.randint(0, 12))]
        if k == 'tr': return ['(tr "%s" %s)' % (r.choice('pqr'), self.wrap(self.ie(d - 1, 2)))]
        if k == 'fn': return ['(f %s)' % self.wrap(self.ie(d - 1, 2))] if r.random() < .5 else ['(g %s %s)' % (self.wrap(self.ie(d - 1, 2)), self.wrap(self.ie(d - 1, 1)))]
        if k == 'idx':
            q = r.random()
            ix = lambda: r.choice(['i', 'j', '0', '3', 'i + j', 'i * 2', 'j - i', '(tr "ix" i)', '{i + 1}', 'i+j', '2 - i * 1'])
            if q < .5: return ['xs', '[%s]' % ix()]
            if q < .7: return ['m', '[%s]' % r.choice(['i', '0', 'j', 'i + 1']), '[%s]' % r.choice(['i', '0', 'j - i'])]
            if q < .85: return ['xs', '[%s]' % r.choice(['i : j + 2', '0:4', 'i :', ': 3', 'i : i + j', ':', '1: ', 'i :5', '(tr "lo" 1) : (tr "hi" 3)']), '[0]']
            return ['h.e', '[%s]' % ix()]
        if k == 'path': return r.choice([['h.a'], ['h.b.c'], ['h', '.a'], ['h', '.b', '.c'], ['h', '.b.c'], ['h.b.d', '[%s]' % r.choice(['0', 'i', 'j'])], ['h.b', '.d', '[i]'], ['r.l.m'], ['(hget h %a)'], ['(:a h)']])
        if k == 'len': return ['(len %s)' % r.choice(['xs', 'm', 'h.e', 's'])]
        return [self.wrap(self.ie(d - 1, 2))]
    def wrap(self, t):
        return join(t, self.r.choice([0, 0, 1]))
    def ie(self, d, n):
        t = self.int(d)
        for _ in range(self.r.randint(0, n)):
            t.append(self.r.choice(['+', '-', '*', '+', '-', '*', '+', '-', '*', 'mod', '/', '**']))
            q = self.int(d)
            if t[-1] in ('**', 'mod', '/'):
                q = [self.r.choice(['2', '3', 'i', 'j', '1'])]
            t += q
        return t
    def be(self, d, n=2):
        r = self.r
        def one():
            k = r.random()
            if k < .65: return self.ie(d, 1) + [r.choice(['<', '<=', '>', '>=', '==', '!='])] + self.ie(d, 1)
            if k < .75: return ['not'] + r.choice([['t'], ['u'], ['(tr "n" t)'], [self.wrap(self.be(max(0, d - 1), 1))]])
            if k < .9: return [r.choice(['t', 'u', '(tr "t" t)', '(tr "u" u)', 'false', 'nil', 'true'])]
            return self.ie(d, 1)
        t = one()
        for _ in range(r.randint(0, n)):
            t += [r.choice(['and', 'or', 'and', 'or', '&&', '||'])] + one()
        return t
    def target(self):
        r = self.r
        return r.choice([['a'], ['b'], ['c'], ['a'], ['b'], ['c'], ['h.a'], ['h.b.c'], ['r.k'], ['xs', '[i]'], ['xs', '[i + j]'], ['xs', '[(tr "at" 0)]'], ['m', '[0]', '[1]'], ['h.b.d', '[1]'], ['r.l.m'], ['h.b', '.d', '[i]'], ['r.fresh'], ['brandnew']])
    def stmt(self, d):
        r = self.r
        k = r.choices(['set', 'op', 'inc', 'ie', 'be', 'if', 'chain', 'multi', 'logic', 'for', 'block'], [5, 2, 2, 3, 3, 3 if d else 0, 1, 1, 2, 1 if d else 0, 1 if d else 0])[0]
        if k == 'set': return self.target() + [r.choice(['=', '=', ':='])] + self.ie(d, 3)
        if k == 'op': return r.choice([['a'], ['b'], ['c'], ['xs', '[i]'], ['xs', '[i + j]'], ['m', '[i]', '[0]']]) + [r.choice(['+=', '-='])] + self.ie(d, 2)
        if k == 'inc': return r.choice([['a'], ['b'], ['c'], ['i'], ['xs', '[j]'], ['xs', '[i + 1]']]) + [r.choice(['++', '--'])]
        if k == 'ie': return self.ie(d, 4)
        if k == 'be': return self.be(d)
        if k == 'logic': return [r.choice('tu'), '='] + self.be(d)
        if k == 'chain': return ['a', '=', 'b', '='] + self.ie(d, 2)
        if k == 'multi': return ['a', ',', 'b', '=', '(list %s %s)' % (self.wrap(self.ie(d, 1)), self.wrap(self.ie(d, 1)))] if r.random() < .3 else ['(tr "m" a)']
        if k == 'block': return [self.block(d - 1)]
        if k == 'for':
            b = self.block(d - 1)
            return r.choice([['for', 'n', ':=', '0', ';', 'n', '<', '3', ';', 'n', '++', b], ['for', 'k', ',', 'v', ':=', 'range', 'h', b], ['for', 'q', ':=', '0', ';', 'q', '<', 'j', ';', 'q', '+=', '2', '{', '(tr "q" q)', '}']])
        t = ['if'] + self.be(d - 1) + [self.block(d - 1)]
        while r.random() < .3:
            t += ['else', 'if'] + self.be(d - 1, 1) + [self.block(d - 1)]
        if r.random() < .6:
            t += ['else', self.block(d - 1)]
        return t
    def tokens(self, d):
        t = []
        for k in range(self.r.randint(1, 4)):
            if k: t.append(self.r.choice([';', ' ; ', '\n', '\n']))
            t += self.stmt(d)
        return t

# ------------------------------------------------------------ Core programs written with infix blocks
LVL = {'=': (10, 9), ':=': (10, 9), '+=': (10, 9), '-=': (10, 9), 'and': (30, 29), 'or': (30, 29), **{o: (40, 40) for o in ('==', '!=', '<', '<=', '>', '>=')}, '+': (50, 50), '-': (50, 50), '*': (60, 60), '/': (60, 60), 'mod': (60, 60), '**': (65, 64)}
INF = 999
class Written:
    """transforms an AST: wherever possible a node becomes ('mac', '{infix text}', node)"""
    def __init__(self, r, p=.85, loops=True):
        self.r, self.p, self.n = r, p, 0
    def sub(self, x):
        k = x[0]
        T = self.tree
        if k in ('call',): return ('call', T(x[1]) if x[1][0] != 'var' else x[1], [T(a) for a in x[2]])
        if k in ('arr', 'begin', 'scope', 'cond', 'and', 'or'): return (k, [T(a) for a in x[1]])
        if k in ('def', 'set', 'mdef'): return (k, x[1], T(x[2]))
        if k in ('let', 'letseq'): return (k, [(n, T(e)) for n, e in x[1]], [T(a) for a in x[2]])
        if k == 'for': return ('for', x[1], T(x[2]), T(x[3]), T(x[4]), [T(a) for a in x[5]])
        if k == 'fn': return ('fn', x[1], x[2], x[3], [T(a) for a in x[4]])
        if k == 'defn': return ('defn', x[1], x[2], x[3], x[4], [T(a) for a in x[5]])
        if k == 'assert': return (k, T(x[1]))
        return x
    def tree(self, x):
        if x[0] in ('lit', 'var', 'evalq', 'bad', 'mac') or self.r.random() > self.p:
            return self.sub(x)
        s = self.stmt(x)
        if s is None:
            return self.sub(x)
        self.n += 1
        return ('mac', '{' + s + '}', x)
    def ws(self, o):
        if o.isalpha(): return ' %s ' % o
        return self.r.choice([' %s ', ' %s ', '%s']) % o if o not in ('-', '+', '*', '**', '/') else ' %s ' % o
    def leaf(self, x):
        return core.text(self.sub(x)), INF, INF
    # -> (text, left power, right power) as an operand or expression
    def ex(self, x):
        r = self.r
        k = x[0]
        if k == 'lit':
            t = core.text(x)
            return t, INF, INF
        if k == 'var':
            return core.text(x), INF, INF
        op, l, rr = None, None, None
        if k == 'call' and x[1][0] == 'var' and x[1][1] in LVL and len(x[2]) == 2 and x[1][1] not in ('and', 'or', '=', ':='):
            op, l, rr = x[1][1], x[2][0], x[2][1]
        elif k in ('and', 'or') and len(x[1]) >= 2:
            op, l, rr = k, x[1][0], x[1][1] if len(x[1]) == 2 else (k, x[1][1:])
            if r.random() < .2: op = {'and': '&&', 'or': '||'}[k]
        elif k == 'set':
            e = x[2]
            if e[0] == 'call' and e[1] in (('var', '+'), ('var', '-')) and len(e[2]) == 2 and e[2][0] == ('var', x[1]) and r.random() < .8:
                if e[2][1] == ('lit', ['int', 1]) and r.random() < .6:
                    return x[1] + r.choice(['', ' ']) + e[1][1] * 2, 10, INF
                if e[2][1][0] in ('lit', 'var'):
                    return self.bin(e[1][1] + '=', ('var', x[1]), e[2][1])
            op, l, rr = r.choice(['=', '=', ':=']), ('var', x[1]), e
        elif k == 'call' and x[1] == ('var', 'not') and len(x[2]) == 1:
            t, L, R = self.ex(x[2][0])
            if not L > 70: t, L, R = '{%s}' % t, INF, INF
            return 'not ' + t, INF, min(70, R)
        if op is None or r.random() < .06:
            return self.leaf(x)
        return self.bin(op, l, rr)
    def bin(self, op, l, rr):
        r = self.r
        lb, rb = LVL[{'&&': 'and', '||': 'or'}.get(op, op)]
        a, aL, aR = self.ex(l)
        b, bL, bR = self.ex(rr)
        if lb > 10 and (not aR >= lb or r.random() < .05): a, aL, aR = '{%s}' % a, INF, INF
        if not bL > rb or r.random() < .05: b, bL, bR = '{%s}' % b, INF, INF
        return a + self.ws(op) + b, min(lb, aL), min(rb, bR)
    def block(self, xs):
        if not xs: return '{}'
        return '{' + self.r.choice(['', ' ']) + self.seq(xs) + self.r.choice(['', ' ', ' ;']) + '}'
    def seq(self, xs):
        s = ''
        for x in xs:
            t = self.stmt(x)
            if t is None: t = core.text(self.sub(x))
            if s: s += self.r.choice(['; ', ';', ' ;\n']) if t[0] in '[*' or s.endswith(('break', 'continue')) else self.r.choice(['; ', '\n', ' ;'])
            s += t
        return s
    def stmt(self, x):
        """statement text, or None when the node has no infix writing"""
        r = self.r
        k = x[0]
        if k == 'begin':
            return self.seq(x[1]) if len(x[1]) > 1 else None
        if k in ('break', 'continue'):
            return k + (' ' + x[1] + r.choice(['', ':']) if x[1] else '')
        if k == 'cond' and len(x[1]) == 3 and not (x[1][1][0] == 'lit' and x[1][1][1] == ['nil']):
            c, a, b = x[1]
            s = 'if ' + self.flat(c) + ' ' + self.arm(a)
            if b[0] == 'lit' and b[1] == ['nil'] and r.random() < .6: return s
            if b[0] == 'cond' and len(b[1]) == 3 and r.random() < .7:
                return s + ' else ' + self.stmt(b) if self.stmt(b) else s + ' else ' + self.arm(b)
            return s + ' else ' + self.arm(b)
        if k == 'for':
            head = [self.header(y) for y in x[2:5]]
            lab = x[1] + ': ' if x[1] else ''
            nil = lambda y: y[0] == 'lit' and y[1] == ['nil']
            if nil(x[2]) and nil(x[4]) and r.random() < .7:
                h = '' if x[3] == ('lit', ['bool', 1]) and r.random() < .5 else head[1]
            else:
                h = '%s; %s; %s' % ('' if nil(x[2]) else head[0], head[1], '' if nil(x[4]) else head[2])
            return '%sfor %s %s' % (lab, h, self.block(x[5]))
        if k in ('set', 'and', 'or') or k == 'call' and x[1][0] == 'var' and (x[1][1] in LVL or x[1][1] == 'not'):
            t = self.ex(x)[0]
            return t
        return None
    def flat(self, x):
        t = self.ex(x)[0]
        return t
    def header(self, x):
        """in the header of a loop the first block would be the body"""
        for _ in range(4):
            t = self.ex(x)[0]
            if '{' not in t: return t
        return core.text(x)
    def arm(self, x):
        if x[0] in ('var', 'lit') and self.r.random() < .4 or x[0] == 'call' and core.text(x)[0] == '(' and self.r.random() < .2:
            return core.text(x)
        return self.block([x] if x[0] != 'begin' or len(x[1]) < 2 else x[1])

def V(n): return ('var', n)
def I(n): return ('lit', ['int', n])
def call(f, *a): return ('call', V(f), list(a))
def ranged(k, v, src, define, lab, body, ty, n):
    """what a range loop does, in Core"""
    S, L, X = '_s%d' % n, '_l%d' % n, '_x%d' % n
    key = (V(X) if ty == 'arr' else call('first', call('hpair', V(S), V(X))))
    val = (call('aget', V(S), V(X)) if ty == 'arr' else call('second', call('hpair', V(S), V(X))))
    op = 'def' if define else 'set'
    binds = [(op, k, key)] + ([(op, v, val)] if v else [])
    ast = ('letseq', [(S, src), (L, call('len', V(S)))], [('for', lab, ('def', X, I(0)), call('<', V(X), V(L)), ('set', X, call('+', V(X), I(1))), binds + body)])
    return ast

def range_programs(r, n):
    out = []
    for i in range(n):
        g = core.Gen(r, depth=2, err=0.01)
        ty = r.choice(['arr', 'hash'])
        if ty == 'arr':
            src = ('arr', [I(r.randint(0, 9)) for _ in range(r.randint(0, 4))])
        else:
            src = call('hash', *[y for q in range(r.randint(0, 4)) for y in (('lit', ['str', 'k%d' % q]), I(r.randint(0, 9)))])
        if r.random() < .5: src = core.tr('src', src)
        two, define, lab = r.random() < .7, r.random() < .6, r.choice(['', 'lab'])
        k, v = 'kk', 'vv' if two else None
        body = [core.tr('k', V(k))] + ([core.tr('v', V(v))] if v else [])
        jump = r.choice([None, None, ('break', ''), ('continue', ''), ('break', lab), ('continue', lab)])
        if jump:
            what = V(k) if ty == 'arr' else (V(v) if v else I(1))
            body.append(('cond', [call('==', what, I(r.randint(0, 3))), jump, ('lit', ['nil'])]))
        inner = r.random() < .4
        if inner:
            lab2 = r.choice(['', 'inn'])
            j2 = r.choice([('break', ''), ('continue', ''), ('break', lab), ('continue', lab), ('break', lab2)])
            body.append(('INNER', r.choice(['arr']), lab2, [core.tr('w', V('ww')), ('cond', [call('==', V('ww'), I(7)), j2, ('lit', ['nil'])])]))
        body.append(('set', 'acc', call('+', V('acc'), I(1))))
        w = Written(r)
        cnt = [0]
        def build(x):
            if x[0] == 'INNER':
                cnt[0] += 1
                s2 = ('arr', [I(6), I(7), I(8)])
                ast = ranged('ii', 'ww', s2, True, x[2], x[3], 'arr', 10 + cnt[0])
                txt = '%sfor ii, ww := range [6 7 8] %s' % (x[2] + ': ' if x[2] else '', w.block(x[3]))
                return ast, txt
            t = w.stmt(x)
            return x, (t if t is not None else core.text(x))
        parts = [build(x) for x in body]
        bt = '{ ' + '; '.join(t for _, t in parts) + r.choice([' ', ';']) + '}'
        ast = ranged(k, v, src, define, lab, [a for a, _ in parts], ty, 0)
        op = ':=' if define else '='
        txt = '%sfor %s%s%s range %s %s' % (lab + ': ' if lab else '', k, r.choice([', ', ' , ', ',']) + v if v else '', r.choice([' %s ', '%s ']) % op, core.text(src), bt)
        pre = [('def', 'acc', I(0)), ('def', 'kk', I(0) if ty == 'arr' else ('lit', ['str', 'z'])), ('def', 'vv', I(0)), ('def', 'ww', I(0))]
        forms = pre + [ast, V('acc'), V('kk'), V('vv')]
        texts = [core.text(p) + '\n' for p in pre] + ['{ %s }\n' % txt, 'acc\n', 'kk\n', 'vv\n']
        out.append({'forms': forms, 'texts': texts})
    return out

KNOWN = ['{a - Inf}', '{x = 3\n[1 2]}', '{x = 3\n*p = 4}', '{break\nx = 3}']
KNOWN_TREES = {'{a - Inf}': '(- a +Inf)', '{x = 3\n[1 2]}': '(set x 3) [1 2]', '{x = 3\n*p = 4}': '(set x 3) (set (* p) 4)', '{break\nx = 3}': '(break) (set x 3)'}

class Check:
    def __init__(self, rep, drv):
        self.rep, self.drv = rep, drv
        self.recs, self.back, self.n = [], [], {'texts': 0, 'und': 0, 'trees': 0}
        self.states = self.trans = 0
    def expand(self, texts):
        B = 40
        cases = [{'op': 'session', 'id': str(i), 'forms': ['(infixExpand %s)\n' % t for t in texts[i:i + B]], 'budget': 100000, 'noprint': False} for i in range(0, len(texts), B)]
        res = C.run_cases(self.drv, cases, tmo_ms=8000)
        out = []
        for c, i, a in zip(cases, range(0, len(texts), B), res):
            if 'results' in a:
                out += a['results']
            else:
                sub = [{**c, 'forms': [f]} for f in c['forms']]
                for f, q in zip(sub, C.run_cases(self.drv, sub, tmo_ms=5000)):
                    out.append(q['results'][0] if 'results' in q else {'panic': str(q)[:200]})
        return out
    def rec(self, t, q):
        if 'val' in q and q['val']['k'] == 'list' and q['val']['v'][0] == {'k': 'sym', 'v': 'quote'}:
            return {'t': reader.cps(t), 'st': 'ok', 'r': [reader.val(x) for x in q['val']['v'][1:]]}
        return {'t': reader.cps(t), 'st': 'err', 'r': []}
    def tlc(self, recs):
        f = os.path.join(C.work(), 'infix.ndjson')
        C.write_ndjson(f, recs)
        r = C.tlc('InfixTrace', 'SPECIFICATION Spec\nCONSTANTS Symc <- KeptSymc\nINVARIANT Check\n', env={'ZV_CASES': f}, heap='8g')
        os.remove(f)
        if r.violated:
            raise C.CheckError('InfixTrace ' + r.out[-2000:])
        self.states += r.distinct; self.trans += r.generated
        und = {int(x) - 1 for x in re.findall(r'<<\s*"UND",\s*(\d+)\s*>>', r.out)}
        bad = {int(m.group(1)) - 1: re.sub(r'\s+', ' ', m.group(2))[:600] for m in re.finditer(r'<<\s*"BAD",\s*(\d+),(.*?)>>\s*(?=<<\s*"(?:BAD|UND)"|$|[A-Z])', r.out, re.S)}
        return und, bad
    def trees(self, texts, label):
        texts = list(dict.fromkeys(texts))
        outs = self.expand(texts)
        recs = [self.rec(t, q) for t, q in zip(texts, outs)]
        und, bad = self.tlc(recs)
        self.n['texts'] += len(texts); self.n['und'] += len(und); self.n['trees'] += len(texts) - len(und)
        for i in C.until(bad, self.rep):
            q = self.expand([texts[i]])[0]
            _, b2 = self.tlc([self.rec(texts[i], q)])
            if b2:
                self.rep.violation(key=texts[i], detail=f"{label}: {texts[i]!r} expands to {q.get('print') or q.get('err') or q.get('panic')}; the table gives {b2[0]}", replay={'text': texts[i]})
        if os.environ.get('ZV_VERBOSE'):
            print(label, len(texts), 'und', len(und), 'bad', len(bad), [texts[i] for i in list(bad)[:4]])
        return [(t, q) for i, (t, q) in enumerate(zip(texts, outs)) if i not in und and i not in bad and 'val' in q]
    def known(self):
        outs = self.expand(KNOWN)
        for t, q in zip(KNOWN, outs):
            got = q.get('print', q.get('err', ''))
            if got != '(quote %s)' % KNOWN_TREES[t]:
                self.rep.violation(key=t, detail=f"{t!r} expands to {got}", replay={'text': t})

def run(rep):
    thorough = C.TIER == 'thorough'
    r = random.Random(C.SEED)
    drv = C.build_driver()
    N = 7 if thorough else 6
    g = C.tlc('InfixGen', f'SPECIFICATION Spec\nCONSTANTS N = {N}\n All = TRUE\n Symc <- KeptSymc\nINVARIANT Unique\n', heap='12g')
    if g.violated:
        raise C.CheckError('InfixGen ' + g.out[-2000:])
    K = Check(rep, drv)
    K.known()
    seqs = sequences(5, BIN)
    if thorough:
        seqs += [s for s in sequences(7, FEW) if len(s) > 5]
    else:
        seqs += r.sample([s for s in sequences(6, FEW) if len(s) > 5], 3000) + [['a' if x in 'abcdefg' else x for x in s] for s in r.sample(seqs, 300)]
    if os.environ.get('ZV_VERBOSE'): print('sequences', len(seqs))
    K.trees([join(s, 0) for s in seqs], 'sequence')
    K.trees([join(s, 1) for s in seqs], 'tight sequence')
    S = Soup(r)
    def upto(f, n, size):
        out = []
        while len(out) < n:
            t = f()
            if len(t) <= size: out.append(t)
        return out
    K.trees(upto(S.text, 40000 if thorough else 3500, 600 if thorough else 150), 'block')
    # blocks and their prefix forms
    R = Run(r)
    blocks = K.trees(upto(lambda: join(R.tokens(r.choice([0, 1, 2])), int(r.random() < .5)), 20000 if thorough else 2500, 600 if thorough else 200), 'statements')
    cases = []
    for t, q in blocks:
        p = [ptext(x) for x in q['val']['v'][1:]]
        if None in p or not p: continue
        pre = ''.join(EVPRE)
        how = r.choice(['', '(begin %s)', '((fn [z] %s) 1)', '(let [z 1] %s)', '(cond true %s 0)', '(list %s)'])
        one, two = (how % t, how % ('(begin %s)' % ' '.join(p))) if how else (t, '(begin %s)' % ' '.join(p))
        cases.append([{'op': 'session', 'id': 'x', 'forms': [x + '\n' for x in EVPRE] + [y + '\n'] + [x + '\n' for x in EVPOST], 'budget': 60000} for y in (one, two)])
    flat = [c for p in cases for c in p]
    res = C.run_cases(drv, flat)
    def view(a):
        if 'results' not in a: return 'no answer'
        return [(core.real_out(q) if 'err' not in q else ['e', q['err']], q.get('trace', [])) for q in a['results'][len(EVPRE):]]
    same = errs = 0
    bad = []
    sub = lambda v: re.sub(r'__range_\w+?\d+|__gensym\d+|__\w*\d+', '_', json.dumps(v))
    for k, p in enumerate(cases):
        a, b = view(res[2 * k]), view(res[2 * k + 1])
        if sub(a) == sub(b):
            same += 1; errs += a != 'no answer' and a[0][0][0] == 'e'
        elif a != 'no answer' and b != 'no answer' and a[0][0][0] == 'e' == b[0][0][0] and a[0][1] == b[0][1] and sub(a[1:]) == sub(b[1:]):
            same += 1; errs += 1      # error texts quote the form as it was written
        else: bad.append(k)
    for k in C.until(bad, rep):
        q = C.run_cases(drv, cases[k], nproc=1)
        a, b = view(q[0]), view(q[1])
        if sub(a) != sub(b) and sub(a) == sub(view(res[2 * k])):
            rep.violation(key=cases[k][0]['forms'][len(EVPRE)].strip(), detail=f"the block {cases[k][0]['forms'][len(EVPRE)].strip()!r} gives {json.dumps(a)[:300]}; its prefix form {cases[k][1]['forms'][len(EVPRE)].strip()[:200]!r} gives {json.dumps(b)[:300]}", replay={'cases': cases[k]})
    if os.environ.get('ZV_VERBOSE'): print('runs', len(cases), 'same', same, 'errors', errs, 'bad', len(bad))
    # Core programs
    progs = []
    for i in range(9000 if thorough else 900):
        gen = core.Gen(r, depth=r.choice([2, 3, 4]), err=0.02)
        forms = gen.program(r.randint(2, 5))
        w = Written(r, p=r.choice([.6, .9, 1]))
        texts = [core.text(w.tree(f)) + '\n' for f in forms]
        progs.append({'forms': forms, 'texts': texts, 'w': w.n})
    st1, _ = core.validate(rep, drv, progs, label='written with infix blocks:')
    rp = range_programs(r, 4000 if thorough else 500)
    st2, _ = core.validate(rep, drv, rp, label='range loop:')
    if os.environ.get('ZV_VERBOSE'): print(st1 and {k: v for k, v in st1.items() if k != 'ok_idx'}, {k: v for k, v in st2.items() if k != 'ok_idx'})
    rep.cov.update(sequences=len(seqs), texts=K.n['texts'], trees=K.n['trees'], undefined=K.n['und'], runs_compared=len(cases), runs_with_errors=errs, core_programs=len(progs) + len(rp), infix_blocks_in_core_programs=sum(p['w'] for p in progs), core_forms=st1['forms'] + st2['forms'],
                   states=g.distinct + K.states + st1['states'] + st2['states'], transitions=g.generated + K.trans + st1['transitions'] + st2['transitions'], traces_validated_against_impl=K.n['trees'] + st1['checked'] + st2['checked'])
    rep.sample({'text': blocks[0][0]}); rep.sample({'core': progs[0]['texts']})
    rep.assumptions = ['an operator without its operand, a unary minus and a selector with two colons have no meaning in the specification']
