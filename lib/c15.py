"""C15: macro templates expand by exact substitution.  Template.tla reads a template
token by token and says what it denotes; TLC enumerates all small templates, larger
ones are random, each is evaluated by the real interpreter in one of many settings
and the recorded value and evaluation order are validated by TLC.  Macro calls:
random Core programs in which any construct is hidden behind a macro whose body is a
template, run on the real code, must be what the Core machine says about the
program written by hand."""
import random, re, json
import common as C, core
from core import text
LEVEL = 'model_checking'

# ---------------------------------------------------------------- values
SYM = lambda s: ['sym', s]
def lst(*a):
    return ['list', list(a)] if a else ['nil']
def vwrite(v):
    """the value as it is written inside a quote or a template"""
    k = v[0]
    if k == 'sym':
        return v[1]
    if k == 'int':
        return str(v[1])
    if k == 'str':
        return '"%s"' % v[1]
    if k == 'char':
        return "'%s'" % chr(v[1])
    if k == 'bool':
        return 'true' if v[1] else 'false'
    if k == 'nil':
        return '()'
    if k == 'list':
        return '(%s)' % ' '.join(vwrite(x) for x in v[1])
    if k == 'arr':
        return '[%s]' % ' '.join(vwrite(x) for x in v[1])
    if k == 'dotted':
        return '(%s \\ %s)' % (' '.join(vwrite(x) for x in v[1]), vwrite(v[2]))
    raise ValueError(v)
def vexpr(v):
    """an expression that makes a new value each time"""
    k = v[0]
    if k == 'list':
        return '(list %s)' % ' '.join(vexpr(x) for x in v[1])
    if k == 'arr':
        return '(array %s)' % ' '.join(vexpr(x) for x in v[1]) if v[1] else '[]'
    if k == 'hash':
        return '(hash %s)' % ' '.join(vexpr(a) + ' ' + vexpr(b) for a, b in v[1])
    if k == 'sym':
        return '(quote %s)' % v[1] if v[1] != 'unquote-splicing' else '(str2sym "unquote-splicing")'
    if k == 'dotted':
        t = vexpr(v[2])
        for x in reversed(v[1]):
            t = '(cons %s %s)' % (vexpr(x), t)
        return t
    return vwrite(v)
def rv(v):
    k = v['k']
    if k == 'dotted':
        return ['dotted', [rv(x) for x in v['v']], rv(v['tail'])]
    if k == 'list':
        return ['list', [rv(x) for x in v['v']]]
    if k == 'array':
        return ['arr', [rv(x) for x in v['v']]]
    if k == 'hash':
        return ['hash', [[rv(a), rv(b)] for a, b in v['v']]]
    return core.real_value(v)

ATOMS = [SYM('a'), SYM('zz'), SYM('if'), SYM('cond'), SYM('quote'), ['int', 0], ['int', -7], ['str', ''], ['str', 'x ~y'], ['str', '~@l'], ['char', 113], ['bool', 0], ['bool', 1], ['nil'], SYM('unquote'),
         lst(SYM('quote'), SYM('q')), lst(SYM('unquote'), SYM('a'), SYM('b')), lst(SYM('unquote')), lst(SYM('b'), SYM('unquote')), lst(SYM('infix'), ['arr', [['int', 1], SYM('+'), ['int', 2]]]), ['arr', [SYM('unquote'), SYM('c')]],
         lst(SYM('fn'), ['arr', [SYM('x')]], SYM('x')), SYM('true'), lst(lst(['nil'])), ['arr', []], lst(SYM('def'), SYM('u'), ['int', 4])]
# 'true' written as a symbol reads as the boolean; keep the pool to what the text says
ATOMS = [a for a in ATOMS if a not in (SYM('true'),)]
VALS = [['int', 5], SYM('q'), ['str', 'v'], ['nil'], lst(['int', 1], SYM('b')), ['arr', [['int', 1], ['arr', [['int', 2]]]]], ['hash', [[SYM('k'), ['int', 1]], [['str', 's'], lst(['int', 2])]]], ['bool', 0],
        lst(SYM('unquote'), SYM('y')), lst(SYM('unquote-splicing'), SYM('l')), lst(SYM('syntaxQuote'), SYM('y')), lst(lst(), lst(SYM('a'))), ['dotted', [['int', 1]], ['int', 2]], ['char', 99], lst(SYM('quote'), SYM('z')), ['arr', [lst(SYM('unquote'), SYM('y'))]]]
LVALS = [['nil'], lst(['int', 1]), lst(['int', 1], SYM('b'), ['int', 3]), lst(lst(SYM('a')), ['arr', [SYM('b')]]), lst(SYM('unquote'), SYM('y')), lst(SYM('unquote-splicing'), SYM('y')), lst(['nil']), lst(['nil'], ['nil']), lst(['hash', [[SYM('k'), ['int', 1]]]]),
         lst(*[['int', i] for i in range(20)])]
NOTL = [['int', 5], ['arr', [['int', 1]]], ['str', 's'], ['hash', []], SYM('q'), ['dotted', [['int', 1]], ['int', 2]]]

# ---------------------------------------------------------------- templates
def tree(toks):
    st = [['top', []]]
    for t in toks:
        if t[0] == 'open':
            st.append([t[1], []])
        elif t[0] == 'close':
            n = st.pop(); st[-1][1].append(n)
        else:
            st[-1][1].append(t)
    return st[0][1][0]

def hashash(n):
    return n[0] == 'hash' or n[0] in ('list', 'arr', 'dot') and any(hashash(x) for x in n[1])

def twrite(n, u, top=True):
    """source of the template; u(kind, i) is the source of an unquoted expression"""
    k = n[0]
    if k == 'lit':
        return vwrite(n[1])
    if k == 'unq':
        return '~' + u(n)
    if k == 'spl':
        return '~@' + u(n)
    b = [twrite(x, u, False) for x in n[1]]
    if k == 'list':
        return '(%s)' % ' '.join(b)
    if k == 'arr':
        return '[%s]' % ' '.join(b)
    if k == 'dot':
        return '(%s \\ %s)' % (' '.join(b[:-1]), b[-1])

def tbuild(n, u):
    """an expression whose value is the template as data (hashes cannot be written as literals)"""
    k = n[0]
    if k == 'lit':
        return '(quote %s)' % vwrite(n[1])
    if k in ('unq', 'spl'):
        return '(quote %s%s)' % ('~' if k == 'unq' else '~@', u(n))
    b = [tbuild(x, u) for x in n[1]]
    if k == 'list':
        return '(list %s)' % ' '.join(b)
    if k == 'arr':
        return '(array %s)' % ' '.join(b) if b else '[]'
    if k == 'hash':
        return '(hash %s)' % ' '.join(b)
    r = b[-1]
    for x in reversed(b[:-1]):
        r = '(cons %s %s)' % (x, r)
    return r

SMASH = '(defn smash [v] (cond (array? v) (begin (map smash v) (cond (> (len v) 0) (aset v 0 "SMASHED") 0)) (hash? v) (begin (hset v "SMASHED" 1) (hdel v %a) (hdel v %q)) (list? v) (cond (empty? v) 0 (begin (smash (first v)) (smash (rest v)))) 0))'
SETTINGS = ['top', 'def', 'list', 'fn', 'param', 'let', 'mac', 'macarg', 'twice', 'loop', 'again', 'eval', 'arm', 'smash', 'host']

def ok_template(n, inner=False):
    """leaves out texts that say something else: a dotted pair whose tail is a splice or unquote, a
    two-element literal list headed by unquote, a hash with splices"""
    k = n[0]
    if k in ('lit', 'unq', 'spl'):
        return True
    if k == 'dot':
        if n[1][-1][0] in ('unq', 'spl', 'list', 'dot') or n[1][-1][0] == 'lit' and n[1][-1][1][0] in ('nil', 'list') or len(n[1]) < 2:
            return False
        if n[1][-1] == ['lit', SYM('unquote')]:
            return False
    if k == 'list' and len(n[1]) == 2 and n[1][0] == ['lit', SYM('unquote')]:
        return False
    if k == 'list' and n[1] and n[1][0][0] == 'lit' and n[1][0][1] == SYM('infix'):
        return False
    if k == 'hash' and (len(n[1]) % 2 or any(x[0] == 'spl' for x in n[1])):
        return False
    if k == 'hash':
        # a key cannot be a list, so it cannot be an unquote
        ks = [json.dumps(x) for x in n[1][0::2]]
        if len(set(ks)) < len(ks) or any(x[0] != 'lit' or x[1][0] not in ('sym', 'int', 'str', 'char') for x in n[1][0::2]):
            return False
    return all(ok_template(x, True) for x in n[1])

def retok(n):
    if n[0] in ('lit', 'unq', 'spl'):
        return [n]
    return [['open', n[0]]] + sum((retok(x) for x in n[1]), []) + [['close']]

def randtree(r, d, ids, top=False):
    k = r.choices(['lit', 'unq', 'spl', 'list', 'arr', 'hash', 'dot'], [3, 3, 0 if top else 2, 4, 2, 0.5 if ids['hash'] else 0, 0.3])[0] if d > 0 else r.choice(['lit', 'unq'] + ([] if top else ['spl']))
    if k == 'lit':
        return ['lit', r.choice(ATOMS)]
    if k in ('unq', 'spl'):
        v = r.choice(VALS) if k == 'unq' else r.choice(LVALS) if r.random() > 0.02 else r.choice(NOTL)
        ids['env'].append(v)
        return [k, len(ids['env'])]
    if k == 'hash':
        out = []
        for key in r.sample([SYM('a'), SYM('b'), ['str', 'c'], ['int', 3]], r.randint(0, 3)):
            out.append(['lit', key])
            x = randtree(r, d - 1, ids, True)
            out.append(x)
        return ['hash', out]
    n = r.choice([0, 1, 2, 2, 3, 3, 4, 6])
    b = [randtree(r, d - 1, ids) for _ in range(n if k != 'dot' else max(1, n))]
    if k == 'dot':
        b.append(r.choice([['lit', SYM('t')], ['lit', ['int', 9]], ['arr', [randtree(r, 0, ids)]]]))
    return [k, b]

def case_for(r, n, env, setting):
    """session forms, which form's value counts, which unquotes are traced, is the order settled"""
    traced = set()
    hasspl = n[0] == 'spl'
    def names():
        return [('x%d' % i) for i in range(1, len(env) + 1)]
    def src(n, how):
        i = n[1]
        if how == 'fresh':
            e = vexpr(env[i - 1])
        else:
            e = 'x%d' % i
        if r.random() < 0.6:
            traced.add(i)
            return '(trid %d %s)' % (i, e)
        q = r.random()
        return e if q < 0.5 else '(let [y %s] y)' % e if q < 0.7 else '(cond false 1 %s)' % e if q < 0.85 else '(first (list %s))' % e
    used = {}
    def u(how):
        def f(n):
            if n[1] not in used:
                used[n[1]] = src(n, how)
            return used[n[1]]
        return f
    pre = ['(defn trid [i v] (tr i 0) v)', SMASH]
    defs = ['(def x%d %s)' % (i + 1, vexpr(v)) for i, v in enumerate(env)]
    how = 'fresh' if setting == 'smash' else 'var'
    if hashash(n):
        T = '(eval (list (quote syntaxQuote) %s))' % tbuild(n, u(how))
        if setting in ('mac', 'macarg', 'fn', 'param', 'let', 'loop', 'twice'):
            setting = 'top'
    else:
        T = '^' + twrite(n, u(how))
    ns, vals = ' '.join(names()), ' '.join(vexpr(v) for v in env)
    unwrap = lambda v: v
    if setting in ('top', 'def', 'list', 'again', 'arm', 'smash', 'host', 'eval'):
        pre += defs
    if setting == 'top':
        body = [T]
    elif setting == 'def':
        body = ['(def q %s)' % T, 'q']
    elif setting == 'list':
        body = ['(list 1 %s 2)' % T]; unwrap = lambda v: v['v'][1]
    elif setting == 'fn':
        body = ['((fn [] (let [%s] %s)))' % (' '.join('x%d %s' % (i + 1, vexpr(v)) for i, v in enumerate(env)), T)]
    elif setting == 'param':
        body = ['((fn [%s] %s) %s)' % (ns, T, vals)]
    elif setting == 'let':
        pre += ['(def x%d "wrong")' % (i + 1) for i in range(len(env))]
        body = ['(let [%s] (newScope %s))' % (' '.join('x%d %s' % (i + 1, vexpr(v)) for i, v in enumerate(env)), T)]
    elif setting == 'mac':      # the macro's body computes the pieces, its result is data
        pre += defs
        body = ['(defmac mm [] (list %%quote %s))' % T, '(mm)']
    elif setting == 'macarg':   # the pieces are the arguments
        if any(json.dumps(v).count('"hash"') or json.dumps(v).count('unquote-splicing') for v in env):
            return case_for(r, n, env, 'param')
        body = ['(defmac mm [%s] (list %%quote %s))' % (ns, T), '(mm %s)' % ' '.join(vwrite(v) for v in env)]
    elif setting == 'twice':    # the same function, first with other values
        body = ['(defn g [%s] %s)' % (ns, T), '(begin (g %s) 1)' % ' '.join('()' for _ in env), '(g %s)' % vals]
    elif setting == 'loop':
        body = ['(def last 0) (map (fn [k] (let [%s] (set last %s))) [1])' % (' '.join('x%d %s' % (i + 1, vexpr(v)) for i, v in enumerate(env)), T), 'last']
    elif setting == 'again':
        body = ['(defn g [] %s)' % T, '(g)']
    elif setting == 'eval':
        body = ['(eval (quote %s))' % T]
    elif setting == 'arm':
        body = ['(cond (or false 0) 1 (and 1 %s))' % T]
    elif setting == 'host':
        body = ['(cb (fn [] %s))' % T]
    elif setting == 'smash':    # what the first evaluation gave is overwritten
        body = ['(defn g [] %s)' % T, '(begin (smash (g)) (smash (g)) 1)', '(g)']
    return pre + [b for b in body], len(pre), unwrap, sorted(traced), not hashash(n), setting

# ---------------------------------------------------------------- macros over Core programs
class Mac:
    """hides constructs of a Core program behind macros"""
    def __init__(self, r):
        self.r, self.defs, self.n = r, [], 0
    def hide(self, x, p=0.35):
        k = x[0]
        H = lambda l: [self.hide(y) for y in l]
        if k == 'call':
            x = ('call', self.hide(x[1]) if x[1][0] != 'var' else x[1], H(x[2]))
        elif k in ('arr', 'begin', 'scope', 'cond', 'and', 'or'):
            x = (k, H(x[1]))
        elif k in ('def', 'set', 'mdef'):
            x = (k, x[1], self.hide(x[2]))
        elif k in ('let', 'letseq'):
            x = (k, [(a, self.hide(e)) for a, e in x[1]], H(x[2]))
        elif k == 'for':
            x = ('for', x[1], self.hide(x[2]), self.hide(x[3]), self.hide(x[4]), H(x[5]))
        elif k == 'fn':
            x = ('fn', x[1], x[2], x[3], H(x[4]))
        elif k == 'defn':
            x = ('defn', x[1], x[2], x[3], x[4], H(x[5]))
        elif k == 'assert':
            x = (k, self.hide(x[1]))
        if self.r.random() < p and k not in ('bad', 'evalq', 'mac'):
            return self.wrap(x)
        return x
    def pieces(self, x):
        """source of x as a list tree: atoms are strings, lists are ['(' …], arrays ['[' …]"""
        return sexp(text(x))
    def wrap(self, x):
        r = self.r
        self.n += 1
        name = 'mac%d' % self.n
        t = sexp(text(x))
        ps, args = [], []
        def sub(t, depth, head):
            # choose pieces to become parameters
            if isinstance(t, str):
                if not head and depth > 0 and r.random() < 0.3 and t[-1] != ':' and t not in ('&',) and not t.startswith('#'):
                    ps.append('p%d' % len(ps)); args.append(t)
                    return '~' + ps[-1]
                return t
            if depth > 0 and r.random() < 0.35:
                ps.append('p%d' % len(ps)); args.append(unsexp(t))
                return '~' + ps[-1]
            return [t[0]] + [sub(y, depth + 1, i == 0 and t[0] == '(' and r.random() < 0.8) for i, y in enumerate(t[1:])]
        if isinstance(t, str):
            q = r.random()
            if q < 0.5:
                self.defs.append('(defmac %s [] %s)' % (name, '^' + t)); return ('mac', '(%s)' % name, x)
            self.defs.append('(defmac %s [a] a)' % name); return ('mac', '(%s %s)' % (name, t), x)
        q = r.random()
        if q < 0.15:    # hand it back as it is
            self.defs.append(r.choice(['(defmac %s [a] a)', '(defmac %s [a] ^~a)', '(defmac %s [a] (list %%begin a))' if 0 else '(defmac %s [& a] (first a))']) % name)
            return ('mac', '(%s %s)' % (name, text(x)), x)
        if q < 0.3 and t[0] == '(' and len(t) > 1:   # the elements by splice
            k = r.randint(1, len(t) - 1)
            fixed, rest = t[1:1 + k], t[1 + k:]
            if any(isinstance(y, str) and y.startswith('#') for y in t[1:]):
                return x
            tail = ''
            if rest and r.random() < 0.5:
                tail = ' ' + unsexp(rest[-1]); rest = rest[:-1]
            body = '^(%s ~@b%s)' % (' '.join(unsexp(y) for y in fixed), tail)
            if rest and r.random() < 0.3:     # computed by the macro's own code
                body = '(let [c (map (fn [x] (let [y x] y)) b)] ^(%s ~@c%s))' % (' '.join(unsexp(y) for y in fixed), tail)
            self.defs.append('(defmac %s [& b] %s)' % (name, body))
            return ('mac', '(%s%s)' % (name, ''.join(' ' + unsexp(y) for y in rest)), x)
        if q < 0.4:     # through another macro
            self.defs.append('(defmac %s_ [a] a)' % name)
            self.defs.append('(defmac %s [a] ^(%s_ ~a))' % (name, name))
            return ('mac', '(%s %s)' % (name, text(x)), x)
        body = sub(t, 0, False)
        self.defs.append('(defmac %s [%s] ^%s)' % (name, ' '.join(ps), unsexp(body)))
        return ('mac', '(%s%s)' % (name, ''.join(' ' + a for a in args)), x)

def sexp(s):
    tok = re.findall(r'"(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)\'|[()\[\]]|[^\s()\[\]]+', s)
    st = [['(']]
    for t in tok:
        if t in '([':
            st.append([t])
        elif t in ')]':
            n = st.pop(); st[-1].append(n)
        else:
            st[-1].append(t)
    assert len(st) == 1 and len(st[0]) == 2, s
    return st[0][1]

def unsexp(t):
    if isinstance(t, str):
        return t
    return t[0] + ' '.join(unsexp(x) for x in t[1:]) + (')' if t[0] == '(' else ']')

def run(rep):
    thorough = C.TIER == 'thorough'
    rng = random.Random(C.SEED)
    drv = C.build_driver()
    g = C.tlc('TemplateGen', f'SPECIFICATION Spec\nCONSTANTS MaxTok = {7 if thorough else 6} MaxDepth = {4 if thorough else 3}\nINVARIANTS Shape Balanced Once Emit\n')
    if g.violated:
        raise C.CheckError('TemplateGen\n' + g.out[-2000:])
    GENENV = [SYM('q'), lst(['int', 1], SYM('b')), ['nil']]
    items = []
    for m in re.finditer(r'<<\s*"T",(.*?)>>\s*>>\s*(?=<<\s*"T"|$|[A-Z])', g.out, re.S):
        t = json.loads(re.sub(r'<<', '[', re.sub(r'>>', ']', m.group(1) + '>>')))
        t = [x if x[0] != 'lit' else ['lit', x[1]] for x in t]
        if t[0][0] == 'spl':
            t = t[:1]
        # close what an error left open
        d = sum((x[0] == 'open') - (x[0] == 'close') for x in t)
        n = tree(t + [['close']] * d)
        if ok_template(n):
            items.append((n, GENENV))
    ngen = len(items)
    if not thorough and ngen > 9000:
        items = [x for x in items if len(json.dumps(x[0])) < 90] + rng.sample(items, 6000)
    for i in range(30000 if thorough else 4000):
        r = random.Random(C.SEED * 1000253 + i)
        ids = {'env': [], 'hash': r.random() < 0.25}
        n = randtree(r, r.choice([1, 2, 3, 4, 5]), ids, True)
        if ok_template(n) and len(ids['env']) <= 40:
            items.append((n, ids['env']))
    cases, meta = [], []
    for i, (n, env) in enumerate(items):
        r = random.Random(C.SEED * 1000271 + i)
        f, np, unwrap, traced, ordered, setting = case_for(r, n, env, SETTINGS[i % len(SETTINGS)])
        cases.append({'op': 'session', 'forms': f, 'budget': 400000, 'depths': True}); meta.append((n, env, np, unwrap, traced, ordered, setting))
    res = C.run_cases(drv, cases)
    # ^T leaves the generator env shared: expressions are evaluated where they stand
    def row(m, q):
        n, env, np, unwrap, traced, ordered, setting = m
        rs = q['results']
        x = {'toks': retok(n), 'env': env or [['nil']], 'traced': traced, 'ordered': int(ordered)}
        err = [y for y in rs if 'err' in y or 'panic' in y]
        if any('panic' in y for y in rs):
            x['out'] = ['panic']
        elif err:
            x['out'] = ['err']
        else:
            x['out'] = ['v', rv(unwrap(rs[-1]['val']))]
        # only the last evaluation's effects: the earlier ones were made with other values
        tr = []
        for y in ([rs[-1]] if setting in ('twice', 'smash', 'again') else rs[np:]):
            tr += [int(e[0]['v']) for e in y.get('trace', [])]
        x['log'] = tr
        for y in rs:
            if 'err' not in y and y['depths'] != q['rest']:
                x['out'] = ['stacks']
        return x
    def verdicts(rows):
        bad = {}
        st = [0, 0]
        for s in range(0, len(rows), 8000):
            t = C.tlc('TemplateTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': C.write_ndjson('tmpl.ndjson', rows[s:s + 8000])}, heap='10g')
            if t.violated:
                raise C.CheckError('TemplateTrace\n' + t.out[-2000:])
            st[0] += t.distinct; st[1] += t.generated
            for m in re.finditer(r'<<\s*"(BAD|BADLOG)",\s*(\d+),(.*?)>>\s*(?=<<\s*"BAD|$|[A-Z])', t.out, re.S):
                bad[s + int(m.group(2)) - 1] = m.group(1) + ' ' + re.sub(r'\s+', ' ', m.group(3))[:500]
        return bad, st
    rows, back, lost = [], [], []
    for i, q in enumerate(res):
        if 'results' in q:
            rows.append(row(meta[i], q)); back.append(i)
        else:
            lost.append(i)
    bad, st = verdicts(rows)
    for i in C.until([back[k] for k in bad] + lost, rep, 12):
        q = C.run_cases(drv, [cases[i]], nproc=1)[0]
        if 'results' not in q:
            rep.violation(cases[i]['forms'][-2:], f'no answer {str(q)[:300]}', {'case': cases[i]}); continue
        x = row(meta[i], q)
        b, _ = verdicts([x])
        if b:
            real = [y.get('err') or y.get('panic') or y.get('print') for y in q['results']][-1]
            rep.violation(cases[i]['forms'][meta[i][2]:], f'[{meta[i][6]}] the specification gives {b[0]}; the interpreter gave {x["out"][0]} {str(real)[:300]} evaluating {x["log"]} depths {q["results"][-1]["depths"]}', {'case': cases[i]})
    rep.cov.update(templates=len(items), templates_enumerated=ngen, expansions=sum(len(m[1]) for m in meta), template_errors=sum(x['out'] == ['err'] for x in rows))
    for k in (5, len(items) // 2, len(items) - 1):
        rep.sample(cases[k]['forms'][meta[k][2]:])
    # macros
    progs = []
    import c02
    sysp = c02.systematic(False)
    for i in range(12000 if thorough else 2200):
        r = random.Random(C.SEED * 1000291 + i)
        if i % 3 == 0:
            f = r.choice(sysp)
        else:
            gen = core.Gen(r, lazy=False, err=r.choice([0, 0, 0.03]), depth=r.choice([2, 3, 4]), closures=r.choice([0.3, 1]))
            f = gen.program(r.randint(1, 3))
        m = Mac(r)
        try:
            f2 = [m.hide(x, 0.5) for x in f]
        except AssertionError:
            continue
        pre = [('mac', d, ('lit', ['nil'])) for d in m.defs]
        progs.append({'forms': pre + f2, 'note': 'macro'})
    progs += directed()
    stc, cres = core.validate(rep, drv, progs, extra={'depths': True})
    nb = 0
    for p, q in zip(progs, cres):
        for j, y in enumerate(q.get('results', [])):
            if y.get('depths') != q['rest'] and nb < 4 and 'depths' in y:
                c = {'op': 'session', 'forms': [core.text(f) + '\n' for f in p['forms']], 'depths': True, 'budget': 400000}
                a = C.run_cases(drv, [c], nproc=1)[0]
                if 'results' in a and a['results'][j].get('depths') != a['rest']:
                    nb += 1
                    rep.violation(c['forms'][:j + 1], f'after the last form the stacks are {a["results"][j]["depths"]}, at rest {a["rest"]}', {'case': c})
    c02.report(rep, stc, len(cases), progs)
    rep.cov['macros'] = sum(1 for p in progs for f in p['forms'] if f[0] == 'mac' and f[1].startswith('(defmac'))
    rep.cov['states'] += g.distinct + st[0]; rep.cov['transitions'] += g.generated + st[1]
    rep.cov['traces_validated_against_impl'] += len(rows)
    rep.assumptions += ['in a dotted template the tail itself is not an unquote (it would be the same data as a longer list)', 'inside hash templates the order of evaluation is left open', 'two-element literal lists headed by the symbol unquote are unquotes, however written']

def directed():
    """what a macro's own code does stays out of the caller's way; recursion through macros"""
    V, I, call, tr = core.V, core.I, core.call, core.tr
    mac = lambda t, e=('lit', ['nil']): ('mac', t, e)
    out = []
    bodies = ['(def x 99) 7', '(set x 98) 7', '(let [x 97] (set x 96)) 7', '(for [(def x 0) (< x 3) (set x (+ x 1))] 0) 7', '(map (fn [x] (set x 5)) [1 2]) 7', '(defn x [y] y) 7', '(newScope (def x 4) (newScope (set x 5))) 7', '((fn [x y] (set y x)) 1 2) 7',
              '(mdef x y (list 8 9)) 7', '(for q: [(def x 0) (< x 3) (set x (+ x 1))] (for [(def y 0) (< y 3) (set y (+ y 1))] (cond (== y 1) (continue q:) (== x 2) (break q:) 0))) 7', '(eval (quote (begin (def x 5) (def y 6)))) 7', '(apply (fn [x & y] (set y x)) [1 2 3]) 7']
    for b in bodies:
        m = mac('(m)', I(7))
        for wrap in (lambda h: ('let', [('x', I(1)), ('y', I(2))], [h, call('list', V('x'), V('y'))]), lambda h: call(('fn', ['x', 'y'], [0, 0], '', [h, call('list', V('x'), V('y'))]), I(1), I(2)),
                     lambda h: ('scope', [('def', 'x', I(1)), ('def', 'y', I(2)), call('list', h, V('x'), V('y'))]),
                     lambda h: ('letseq', [('x', I(1)), ('y', h)], [call('list', V('x'), V('y'))]),
                     lambda h: ('begin', [('for', '', ('def', 'x', I(0)), call('<', V('x'), I(2)), ('set', 'x', call('+', V('x'), I(1))), [h, tr('x', V('x'))]), I(0)]),
                     lambda h: call(call(('fn', ['x'], [0], '', [('fn', ['y'], [0], '', [tr('h', h), call('list', V('x'), V('y'))])]), I(1)), I(2)),
                     lambda h: call('map', ('fn', ['x'], [0], '', [('let', [('y', h)], [call('list', V('x'), V('y'))])]), ('arr', [I(1), I(2)]))):
            out.append({'forms': [mac('(defmac m [] %s)' % b), wrap(m), wrap(m)]})
    # expansions that define, jump, make closures, and recursive macros
    inc = lambda n: ('set', n, call('+', V(n), I(1)))
    out.append({'forms': [mac('(defmac up [n] ^(set ~n (+ ~n 1)))'), ('let', [('k', I(1))], [mac('(up k)', inc('k')), mac('(up k)', inc('k')), V('k')])]})
    out.append({'forms': [mac('(defmac swap [a b] ^(let [t ~a] (set ~a ~b) (set ~b t)))'), ('def', 'u', I(1)), ('def', 'v', I(2)), mac('(swap u v)', ('let', [('t', V('u'))], [('set', 'u', V('v')), ('set', 'v', V('t'))])), call('list', V('u'), V('v'))]})
    out.append({'forms': [mac('(defmac swap [a b] ^(let [t ~a] (set ~a ~b) (set ~b t)))'), call(('fn', ['t', 'v'], [0, 0], '', [mac('(swap v t)', ('let', [('t', V('v'))], [('set', 'v', V('t')), ('set', 't', V('t'))])), call('list', V('t'), V('v'))]), I(1), I(2))]})
    loop = lambda n, b: ('for', '', ('def', 'i', I(0)), call('<', V('i'), n), inc('i'), b)
    rep3 = [tr('i', V('i')), ('cond', [call('==', V('i'), I(1)), mac('(out)', ('break', '')), I(0)])]
    out.append({'forms': [mac('(defmac times [n & b] ^(for [(def i 0) (< i ~n) (set i (+ i 1))] ~@b))'), mac('(defmac out [] ^(break))'), mac('(times 3 (tr "i" i) (cond (== i 1) (out) 0))', loop(I(3), rep3)),
                          call(('fn', [], [], '', [mac('(times 2 (tr "i" i) (tr "j" i))', loop(I(2), [tr('i', V('i')), tr('j', V('i'))])), I(4)]))]})
    out.append({'forms': [mac('(defmac lst [& b] (cond (empty? b) ^(list) ^(cons ~(first b) (lst ~@(rest b)))))'), mac('(lst (tr "1" 1) (tr "2" 2) 3)', call('cons', tr('1', I(1)), call('cons', tr('2', I(2)), call('cons', I(3), call('list')))))]})
    out.append({'forms': [mac('(defmac lambda1 [p & b] ^(fn [~p] ~@b))'), ('def', 'k', I(5)), ('let', [('k', I(6))], [('set', 'g', mac('(lambda1 x (+ x k))', ('fn', ['x'], [0], '', [call('+', V('x'), V('k'))])))]), call('g', I(1))]})
    for deep in (3, 300):
        st = ('cond', [call('<', V('n'), I(1)), V('a'), call('f', call('-', V('n'), I(1)), call('+', V('a'), V('n')))])
        out.append({'forms': [mac('(defmac step [n a] ^(cond (< ~n 1) ~a (f (- ~n 1) (+ ~a ~n))))'), ('defn', 'f', ['n', 'a'], [0, 0], '', [mac('(step n a)', st)]), call('f', I(deep), I(0))]})
    out.append({'forms': [mac('(defmac mkdef [n v] ^(def ~n ~v))'), mac('(mkdef w 4)', ('def', 'w', I(4))), call(('fn', [], [], '', [mac('(mkdef w 5)', ('def', 'w', I(5))), V('w')])), V('w')]})
    out.append({'forms': [mac('(defmac mkfn [n] ^(defn ~n [x] (let [y x] (+ y 1))))'), mac('(mkfn g)', ('defn', 'g', ['x'], [0], '', [('let', [('y', V('x'))], [call('+', V('y'), I(1))])])), call('g', I(2))]})
    out.append({'forms': [mac('(defmac none [] ())'), mac('(none)', ('lit', ['nil'], '()')), call('list', mac('(none)', ('lit', ['nil'], '()')), I(1)), ('let', [('z', mac('(none)', ('lit', ['nil'], '()')))], [mac('(none)', ('lit', ['nil'], '()'))])]})
    return out
