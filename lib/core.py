"""Programs of the core language: abstract syntax, text, the node table given to
the Core specification, generation, and the comparison of real runs with it.

Abstract syntax (tuples):
 ('lit',v) ('var',n) ('call',f,[a]) ('arr',[a]) ('def',n,e) ('set',n,e) ('mdef',[n],e)
 ('begin',[a]) ('scope',[a]) ('let'|'letseq',[(n,e)],[a]) ('cond',[a]) ('and'|'or',[a])
 ('for',lab,init,test,incr,[a]) ('break',lab) ('continue',lab) ('fn',[p],[lz],rest,[a])
 ('defn',n,[p],[lz],rest,[a]) ('assert',e) ('evalq',e) ('bad',text) ('mac',text,expansion)
"""
import json, re, random
import common as C

# ---------------------------------------------------------------- values and text
def vtext(v):
    k = v[0]
    if k == 'int':
        return str(v[1])
    if k == 'bool':
        return 'true' if v[1] else 'false'
    if k == 'str':
        return '"%s"' % v[1]
    if k == 'char':
        return "'%s'" % chr(v[1])
    if k == 'nil':
        return 'nil'
    return '(quote %s)' % vdata(v)

def vdata(v):
    if v[0] == 'sym':
        return v[1]
    if v[0] == 'list':
        return '(%s)' % ' '.join(vdata(x) for x in v[1])
    if v[0] == 'nil':
        return '()'
    return vtext(v)

def seq(a):
    return ' '.join(text(x) for x in a)

def formals(ps, lz, rest):
    r = list(ps)    # a lazy formal is written, and bound, with its '#'
    if rest:
        r += ['&', rest]
    return '[%s]' % ' '.join(r)

def sp(s):
    return ' ' + s if s else ''

def text(x):
    k = x[0]
    if k == 'lit':      # a third element is another way to write the value
        return x[2] if len(x) > 2 else vtext(x[1])
    if k == 'var':
        return x[1]
    if k == 'call':
        return '(%s%s)' % (text(x[1]), sp(seq(x[2])))
    if k == 'arr':
        return '[%s]' % seq(x[1])
    if k in ('def', 'set'):
        return '(%s %s %s)' % (k, x[1], text(x[2]))
    if k == 'mdef':
        return '(mdef %s %s)' % (' '.join(x[1]), text(x[2]))
    if k == 'begin':
        return '(begin%s)' % sp(seq(x[1]))
    if k == 'scope':
        return '(newScope%s)' % sp(seq(x[1]))
    if k in ('let', 'letseq'):
        return '(%s [%s]%s)' % (k, ' '.join('%s %s' % (n, text(e)) for n, e in x[1]), sp(seq(x[2])))
    if k in ('cond', 'and', 'or'):
        return '(%s%s)' % (k, sp(seq(x[1])))
    if k == 'for':
        return '(for %s[%s %s %s]%s)' % (x[1] + ': ' if x[1] else '', text(x[2]), text(x[3]), text(x[4]), sp(seq(x[5])))
    if k in ('break', 'continue'):
        return '(%s%s)' % (k, ' ' + x[1] + ':' if x[1] else '')
    if k == 'fn':
        return '(fn %s%s)' % (formals(x[1], x[2], x[3]), sp(seq(x[4])))
    if k == 'defn':
        return '(defn %s %s%s)' % (x[1], formals(x[2], x[3], x[4]), sp(seq(x[5])))
    if k == 'assert':
        return '(assert %s)' % text(x[1])
    if k == 'evalq':
        return '(eval (quote %s))' % text(x[1])
    if k in ('bad', 'mac'):
        return x[1]
    raise ValueError(x)

def quoted(x):
    """the argument expression as data, where that is easy to say"""
    k = x[0]
    if k == 'lit' and x[1][0] in ('int', 'bool', 'str', 'nil', 'char'):
        return x[1]
    if k == 'var':
        return ['sym', x[1]]
    if k == 'call':
        r = [quoted(y) for y in [x[1]] + list(x[2])]
        return None if None in r else ['list', r]
    if k in ('def', 'set'):
        d = quoted(x[2])
        return None if d is None else ['list', [['sym', k], ['sym', x[1]], d]]
    if k in ('cond', 'and', 'or', 'begin'):
        r = [quoted(y) for y in x[1]]
        return None if None in r else ['list', [['sym', k]] + r]
    return None

class Nodes:
    def __init__(self):
        self.n = []
    def add(self, x, dat=False):
        k = x[0]
        if k == 'mac':
            return self.add(x[2])
        A = lambda l, d=False: [self.add(y, d) for y in l]
        bad = lambda ids: 1 if any(self.n[i - 1]['cb'] for i in ids) else 0
        if k == 'lit':
            nd = {'v': x[1], 'cb': 0}
        elif k == 'var':
            nd = {'n': x[1], 'cb': 0}
        elif k == 'call':
            f = self.add(x[1]); a = A(x[2], True)
            nd = {'f': f, 'a': a, 'cb': 0}
        elif k in ('arr', 'begin', 'scope', 'cond', 'and', 'or'):
            a = A(x[1]); nd = {'a': a, 'cb': bad(a)}
        elif k in ('def', 'set'):
            e = self.add(x[2]); nd = {'n': x[1], 'e': e, 'cb': bad([e])}
        elif k == 'mdef':
            e = self.add(x[2]); nd = {'ns': list(x[1]), 'e': e, 'cb': bad([e])}
        elif k in ('let', 'letseq'):
            es = A([e for _, e in x[1]]); a = A(x[2])
            nd = {'ns': [n for n, _ in x[1]], 'es': es, 'a': a, 'cb': bad(es + a)}
        elif k == 'for':
            i, t, s = A(x[2:5]); a = A(x[5])
            nd = {'lab': x[1], 'init': i, 'test': t, 'incr': s, 'a': a, 'cb': bad([i, t, s] + a)}
        elif k in ('break', 'continue'):
            nd = {'lab': x[1], 'cb': 0}
        elif k in ('fn', 'defn'):
            o = 1 if k == 'defn' else 0
            a = A(x[4 + o])
            nd = {'ps': list(x[1 + o]), 'lz': list(x[2 + o]), 'rest': x[3 + o] or '', 'a': a, 'cb': bad(a)}
            if o:
                nd['n'] = x[1]
        elif k == 'assert':
            e = self.add(x[1]); nd = {'e': e, 'cb': bad([e])}
        elif k == 'evalq':
            e = self.add(x[1]); nd = {'e': e, 'cb': 0}
        elif k == 'bad':
            nd = {'cb': 1}
        nd['k'] = k
        if dat:
            q = quoted(x)
            if q is not None:
                nd['d'] = q
        self.n.append(nd)
        return len(self.n)

# ---------------------------------------------------------------- real results in the terms of Core
def real_value(v):
    k = v['k']
    if k == 'int':
        return ['int', int(v['v'])] if abs(int(v['v'])) < 2**31 else ['bigint', v['v']]
    if k == 'bool':
        return ['bool', 1 if v['v'] else 0]
    if k in ('str', 'sym'):
        return [k, v['v']]
    if k == 'char':
        return ['char', v['v']]
    if k == 'nil':
        return ['nil']
    if k == 'list':
        return ['list', [real_value(x) for x in v['v']]]
    if k == 'array':
        return ['arr', [real_value(x) for x in v['v']]]
    if k == 'hash':
        return ['hash', [[real_value(a), real_value(b)] for a, b in v['v']]]
    if k == 'fn':
        return ['fn']
    if k == 'lazy':
        return ['lazy']
    if k == 'selector' and 'v' in v:
        return real_value(v['v'])
    return ['odd:' + k]

def errkind(e):
    if 'injected-error' in e or 'injected-panic' in e:
        return 'inj'
    if 'Assertion failed' in e:
        return 'assert'
    m = re.search(r'symbol `([^`]*)` not found', e)
    if m:
        return 'unbound ' + m.group(1)
    return 'other'

def real_out(r):
    if r.get('panic'):
        return ['panic']
    if r.get('budget'):
        return ['budget']
    if 'err' in r:
        return ['e', errkind(r['err'])]
    return ['v', real_value(r['val'])]

def core_case(forms, fa=0):
    nd = Nodes()
    ids = [nd.add(f) for f in forms]
    return {'nodes': nd.n, 'forms': ids, 'fa': fa}

def validate(rep, drv, progs, prop_filter=None, budget=400000, max_steps=6000, mode='', extra=None, label=''):
    """progs: list of dicts {forms:[ast], fa:int, texts?:[str]}.  Runs each as one
    session on the real code, has TLC run the machine on it, and reports
    confirmed differences.  Returns statistics."""
    cases = []
    for i, p in enumerate(progs):
        c = {'op': 'session', 'id': str(i), 'forms': p.get('texts') or [text(f) + '\n' for f in p['forms']], 'budget': budget}
        if p.get('fa'):
            c['failAt'] = p['fa']; c['failKind'] = p.get('fk', 'err')
        if mode:
            c['mode'] = mode
        if extra:
            c.update(extra)
        if p.get('api'):
            c['api'] = p['api']
        cases.append(c)
    res = C.run_cases(drv, cases)
    rows, back = [], []
    def row(p, r):
        x = core_case(p['forms'], p.get('fa', 0))
        x['chk'] = 1
        x['out'] = [real_out(q) for q in r['results']]
        x['tr'] = [[[real_value(a) for a in ev] for ev in q.get('trace', [])] for q in r['results']]
        return x
    stats = {'programs': len(progs), 'forms': 0, 'checked': 0, 'effects': 0, 'errors': 0}
    suspects, noresult = [], []
    for i, (p, r) in enumerate(zip(progs, res)):
        if 'results' not in r:
            x = core_case(p['forms'], p.get('fa', 0))
            x['out'] = []; x['tr'] = []; x['chk'] = 0
            rows.append(x); back.append(i); noresult.append(len(rows) - 1)
            continue
        rows.append(row(p, r)); back.append(i)
        stats['forms'] += len(r['results'])
        stats['effects'] += sum(len(q.get('trace', [])) for q in r['results'])
        stats['errors'] += sum('err' in q for q in r['results'])
    tl = run_tlc(rows, max_steps)
    stats['states'], stats['transitions'] = tl['states'], tl['transitions']
    for ri in noresult:        # the interpreter gave no answer although the machine gets to the end
        if ri in tl['ok']:
            tl['ok'].discard(ri)
            suspects.append((back[ri], 'no answer'))
    stats['checked'] = len(tl['ok']) + len(tl['bad'])
    stats['beyond'] = len(rows) - stats['checked']
    for ri, (fi, got) in tl['bad'].items():
        suspects.append((back[ri], f'form {fi}: machine {got}'))
    stats['ok_idx'] = [back[i] for i in tl['ok']]
    if suspects:
        confirm(rep, drv, progs, cases, suspects, row, max_steps, label)
    return stats, res

def run_tlc(rows, max_steps, B=4000):
    ok, bad = set(), {}
    st = tr = 0
    for s in range(0, len(rows), B):
        p = C.write_ndjson('core.ndjson', rows[s:s + B])
        r = C.tlc('CoreTrace', f'SPECIFICATION Spec\nCONSTANTS Chunk = 200 MaxSteps = {max_steps}\nINVARIANT Check\n',
                  env={'ZV_CASES': p}, heap='10g')
        if r.violated:
            raise C.CheckError('CoreTrace ' + r.out[-2000:])
        st += r.distinct; tr += r.generated
        for m in re.finditer(r'<<"OK", (\d+)>>', r.out):
            ok.add(s + int(m.group(1)) - 1)
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*(.*?)>>\s*(?=<<\s*"(?:BAD|OK)"|$|[A-Z])', r.out, re.S):
            bad[s + int(m.group(1)) - 1] = (int(m.group(2)), re.sub(r'\s+', ' ', m.group(3))[:700])
    return {'ok': ok, 'bad': bad, 'states': st, 'transitions': tr}

def confirm(rep, drv, progs, cases, suspects, row, max_steps, label):
    seen = 0
    for i, why in suspects:
        if seen >= 12:
            break
        again = C.run_cases(drv, [cases[i]], nproc=1)[0]
        if 'results' not in again:
            rep.violation(cases[i]['forms'], f'{label} {json.dumps(again)[:400]}', {'case': cases[i]}); seen += 1
            continue
        t = run_tlc([row(progs[i], again)], max_steps)
        if t['bad']:
            fi, got = t['bad'][0]
            q = again['results'][fi - 1]
            real = q.get('err') or q.get('panic') or q.get('print') or str(real_out(q))
            rep.violation(cases[i]['forms'][:fi], f"{label} form {fi}: the specification gives {got}; the interpreter gave {real[:300]} with effects {json.dumps(row(progs[i], again)['tr'][fi-1])[:300]}",
                          {'case': cases[i], 'note': progs[i].get('note', '')})
            seen += 1

# ---------------------------------------------------------------- generation
V = lambda n: ('var', n)
I = lambda n: ('lit', ['int', n])
def call(f, *a):
    return ('call', V(f) if isinstance(f, str) else f, list(a))
def tr(k, e):
    return call('tr', ('lit', ['str', k]), e)

NAMES = list('abcdefgh')
FTYPES = {'f0': (0, [], False), 'f1': (1, [0], False), 'f2': (2, [0, 0], False), 'fv': (1, [0], True),
          'l1': (1, [1], False), 'l2': (2, [0, 1], False), 'lv': (1, [1], True)}

class Gen:
    def __init__(self, rng, lazy=False, macros=False, err=0.03, closures=1.0, depth=4, names=NAMES, loops=True):
        self.r = rng
        self.lazy, self.err, self.maxd, self.names, self.loops = lazy, err, depth, names, loops
        self.clw = closures
        self.scopes = [{}]
        self.loop = []          # lexically enclosing loops usable for break/continue
        self.tag = 0
        self.protected = set()  # loop counters not to be assigned
        self.nest = 0
        self.size = 0
        self.nodef = False      # inside the right-hand sides of a let: no def of names there

    def vars(self, ty):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for n, t in s.items():
                if n not in seen:
                    seen.add(n)
                    if t == ty:
                        out.append(n)
        return out

    def typ(self):
        return self.r.choices(['int', 'bool', 'str', 'list', 'arr', 'hash', 'f1', 'f0', 'f2', 'fv', 'nil'],
                              [10, 3, 2, 3, 3, 2, 2 * self.clw, 2 * self.clw, 1, 1, 0.3])[0]

    def lit(self, ty):
        r = self.r
        if ty == 'int':
            return I(r.choice([0, 1, 2, 3, 5, 7, -1, -4, 10]))
        if ty == 'bool':
            return ('lit', ['bool', r.randint(0, 1)])
        if ty == 'str':
            return ('lit', ['str', r.choice(['', 'x', 'yz', 'a b'])])
        if ty == 'nil':
            return r.choice([('lit', ['nil']), ('lit', ['nil'], '()')])
        if ty == 'list':
            return r.choice([('lit', ['list', [['int', r.randint(0, 4)] for _ in range(r.randint(1, 3))]]),
                             call('list', I(r.randint(0, 5)), I(r.randint(0, 5)))])
        if ty == 'arr':
            return ('arr', [I(r.randint(0, 6)) for _ in range(r.randint(1, 3))])
        if ty == 'hash':
            return call('hash', ('lit', ['str', 'k']), I(r.randint(0, 4)))
        return self.lambda_(ty, 0)

    def nested(self, f):
        """runs f where break/continue would leave an expression: not allowed there"""
        l, self.loop = self.loop, []
        try:
            return f()
        finally:
            self.loop = l

    def arg(self, ty, d):
        return self.nested(lambda: self.expr(ty, d))

    def traced(self, e):
        self.tag += 1
        return tr(str(self.tag), e)

    def expr(self, ty, d):
        r = self.r
        self.size += 1
        if self.size > 220:
            d = 0
        if d > 0 and r.random() < self.err * 0.5:
            e = r.choice([lambda: call('stop', ('lit', ['str', 'x'])), lambda: ('assert', ('lit', ['bool', 0])),
                          lambda: V('zz'), lambda: call('/', I(1), I(0)), lambda: call(I(3), I(4)),
                          lambda: call('+', I(1), ('lit', ['str', 's'])), lambda: call('aget', ('arr', [I(1)]), I(9)),
                          lambda: call('hget', call('hash'), I(1)), lambda: call('first', ('lit', ['int', 1])),
                          lambda: self.expr(self.typ(), d - 1), lambda: ('bad', r.choice(['(cond)', '(let [a] 1)', '(break)', '(fn)', '(for [1 2] 3)']))])()
            return e
        if ty == 'bool' and r.random() < 0.12:     # anything is a truth value
            return self.nested(lambda: self.expr(self.typ(), max(0, d - 1)))
        if d > 0 and r.random() < 0.13:
            return self.nested(lambda: self.traced(self.expr(ty, d - 1)))
        if d <= 0 or r.random() < 0.15:
            vs = self.vars(ty)
            if vs and r.random() < 0.75:
                return V(r.choice(vs))
            return self.lit(ty)
        o = ['var', 'cond', 'let', 'letseq', 'begin', 'scope', 'call', 'andor', 'defx', 'setx', 'prim', 'prim', 'prim']
        if ty in ('int', 'any'):
            o += ['prim', 'prim', 'call', 'call']
        k = r.choice(o)
        if k == 'var':
            vs = self.vars(ty)
            if vs:
                return V(r.choice(vs))
            k = 'prim'
        if k == 'cond':
            a = []
            for _ in range(r.choice([1, 1, 2, 0])):
                a += [self.expr('bool' if r.random() < 0.7 else self.typ(), d - 1), self.branch(ty, d - 1)]
            return ('cond', a + [self.branch(ty, d - 1)])
        if k == 'andor':
            which = r.choice(['and', 'or'])
            n = r.choice([1, 2, 2, 3])
            return (which, [self.expr('bool' if ty != 'bool' and which == 'and' else ty, d - 1) for _ in range(n - 1)] + [self.branch(ty, d - 1)])
        if k in ('let', 'letseq'):
            return self.let_(k, ty, d)
        if k == 'begin':
            return ('begin', self.stmts(d - 1, r.choice([0, 1, 2])) + [self.expr(ty, d - 1)])
        if k == 'scope':
            return self.inscope(lambda: ('scope', self.stmts(d - 1, r.choice([0, 1, 2])) + [self.expr(ty, d - 1)]))
        if k == 'defx' and self.nodef:
            k = 'prim'
        if k == 'defx':
            n = r.choice(self.names)
            cur = self.scopes[-1].get(n)
            if n not in self.protected and (cur is None or (cur == ty and ty in ('int', 'bool', 'str'))) and not self.cond_depth_bad(n):
                e = self.expr(ty, d - 1)
                return ('def', n, e)
            k = 'prim'
        if k == 'setx':
            vs = [n for n in self.vars(ty) if n not in self.protected]
            if vs and ty not in ('arr',):
                n = r.choice(vs)
                return ('set', n, self.expr(ty, d - 1))
            k = 'prim'
        if k == 'call':
            c = self.call_(ty, d)
            if c is not None:
                return c
        return self.prim(ty, d)

    def cond_depth_bad(self, n):
        return False

    def branch(self, ty, d):
        return self.expr(ty, d)

    def inscope(self, f, vars=None):
        self.scopes.append(dict(vars or {}))
        nd, self.nodef = self.nodef, False
        try:
            return f()
        finally:
            self.scopes.pop()
            self.nodef = nd

    def let_(self, k, ty, d):
        r = self.r
        n = r.choice([1, 1, 2, 0])
        names = r.sample(self.names, n)
        tys = [self.typ() for _ in names]
        self.scopes.append({})
        nd, self.nodef = self.nodef, True
        try:
            es = []
            for nm, t in zip(names, tys):
                es.append(self.expr(t, d - 1))
                if k == 'letseq':
                    self.scopes[-1][nm] = t
            self.nodef = False
            sav = self.protected
            self.protected = self.protected - set(names)
            for nm, t in zip(names, tys):
                self.scopes[-1][nm] = t
            body = self.stmts(d - 1, r.choice([0, 0, 1, 2])) + [self.expr(ty, d - 1)]
            self.protected = sav
        finally:
            self.scopes.pop()
            self.nodef = nd
        return (k, list(zip(names, es)), body)

    def params(self, ft):
        n, lz, rest = FTYPES[ft]
        ns = self.r.sample(self.names, n + (1 if rest else 0))
        return [('#' if z else '') + p for p, z in zip(ns, lz)], list(lz), (ns[n] if rest else '')

    def body(self, ps, lz, rest, d, extra=None):
        def f():
            # a body can force a lazy parameter before using it
            b = []
            sav = self.protected
            self.protected = self.protected - set(ps) - {rest}
            for p, z in zip(ps, lz):
                if z:
                    b += self.lazy_use(p, d)
            b += self.stmts(d - 1, self.r.choice([0, 0, 1, 1, 2]))
            b.append(self.expr('int', d - 1))
            self.protected = sav
            return b
        vs = {p: ('lazy' if z else 'int') for p, z in zip(ps, lz)}
        if rest:
            vs[rest] = 'rest'
        return self.nested(lambda: self.inscope(f, vs))

    def lazy_use(self, p, d):
        r = self.r
        k = r.choice(['none', 'force', 'force2', 'subst', 'closure', 'pass', 'both'])
        F = call('force', V(p))
        self.tag += 1
        t = str(self.tag)
        if k == 'none':
            return []
        if k == 'force':
            return [tr(t, F)]
        if k == 'force2':
            return [tr(t, F), tr(t + 'b', F)]
        if k == 'subst':
            return [call('tr', ('lit', ['str', t]), call('substitute', V(p)))]
        if k == 'both':
            return [tr(t, call('substitute', V(p))), tr(t, F), tr(t, call('substitute', V(p)))]
        if k == 'closure':
            return [call('tr', ('lit', ['str', t]), call(('fn', [], [], '', [F])))]
        return [tr(t, call(('fn', ['#w'], [1], '', [call('force', V('#w'))]), F))]

    def lambda_(self, ft, d):
        ps, lz, rest = self.params(ft)
        return ('fn', ps, lz, rest, self.body(ps, lz, rest, max(0, d - 1)))

    def args_for(self, ft, d):
        n, lz, rest = FTYPES[ft]
        m = n + (self.r.randint(0, 2) if rest else 0)
        if self.r.random() < self.err * 0.3:
            m += self.r.choice([-1, 1])
        return [self.arg('int', d - 1) for _ in range(max(0, m))]

    def call_(self, ty, d):
        if ty != 'int':
            return None
        r = self.r
        cands = [(n, ft) for ft in FTYPES for n in self.vars(ft)]
        k = r.random()
        if cands and k < 0.7:
            n, ft = r.choice(cands)
            f = V(n)
            q = r.random()
            if q < 0.12 and ft in ('f1', 'fv', 'l1'):
                return call('first', call('map', f, r.choice([('arr', [self.arg('int', d - 1), self.arg('int', d - 1)]), call('list', self.arg('int', d - 1), self.arg('int', d - 1))])))
            if q < 0.24 and ft != 'f0':
                a = self.args_for(ft, d)
                if a:
                    return call('apply', f, ('arr', a) if r.random() < 0.5 else call('list', *a))
            if q < 0.3:
                f = ('cond', [self.arg('bool', d - 1), f, f])
            return ('call', f, self.args_for(ft, d))
        fts = ['f0', 'f1', 'f2', 'fv'] + (['l1', 'l2', 'lv'] * 2 if self.lazy else [])
        ft = r.choice(fts)
        return ('call', self.nested(lambda: self.lambda_(ft, d)), self.args_for(ft, d))

    def prim(self, ty, d):
        r = self.r
        A = lambda t: self.arg(t, d - 1)
        if ty == 'int':
            k = r.randrange(13)
            if k == 12:
                return call('len', A('str'))
            if k == 11:
                return r.choice([lambda: call('second', call('list', A('int'), A('int'))), lambda: call('first', call('slice', A('arr'), I(0), I(r.choice([1, 1, 2])))),
                                 lambda: call('aget', call('rest', A('arr')), I(0), A('int')), lambda: call('first', call('cdr', call('cons', A('int'), A('list')))),
                                 lambda: call('second', call('hpair', A(r.choice(['arr', 'hash'])), I(0)))])()
            if k == 10:
                return call('/', call('*', A('int'), I(4)), I(2))
            if k < 3:
                return call(r.choice('+-'), A('int'), A('int'))
            if k == 3:
                return call('*', A('int'), I(r.choice([2, 3, -1])))
            if k == 4:
                return call('len', A(r.choice(['list', 'arr', 'hash'])))
            if k == 5:
                return call('aget', A('arr'), I(r.randint(0, 3)), A('int'))
            if k == 6:
                return call('hget', A('hash'), ('lit', ['str', r.choice('kmn')]), A('int'))
            if k == 7:
                return call('+', A('int'), A('int'), A('int'))
            if k == 8:
                return call('first', call('cons', A('int'), A('list')))
            return ('evalq', self.nested(lambda: self.expr_global('int', d - 1)))
        if ty == 'bool':
            k = r.randrange(6)
            if k == 5:
                return call(r.choice(['null?', 'empty?', 'list?', 'array?', 'hash?', 'int?', 'number?', 'string?', 'func?', 'symbol?']), A(self.typ()))
            if k == 4:
                return call('zero?', A('int'))
            if k == 0:
                return call('not', A(r.choice(['bool', 'int'])))
            if k == 1:
                return call(r.choice(['==', '!=']), A('str'), A('str'))
            return call(r.choice(['<', '>', '<=', '>=', '==', '!=']), A('int'), A('int'))
        if ty == 'str':
            return r.choice([lambda: call('concat', A('str'), A('str')), lambda: call('append', A('str'), A('str')), lambda: call('str', A('int')),
                             lambda: call('str', A('bool')), lambda: call('type?', A(self.typ())), lambda: call('slice', A('str'), I(0), I(r.choice([0, 1, 1, 2]))),
                             lambda: call('concat', A('str'), A('str'), A('str')), lambda: call('str', A('arr'))])()
        if ty == 'list':
            return r.choice([lambda: call('list', A('int'), A('int')), lambda: call('concat', A('list'), A('list')), lambda: call('cons', A('int'), A('list')),
                             lambda: call('map', self.nested(lambda: self.fnexpr(d - 1)), A('list'))])()
        if ty == 'arr':
            return r.choice([lambda: ('arr', [A('int') for _ in range(r.randint(0, 3))]), lambda: call('append', A('arr'), A('int')),
                             lambda: call('concat', A('arr'), A('arr')), lambda: call('array', A('int'), A('int')),
                             lambda: call('makeArray', I(r.randint(0, 3)), A('int')), lambda: call('appendslice', A('arr'), A('arr')),
                             lambda: call('map', self.nested(lambda: self.fnexpr(d - 1)), A('arr'))])()
        if ty == 'hash':
            return call('hash', ('lit', ['str', r.choice('km')]), A('int'), ('lit', ['str', r.choice('mn')]), A('int'))
        if ty in FTYPES:
            return self.lambda_(ty, d)
        return self.lit(ty)

    def fnexpr(self, d):
        vs = self.vars('f1') + (self.vars('l1') if self.lazy else [])
        if vs and self.r.random() < 0.5:
            return V(self.r.choice(vs))
        return self.lambda_(self.r.choice(['f1', 'f1', 'fv'] + (['l1'] if self.lazy else [])), d)

    def expr_global(self, ty, d):
        """(eval (quote E)): keep E to literals and global names"""
        sav, self.scopes = self.scopes, [self.scopes[0] if len(self.scopes) == 1 else {}]
        try:
            return self.expr(ty, min(d, 2))
        finally:
            self.scopes = sav

    def stmts(self, d, n):
        return [self.stmt(d) for _ in range(n)]

    def stmt(self, d):
        r = self.r
        k = r.choices(['def', 'set', 'tr', 'defn', 'for', 'jump', 'mut', 'mdef', 'expr', 'assert'],
                      [5, 4, 3, 3 * self.clw, 1.5 if self.loops and d > 0 and self.nest < 2 else 0, 3 if self.loop else 0, 2, 0.7, 1, 0.3])[0]
        d = max(d, 0)
        top = self.scopes[-1]
        if self.nodef and k in ('def', 'defn', 'mdef'):
            k = 'tr'
        if k == 'def':
            n = r.choice(self.names)
            t = self.typ()
            if n in self.protected:
                return self.traced(self.lit('int'))
            cur = top.get(n)
            if cur is not None:
                t = cur if cur in ('int', 'bool', 'str') else None
            if t is None:
                return self.traced(self.lit('int'))
            e = self.expr(t, d - 1)
            if top.get(n) in (None, t):
                top[n] = t
                return ('def', n, e)
            return e
        if k == 'set':
            t = r.choice(['int', 'int', 'bool', 'f1', 'f0', 'list', 'hash'])
            vs = [n for n in self.vars(t) if n not in self.protected]
            if vs:
                n = r.choice(vs)
                return ('set', n, self.expr(t, d - 1))
        if k == 'defn':
            n = r.choice(self.names)
            if n not in self.protected and top.get(n) in (None, 'f0', 'f1', 'f2', 'fv', 'l1', 'l2', 'lv'):
                ft = r.choice(['f0', 'f1', 'f2', 'fv'] + (['l1', 'l2', 'lv'] * 2 if self.lazy else []))
                ps, lz, rest = self.params(ft)
                if n in ps or n == rest:
                    return self.traced(self.lit('int'))
                old = top.pop(n, None)
                if ft in ('f1', 'f2') and r.random() < 0.45:
                    b = self.recursive(n, ps, d)
                else:
                    b = self.body(ps, lz, rest, d)
                top[n] = ft
                return ('defn', n, ps, lz, rest, b)
        if k == 'for':
            return self.for_(d)
        if k == 'jump' and self.loop:
            lab = r.choice(self.loop)
            j = r.choice(['break', 'continue'])
            c = self.arg('bool', d)
            if j == 'continue' and lab not in (self.loop[-1], ''):
                pass
            inner = self.loop[-1]
            name = '' if lab == inner and r.random() < 0.6 else lab
            if name == '' and lab != inner:
                name = lab
            return ('cond', [c, self.wrapjump((j, name if not name.startswith('!') else '')), self.lit('int')])
        if k == 'mut':
            vs, hs = self.vars('arr'), self.vars('hash')
            if hs and r.random() < 0.6:
                h = V(r.choice(hs))
                return r.choice([call('hset', h, ('lit', ['str', r.choice('kmn')]), self.arg('int', d - 1)),
                                 call('hdel', h, ('lit', ['str', r.choice('kmn')]))])
            if vs:
                return call('aset', V(r.choice(vs)), I(r.choice([0, 0, 0, 1, 2] if r.random() < 0.3 else [0])), self.arg('int', d - 1))
        if k == 'mdef':
            ns = [n for n in r.sample(self.names, 2) if n not in self.protected and top.get(n) in (None, 'int')]
            if len(ns) == 2:
                e = call('list', self.arg('int', d - 1), self.arg('int', d - 1))
                for n in ns:
                    top[n] = 'int'
                return ('mdef', ns, e)
        if k == 'assert':
            return ('assert', self.expr('bool', d - 1) if r.random() < self.err * 3 else ('lit', ['bool', 1]))
        if k == 'expr':
            return self.expr(self.typ(), d)
        return self.traced(self.arg('int', d - 1))

    def wrapjump(self, j):
        k = self.r.random()
        if k < 0.5:
            return j
        if k < 0.7:
            return ('begin', [self.traced(self.lit('int')), j])
        if k < 0.85:
            return ('let', [(self.r.choice(self.names), self.lit('int'))], [j])
        return ('scope', [('def', self.r.choice(self.names), self.lit('int')), j])

    def for_(self, d):
        r = self.r
        lab = r.choice(['', 'L1', 'L2']) if not self.loop else r.choice(['', 'L3', 'L4'])
        while lab and lab in self.loop:
            lab += 'x'
        i = r.choice([n for n in 'ijk' if n not in self.protected] or ['m'])
        if i in self.protected:
            return self.traced(self.lit('int'))
        sp = self.protected
        self.nest += 1
        self.scopes.append({i: 'int'})
        nd, self.nodef = self.nodef, False
        self.protected = self.protected | {i}
        self.loop = self.loop + [lab or '!%d' % len(self.loop)]
        try:
            lim = r.choice([0, 1, 2, 3, 3])
            up = r.random() < 0.7
            init = ('def', i, I(0 if up else lim))
            test = call('<', V(i), I(lim)) if up else call('>', V(i), I(0))
            incr = ('set', i, call('+' if up else '-', V(i), I(1)))
            if r.random() < 0.15:
                test = self.traced(test)
            if r.random() < 0.15:
                incr = self.traced(incr)
            body = self.stmts(d - 1, r.choice([1, 2, 3]))
            if r.random() < 0.04:
                body = []
        finally:
            self.scopes.pop()
            self.loop = self.loop[:-1]
            self.protected = sp
            self.nest -= 1
            self.nodef = nd
        lab2 = lab
        return ('for', lab2, init, test, incr, body)

    def recursive(self, n, ps, d):
        """a terminating recursive body: the first parameter counts down"""
        r = self.r
        self.scopes.append({p: 'int' for p in ps})
        sp = self.protected
        self.protected = (self.protected - set(ps)) | {ps[0]} | {n}
        l, self.loop = self.loop, []
        try:
            step = ('call', V(n), [call('-', V(ps[0]), I(1))] + [self.expr('int', min(2, d - 1)) for _ in ps[1:]])
            if r.random() < 0.3:
                step = call('+', I(1), step)
            elif r.random() < 0.2:
                step = self.traced(step)
            e = self.tailwrap(step, d)
            base = self.expr('int', min(2, d - 1))
            guard = call('<', V(ps[0]), I(1))
            cut = call('>', V(ps[0]), I(6))
            return self.stmts(min(1, d - 1), r.choice([0, 0, 1])) + [('cond', [guard, base, cut, I(0), e])]
        finally:
            self.scopes.pop()
            self.protected = sp
            self.loop = l

    def tailwrap(self, step, d):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.choice(['begin', 'let', 'letseq', 'scope', 'cond', 'and', 'or', 'cond2'])
            pre = lambda: self.stmts(min(1, d - 1), r.choice([0, 1]))
            if k == 'begin':
                step = ('begin', pre() + [step])
            elif k in ('let', 'letseq'):
                nm = [n for n in self.names if n not in self.protected]
                nm = r.choice(nm)
                step = (k, [(nm, self.expr('int', 1))], [self.traced(V(nm)), step])
            elif k == 'scope':
                step = ('scope', pre() + [step])
            elif k == 'cond':
                step = ('cond', [('lit', ['bool', 1]), step, I(0)])
            elif k == 'cond2':
                step = ('cond', [('lit', ['bool', 0]), I(0), step])
            elif k == 'and':
                step = ('and', [I(1), step])
            else:
                step = ('or', [('lit', ['bool', 0]), step])
        return step

    def program(self, nforms):
        forms = []
        for _ in range(nforms):
            self.size = 0
            forms.append(self.stmt(self.maxd) if self.r.random() < 0.6 else self.expr(self.r.choice(['int', 'int', 'list', 'arr', 'hash', 'bool', 'str']), self.maxd))
        return forms
