"""C13: parsing depends only on the text.  Reader.tla is the reading of a text, one
character at a time; TLC shows on every small text that it asks for more exactly when
something is open; the real parser is fed every small text character by character, and
large ones in pieces, after all kinds of histories and through all entry points, and
TLC validates every answer it gave on the way."""
import random, os, glob, itertools, json, subprocess, re, tempfile, shutil
import common as C, reader as R
LEVEL = 'model_checking'

ALPHA = [('()[]{}a1 ,\\', 4, 5), ('"\\\'`/*\na(', 4, 5), ('a1-+.e:= ', 4, 6), ('%^~@(a) ', 4, 6), ('{}a:"`, ;/', 4, 5), ('é"\'\\x4u0 ', 4, 5), ('-I.nf(0:) ', 4, 5), ('/*\n x', 4, 8)]

BITS = ['(', ')', '[', ']', '{', '}', '(a b)', '[1, 2]', '{a: 1}', '{a + b}', '{"k": [1 2]}', '{`k`: 1}', '{for: 1}', '{x: for i := 0; i < 3; i++ { }}', '"s"', '"a\\n\\"b"', '"é世界"', "'x'", "'\\n'", "'\\''", '`raw "x" \n y`', '// line\n', '/* block */',
        '/* a\n * b\n **/', '/***/', '//\n', '%', '^', '~', '~@', '%a', '^(a ~b ~@c)', 'a', 'abc', 'a.b.c', '.a', 'a:', 'a::', 'ULL', '1ULL', '0x1fULL', 'true', 'false', 'nil', '#a', '?b', '$', '&x', '&&', '||', '|', 'a-b', '-1', '- 1', '-.5', '1.5', '1e-5', '1E+5', '1e5', '0x1F', '-0x1f', '0o17', '0b101',
        '1_000', '1_0.2_5', 'Inf', '-Inf', '+Inf', '- Inf', 'nan', 'a[1:2]', 'a[-1:]', '1:2', ':=', ':', '=', '==', '!=', '!', '<=', '->', '<-', '++', '--', '**', '*', '/', '+=', '/=', ',', ';', '\\', '(a \\ b)', '(a b \\ (c))', '\n', ' ', '\t', '\r\n', '@', '9223372036854775807', '9223372036854775808', '1a', '1a:', '"\\q"', "''", "'ab'", ')(', '((', '\x00', '\u00a0', 'λ']
GOOD = [b for b in BITS if b not in (')', ']', '}', ')(', '\\', '@', '1a', '1a:', '"\\q"', "''", "'ab'", '9223372036854775808')]

HIST = ['', 'a', '1', '(', '(a', '(a "b', '"', '"abc', "'", "'a", '`', '`raw', '/*', '/* c *', '//', '// c', '{', '{a', '{a:', '{"k"', '{`k`', '[1,', '%', '^', '~', '~@', '%(', ')', ']', '}', '(a \\', '(a \\ b', '(a \\ b c)', '-', 'a-', '1e', '1e-', 'a:', 'a :', ':', '"\\', '"\\q', '"\\x4', "'\\", '1a', "''", '@', '((((', '[[[[', '{{{{', '1 2 (', 'x (y', 'a ) b', '(a // c', '(a /* c', '/', '*/', '(}', '{for', '+', 'a.b.', '0x', '-0', '- ', '&', '|', '=', '!', 'e', 'E', '2e', '\n(\n\n']
TEXTS = ['a', '1', '-1', '- 1', '-Inf', 'Inf', '(a b)', '[1 2]', '{a: 1}', '{a + 1}', '"s"', "'c'", '`r`', '// x\n1', '/* y */ 2', '%a', '^(a ~b)', 'a.b', '@a', '1:2', '*/ 3', '+ 4', ') b', '5)', ']', '"', '}', "b'", '\\ c)', 'n"', '.5', '-.5', 'e5', '-5', '+5', '= 1', ':= 1', ':', 'b:', 'ULL', 'x1', '(', '"u', '/ 7', '* 8', '', ' ', '\n', 'and', '0x1f', '{for i := 0; i < 2; i++ { a }}']

def grow(r, d):
    """a well-formed expression"""
    k = r.choice(['a', 'a', 'l', 'l', 'v', 'h', 'i', 'q', 'c', 'd']) if d > 0 else 'a'
    sub = lambda: grow(r, d - 1)
    sp = lambda: r.choice([' ', ' ', ' ', '\n', '  ', '\t', ' // c ) "\n', ' /* ( " */ '])
    if k == 'a':
        return r.choice([b for b in GOOD if b[0] not in '([{%^~/' and b not in ('-', '+', '->') and b.strip()])
    if k == 'l':
        return '(' + sp().join(sub() for _ in range(r.randint(0, 4))) + r.choice(['', ' ', '\n']) + ')'
    if k == 'v':
        return '[' + r.choice([' ', ', ', '\n']).join(sub() for _ in range(r.randint(0, 4))) + ']'
    if k == 'h':
        return '{' + r.choice(['', '', '', ' ', '/* c } */', ' // x ]\n', '/* " */ ']) + ' '.join(r.choice(['a:', 'b: ', '"k":', '"k" :', '`k`:', 'c :']) + ' ' + sub() for _ in range(r.randint(0, 3))) + '}'
    if k == 'i':
        return '{' + r.choice([' ', '; ']).join(sub() + r.choice([' + ', ' := ', ' - ', '\n']) + sub() for _ in range(r.randint(0, 2))) + '}'
    if k == 'q':
        return r.choice(['%', '^', '~', '~@']) + sub()
    if k == 'd':
        return '(%s \\ %s)' % (sub(), sub())
    return r.choice(['// c\n', '/* c */', '/* a\n b */']) + sub()

def soup(r):
    q = r.random()
    if q < 0.35:
        return r.choice(['', ' ', '\n']).join(r.choice(BITS) for _ in range(r.randint(1, 6)))
    if q < 0.6:
        t = ' '.join(grow(r, r.randint(0, 3)) for _ in range(r.randint(1, 3)))
        return t
    if q < 0.8:
        t = ' '.join(grow(r, r.randint(1, 3)) for _ in range(r.randint(1, 3)))
        i = r.randint(0, len(t))
        return t[:i]
    t = list(' '.join(grow(r, r.randint(1, 3)) for _ in range(r.randint(1, 2))))
    for _ in range(r.randint(1, 3)):
        if t:
            i = r.randrange(len(t))
            x = r.random()
            if x < 0.4:
                del t[i]
            elif x < 0.7:
                t.insert(i, r.choice('()[]{}"\'`/*\n;:,-%^~@\\ a1'))
            else:
                t[i] = r.choice('()[]{}"\'`/*\n;:,-%^~@\\ a1')
    return ''.join(t)

def split(r, t):
    n = r.choice([1, 1, 2, 2, 3, 5, 9])
    cut = sorted(set([0, len(t)] + [r.randint(0, len(t)) for _ in range(n - 1)]))
    return [t[a:b] for a, b in zip(cut, cut[1:])] or ['']

class Run:
    def __init__(self, rep, drv):
        self.rep, self.drv = rep, drv
        self.recs, self.src, self.cases = [], [], []
        self.seen = {}
        self.nbad = 0
        self.n = dict(texts=0, answers=0, pieces=0, histories=0, same=0)

    def add(self, case, ti, pieces, replies, note=''):
        if case.get('how') == 'queue':
            pieces = [''.join(pieces)]
        """one text as it was delivered; the record goes to TLC unless an equal one does already"""
        upto, k = [], 0
        for p in pieces:
            k += len(p); upto.append(k)
        rec = R.record(''.join(pieces), replies, upto)
        last = json.dumps([rec['t'], rec['q'][-1]])
        if len(rec['q']) == 1 and last in self.seen:
            self.n['texts'] += 1; self.n['same'] += 1; self.n['answers'] += 1; self.n['pieces'] += 1
            return
        self.seen[last] = 1
        self.n['texts'] += 1; self.n['answers'] += len(rec['q']); self.n['pieces'] += len(pieces)
        key = json.dumps(rec)
        if key in self.seen:
            self.n['same'] += 1
            return
        self.seen[key] = len(self.recs)
        self.recs.append(rec)
        self.src.append((case, ti, note))

    def run(self, cases, note=''):
        res = C.run_cases(self.drv, cases, tmo_ms=4000, max_bad=max(0, 6 - self.nbad))
        for c, r in zip(cases, res):
            if 'skipped' in r:
                continue
            if 'crash' in r or 'timeout' in r:
                self.fail(c, 'crash' if 'crash' in r else 'hang', json.dumps(c)[:300] + ' -- ' + str(r)[:300])
                continue
            for i, (pcs, reps) in enumerate(zip(c['texts'], r['r'])):
                if c.get('how') in ('file', 'readfn'):
                    continue
                self.add(c, i, pcs, reps, note)
        return res

    def fail(self, case, kind, detail):
        if self.nbad >= 6:
            return
        again = C.run_cases(self.drv, [case], tmo_ms=10000, nproc=1)[0]
        if 'crash' not in again and 'timeout' not in again:
            return
        self.nbad += 1
        self.rep.violation(key=kind + ':' + json.dumps(case['texts'])[:100], detail=detail, replay={'case': case})

    def validate(self):
        bad, st = R.check(self.recs)
        for i in C.until(sorted(bad), self.rep):
            case, ti, note = self.src[i]
            rec = self.recs[i]
            # the same delivery again, alone, and what the specification says about it
            r2 = C.run_cases(self.drv, [case], tmo_ms=30000, nproc=1)[0]
            if 'r' in r2:
                upto, k = [], 0
                for p in (case['texts'][ti] if case.get('how') != 'queue' else [''.join(case['texts'][ti])]):
                    k += len(p); upto.append(k)
                rec2 = R.record(''.join(case['texts'][ti]), r2['r'][ti], upto)
                b2, _ = R.check([rec2], say=True)
                if not b2:
                    continue
                k, s, v = b2[0]
                got = r2['r'][ti][k]
                t = ''.join(case['texts'][ti])
                hist = case.get('hist', []) + [['text', ''.join(x)] for x in case['texts'][:ti]]
                self.rep.violation(key='read:' + t[:60], detail=f"text {t[:upto[k]]!r} delivered as {case['texts'][ti][:k + 1]!r}{' after ' + repr(hist[-6:]) if hist else ''} {note}: the specification says {s}{v[:200]}; the parser answered {json.dumps(got)[:300]}", replay={'case': case, 'text': ti})
        return st

PROMPT = 'zygo> '

def session(r):
    """lines typed at the prompt, in groups that belong to one text"""
    lines = []
    for _ in range(r.randint(1, 5)):
        t = r.choice(['(quote %s)', '(+ 1 2) %s', '(list 1 (quote %s))', '"%s"', '`%s\n`', '/* %s */ 1', '// %s\n3', '(quote [%s])', '{a := 1; (quote %s)}', '%s', '(quote %s', '[1 "%s']) % ' '.join(grow(r, r.randint(0, 2)) for _ in range(r.randint(1, 2)))
        t = t.replace('\x00', '').replace('\r', '').replace('for', 'fa')
        for _ in range(r.choice([0, 1, 2, 3])):
            i = r.choice([k for k, ch in enumerate(t) if ch == ' '] or [len(t)])
            t = t[:i] + '\n' + t[i + 1:]
        if r.random() < 0.25:
            t = r.choice([h for h in HIST if 'for' not in h]) + '\n' + t
        lines += t.split('\n')
    return lines

def play(zy, lines):
    """how many lines each text took, by the prompts the tool shows"""
    d = tempfile.mkdtemp(dir=C.work())
    p = subprocess.run([zy, '-quiet', '-sandbox', '-no-liner'], input='\n'.join(lines) + '\n', text=True, capture_output=True, timeout=60, cwd=d, env={**os.environ, 'HOME': d})
    shutil.rmtree(d)
    got = []
    for ch in p.stdout.split(PROMPT)[1:]:
        k = 1
        while ch.startswith('... '):
            k += 1; ch = ch[4:]
        got.append(k)
    return got, p.stdout, p.returncode

def repl_check(rep, drv, sess, outs):
    """the prompts against the answers of the parser itself"""
    n = 0
    for lines, (got, out, rc) in zip(sess, outs):
        i, want = 0, []
        while i < len(lines):
            a = C.run_cases(drv, [{'op': 'read', 'texts': [[x + '\n' for x in lines[i:]]]}], nproc=1)[0]
            if 'r' not in a:
                rep.violation(key='repl:' + json.dumps(lines)[:80], detail=f'lines {lines!r}: {str(a)[:300]}', replay={'lines': lines})
                return n
            k = next((q + 1 for q, x in enumerate(a['r'][0]) if x['st'] != 'more'), None)
            if k is None:
                want.append(len(lines) - i + 1); break
            want.append(k); i += k
        else:
            want.append(1)
        n += len(lines)
        if got != want and got != want[:len(got)]:
            rep.violation(key='repl:' + json.dumps(lines)[:80], detail=f"lines {lines!r}: the parser takes them in groups of {want}, the prompt shows {got}; output {out[-300:]!r}", replay={'lines': lines})
    return n

def run(rep):
    import time, sys; T0=time.time()
    def tick(x):
        if os.environ.get('ZV_VERBOSE'): print('%6.1f %s'%(time.time()-T0,x),file=sys.stderr)
    r = random.Random(C.SEED * 7919 + 13)
    thorough = C.TIER == 'thorough'
    drv = C.build_driver()
    states = trans = 0
    for al, n, m in ALPHA:
        f = os.path.join(C.work(), 'alpha')
        C.write_ndjson(f, [R.cps(al)])
        t = C.tlc('ReaderGen', f'CONSTANT MaxLen = {m if thorough else 3 if len(al) > 7 else n}\nSPECIFICATION Spec\nINVARIANT Unfinished\nINVARIANT Stable\n', env={'ZV_ALPHA': f}, heap='8g')
        if t.violated:
            raise C.CheckError('the model breaks its own invariant on ' + repr(al) + t.out[-1500:])
        states += t.distinct; trans += t.generated
    tick('R_ = Run(rep, drv)')
    R_ = Run(rep, drv)
    # every small text, one character at a time
    batch = []
    def flush():
        nonlocal batch
        if batch:
            R_.run(batch, 'one character at a time')
        batch = []
    small = []
    for al, n, m in ALPHA:
        k = (m - 1 if thorough else 4 if len(al) < 7 else 3)
        small += [''.join(p) for p in itertools.product(al, repeat=k)]
        small += [''.join(r.choice(al) for _ in range(r.randint(k + 1, k + 4))) for _ in range(20000 if thorough else 900)]
    for i in range(0, len(small), 200):
        batch.append({'op': 'read', 'own': i % 400 == 0, 'texts': [list(t) for t in small[i:i + 200]]})
    flush()
    tick('# the same texts at ')
    # the same texts at once: the answer has to be the last one of the above
    whole = [{'op': 'read', 'own': i % 400 != 0, 'how': r.choice(['', 'resetnew']), 'texts': [[t] for t in small[i:i + 200]]} for i in range(0, len(small), 200)]
    R_.run(whole, 'at once')
    tick('# larger texts in ra')
    # larger texts in random pieces
    texts = [soup(r) for _ in range(40000 if thorough else 5000)]
    cases = [{'op': 'read', 'own': r.random() < 0.5, 'texts': [split(r, t) for t in texts[i:i + 40]]} for i in range(0, len(texts), 40)]
    cases += [{'op': 'read', 'how': 'queue', 'own': r.random() < 0.5, 'texts': [split(r, t) for t in texts[i:i + 40]]} for i in range(0, len(texts), 40)]
    cases += [{'op': 'read', 'how': 'queue', 'texts': [list(t) for t in small[i:i + 200]]} for i in range(0, len(small), 200)]
    # scripts of the repository, in pieces
    files = sorted(glob.glob(os.path.join(C.REPO, 'tests', '*.zy')))
    scripts = []
    for f in files:
        t = open(f, errors='replace').read()
        if len(t) < 6000:
            scripts.append(t)
    if not thorough:
        scripts = r.sample(scripts, min(len(scripts), 40))
    cases += [{'op': 'read', 'texts': [split(r, t)]} for t in scripts]
    R_.run(cases, 'in pieces')
    tick('# histories')
    # histories
    cases = []
    modes = ['parse', 'parse', 'load', 'eval', 'new', 'add', 'source', 'infix']
    pairs = [(h, t) for h in HIST for t in TEXTS]
    r.shuffle(pairs)
    for h, t in pairs[:len(pairs) if thorough else 1800]:
        hist = [[r.choice(modes), h]]
        if r.random() < 0.3:
            hist.append([r.choice(modes + ['stop', 'reset', 'clear']), r.choice(HIST)])
        cases.append({'op': 'read', 'own': True, 'hist': hist, 'how': r.choice(['', '', 'resetnew']), 'texts': [split(r, t), [t + ' ' + r.choice(TEXTS)]]})
    R_.n['histories'] = len(cases)
    R_.run(cases, 'after a history')
    tick('# other ways in')
    # other ways in: the first expression, or all of them, as read directly
    cases, ref = [], []
    pick = [t for t in texts if len(t) < 200]
    pick = r.sample(pick, min(len(pick), 6000 if thorough else 600))
    for how in ('file', 'readfn'):
        cases += [{'op': 'read', 'own': True, 'how': how, 'texts': [[t] for t in pick[i:i + 20]]} for i in range(0, len(pick), 20)]
        ref += [{'op': 'read', 'own': True, 'texts': [[t] for t in pick[i:i + 20]]} for i in range(0, len(pick), 20)]
    res = C.run_cases(drv, cases, tmo_ms=4000, max_bad=max(0, 6 - R_.nbad))
    rr = R_.run(ref, 'reference')
    routes = 0
    for c, a, b in zip(cases, res, rr):
        if 'r' not in a or 'r' not in b:
            if 'r' not in a and 'skipped' not in a:
                R_.fail(c, 'crash', str(a)[:300])
            continue
        for t, x, y in zip(c['texts'], a['r'], b['r']):
            x, y = x[0], y[0]
            routes += 1
            want_err = y['st'] != 'ok'
            if c['how'] == 'file':
                good = x['st'] in ('err', 'more') if want_err else x['st'] == 'ok' and x['xs'] == y['xs']
            elif want_err:
                # read gives the first expression: what follows may be missing or wrong
                good = x['st'] != 'panic'
            else:
                good = not y['xs'] or x['st'] == 'ok' and x['xs'] == y['xs'][:1]
            if not good:
                one = {'op': 'read', 'own': True, 'how': c['how'], 'texts': [t]}
                q = C.run_cases(drv, [one], nproc=1)[0]
                q2 = C.run_cases(drv, [c], nproc=1)[0]
                if q2.get('r') == a.get('r'):
                    rep.violation(key=f"{c['how']}:{t[0][:60]}", detail=f"text {t[0]!r} through {c['how']}: {json.dumps(x)[:300]}; directly: {json.dumps(y)[:300]}", replay={'case': c})
    tick('# the command line t')
    # the command line tool
    zy = C.build_zygo()
    sess = [session(r) for _ in range(400 if thorough else 60)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda l: play(zy, l), sess))
        nrepl = sum(ex.map(lambda q: repl_check(rep, drv, [q[0]], [q[1]]), zip(sess, outs)))
    tick('st = R_.validate()')
    st = R_.validate()
    tick('rep.cov.update(')
    rep.cov.update(texts=R_.n['texts'], answers=R_.n['answers'], pieces=R_.n['pieces'], histories=R_.n['histories'], identical_deliveries=R_.n['same'], other_routes=routes, repl_lines=nrepl,
            scripts=len(scripts), states=states + st[0], transitions=trans + st[1], traces_validated_against_impl=len(R_.recs))
    rep.sample({'text': ''.join(cases[0]['texts'][0])})
    rep.assumptions = ['a text is delivered in pieces of whole characters', 'after a text that was answered with an error the parser is reset before the next one, as every caller in the library does']
