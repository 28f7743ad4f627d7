"""C01: no input can crash the host.
TLC shows on the model of the boundary (Host) that a call always comes back with a
value or an error if every stage has its guards, and that leaving out any one breaks
it, and enumerates token strings and malformed forms (HostGen).  They, mutated
programs, random bytes and texts that make things nest, recurse or contain themselves
are handed to real interpreters by every entry point, and to the command; TLC runs
every recorded history on the protocol (HostTrace)."""
import random, re, os, json, glob, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import common as C
import c08, time
LEVEL = 'model_checking'
NOBODY = 65534
TOKENS = ['(', ')', '[', ']', '{', '}', 'a', '1', '"s"', "'c'", '%', '^', '~', '~@', '&', '*', '.a', 'a.b', 'a:', ':', ',', ';', '=', ':=', '+', '-', 'if', 'for', 'fn', 'quote', '//x\n', '/*', '*/', '\\', '`r`', '$a', '#a', '2.5', 'nil', 'and',
          '!', '++', 'func', 'def', 'a[', '0x1', '1ULL', '"u', '`u', "'", '.', '->', '\n', '"\\x"', '1e', '0b2', '#', '$', '@', '?', '<', '==', 'else', 'range', 'struct', 'package', 'import', 'var', 'let', 'defmac', '1.2.3', '-1', '~@(', '^(', '9223372036854775808', '\x00', '\x7f', '\u00e9', "'\\n'", ';;', '_', 'a::', '::', '...', '{}', '()', '[]']
HEADS = '''and or cond quote def mdef fn defn begin let letseq assert defmac macexpand syntaxQuote set break continue newScope package return var struct func interface method defmap range req colonAccess infix infixExpand for field
 deref derefSet derefStore hset hget hdel aset aget slice sprintf printf str2sym gensym apply map substitute force expectError := = & * . -> hashidx arrayidx defined? typelist _ls type? undef eval read unquote unquote-splicing array list hash raw
 append appendslice concat cons first rest second len keys str json unjson msgpack unmsgpack flatten split makeArray sort not + - / ** mod < == bitAnd sll chomp trim nsplit regexpCompile regexpFind regexpMatch mapfn callgo _method methodls fieldls hpair exists? togo fromgo import include a l h s m st pk f'''.split()
SHAPES = '''() 1 -1 2.5 "s" 'c' %s [] [1_2] [a_b] [a_1] [[a_1]_2] l (list_1_2) (quote_(a_b)) (quote_a) (quote_0) h {} {a:1} (hash_a:1) (fn_[x]_x) f nil true k: a:int64 [a:int64] (a_b) {a} {a=1} a h.k .k (raw_"x") ^(a_~b) ~a ~@l ~@a int64 ([]string) (*_int64)
 + = & #x [&_r] [#x] [a_&] [&] 9223372036854775807 1ULL (1_\\_2) (a_\\_b) [x_=_1;_x<2;_x++] (makeChan) m (m_1) St st pk pk.A "%d" "%v" _ break (break) (continue) (return_1) $ "" (quote_()) (def_a) (&_a) (*_a) (:_a) h[k] a[0] a[9] {a[0]} {h.k=3}
 {if_a_{b}} {for_i:=range_a_{b}} [[[]]] nil: 1: , ; := (,) [,] {,} cyc hc lc deep pc cyc_cyc hc_hc'''.replace('\n', ' ').split()
SHAPES = [s.replace('_', ' ') if s != '_' else s for s in SHAPES]
# legal forms; the parts between | | are replaced one at a time, or several
TEMPLATES = '''{for |i| = range |[1 2]| { |i| }}
{for |k|, |v| = range |h| { |k| }}
{for |k|, |v| := range |h| { |break| }}
{for |k = 0|; |k < 2|; |k++| { |k| }}
{for |i| |=| |0|; |i| |<| |2|; |i| |++| { |i| }}
{for |false| { |1| }}
{for { |break| }}
{|q:| for |k := 0|; |k < 2|; |k++| { |break| |q:| }}
{if |a| { |1| } else if |b| { |2| } else { |3| }}
{if |a| |==| |1| { |1| } |else| { |3| }}
{|x| = |1|}
{|x|, |y| = |1|, |2|}
{|x| := |1|; |y| := |2|; |x| + |y|}
{|a|[|0|] = |1|}
{|h|.|k| = |1|}
{|a|[|0|:|1|]}
{|a|[|0|]}
{|x| |+=| |1|}
{|x| |+| |y| |*| |z|}
{|x|++}
{not |a| and |b| or |c|}
{|f|(|1|)}
{*|x| = |1|}
{&|x|}
{func |g| [|a:int64|] [|r:int64|] { |return| |1| }}
{return |1|}
{var |q| |int64|}
{struct |Q| { |a| |int64| }}
{package |"p"| { |A| := |1| }}
{-|x|}
{(|x| + |1|) * |y|}
{|x| -> |y|}
{|x|.|y|.|z|}
(let [|x| |1|] |x|)
(letseq [|x| |1| |y| |2|] |x|)
(def |x| |1|)
(set |x| |1|)
(mdef |x| |y| |(list 1 2)|)
(mdef |x| |y| |z| |[1 2]|)
(defn |g| [|x| |& r|] |x|)
(defn |g| [|#x| |y|] |x|)
((fn [|x| |y|] |x|) |1| |2|)
((fn [|x| & |r|] |r|) |1| |2|)
((fn [|#x|] (force |x|)) |1|)
((fn [|#x|] (substitute |x|)) |(a b)|)
((fn [] |1|) |2|)
(func |g| [|x:int64|] [|r:int64|] |(return x)|)
(for [|(def i 0)| |(< i 2)| |(set i (+ i 1))|] |i|)
(for |q:| [|(def i 0)| |(< i 2)| |(set i (+ i 1))|] |(break q:)| |i|)
(range |k| |v| |h| |k|)
(range |k| |a| |k|)
(cond |a| |1| |2|)
(and |1| |2|)
(or |1| |2|)
(assert |(== 1 1)|)
(defmac |w| [|x| & |y|] |^(list ~x ~@y)|)
(begin (defmac w [|x|] ^(|list| ~|x| ~@|x|)) (w |1|))
^(|a| ~|a| ~@|l| [|b| ~@|l|] {c: ~|a|} \\ |d|)
(macexpand |(m (1 2))|)
(struct |Q| [(field |x|: |int64| |e:0|) (field |y|: |string|)])
(|St| |q|:|1|)
(interface |I| [|(func M [a:int64] [b:string])|])
(method |[p: (* St)]| |M| [|a:int64|] [|b:string|] |1|)
(var |x| |int64|)
(package |"p"| |{ A := 1 }|)
(newScope |a| |b|)
(return |1|)
(quote |a|)
(eval (quote |(+ 1 2)|))
(apply |f| [|1|])
(map |f| [|1| |2|])
(= |x| |1|)
(= [|x| |y|] [|1| |2|])
(:= |x| |1|)
(& |a|)
(* |p|)
(derefSet (& |x|) |1|)
(. |h| |k|)
(hget |h| |k:| |1|)
(hset |h| |k:| |1|)
(aget |a| |0| |1|)
(aset |a| |0| |1|)
(slice |a| |0| |1|)
(hash |k|:|1| |j|:|2|)
(list |1| |2|)
(expectError |"x"| |(a b)|)
(infix [|a| + |1|])
(infixExpand |[a + 1]|)
(sort |<| |[2 1]|)
(defmap |mm|)
(comma |1|)'''.split('\n')
INFIX = '+ - * / ** = += ++ -- == < and not if else for { } ( ) range := , ; . mod -> return break func var struct package import [ ] ! & != <= :'.split()
PRELUDE = ('(def a [1 2]) (def h (hash k:1)) (defn f [x] x) (def l (list 1 2)) (def s "ab") (defmac m [x] ^(list ~x ~@x)) (struct St [(field q: int64)]) (def st (St q:1)) (def pk (package "pk" {A:=1})) '
           '(def cyc [1 2]) (aset cyc 0 cyc) (def hc (hash k:1)) (hset hc b: hc) (def lc (list 1 cyc)) (def pc (& hc)) (def deep nil) (for [(def i 0) (< i 12000) (set i (+ i 1))] (set deep (list deep))) ')
APIS = ['', 'loadrun', 'file', 'parse', 'exprs', 'evalfun', 'infixwrap']
# ends or replaces the process, blocks on purpose, or takes what memory it is told to
BANNED = re.compile(r'exit|quit|\bsys|system|send|<!|timeit|makeArray\s+\d{5}|makeChan\s+\d{5}|save|writef|slurpf|sleep|stop\b|sll|\*\*')

def deep_texts(thorough):
    """text that nests or repeats a great deal; all is bounded"""
    N, M, L = 3000000, 300000, 60000
    D = {'paren': '(' * N, 'parenb': '(' * N + ')' * N, 'sq': '[' * N + ']' * N, 'curly': '{' * N + '}' * N, 'quote': '%' * N + 'a', 'tilde': '^' * N + 'a', 'unq': '~' * N + 'a', 'splice': '~@' * N + 'a', 'mixed': '([{' * (N // 3) + '}])' * (N // 3),
         'nestquote': '(quote ' + '(a ' * N + ')' * N + ')', 'plusnest': '(+ 1 ' * N + '1' + ')' * N, 'infixparen': '{' + '(' * N + '1' + ')' * N + '}', 'idxnest': '{' + 'a[' * N + '0' + ']' * N + '}', 'colon': '{a:' * N + '1' + '}' * N,
         'fnnest': '(fn [] ' * N + '1' + ')' * N, 'letnest': '(let [a 1] ' * N + 'a' + ')' * N, 'andnest': '(and ' * N + '1' + ')' * N, 'condnest': '(cond true ' * N + '1' + ' 1)' * N, 'backslash': '(a \\ ' * N + 'b' + ')' * N, 'ifnest': '{' + 'if true { ' * N + '1' + ' }' * N + '}',
         'qq': '^(' * N + 'a' + ')' * N, 'fnq': '(quote (fn ' * N, 'comment': '/*' * N, 'str': '"' + 'a' * N, 'raw': '`' + 'a' * N, 'num': '1' * N, 'sym': 'a' * N, 'dots': 'a' + '.a' * M, 'stars': '* ' * M + 'int64',
         'longlist': '(quote (' + 'a ' * M + '))', 'longarr': '[' + '1 ' * M + ']', 'longbegin': '(begin ' + '1 ' * M + ')', 'longhash': '(hash ' + 'a:1 ' * M + ')', 'longargs': '(list ' + '1 ' * M + ')',
         'infixneg': '{' + '- ' * N + '1}', 'infixsum': '{1' + ' + 1' * M + '}', 'infixpow': '{1' + ' ** 1' * N + '}', 'infixnot': '{' + 'not ' * N + '1}', 'infixassign': '{' + 'a = ' * M + '1}', 'idx': '{a' + '[0]' * M + '}', 'elseif': '{if false {1}' + ' else if false {1}' * L + '}',
         'semis': '{' + ';' * M + '}', 'commas': '[' + ',' * M + ']', 'letmany': '(let [' + 'a 1 ' * L + '] a)', 'params': '(fn [' + ' '.join('a%d' % k for k in range(L)) + '] 1)', 'lines': '(\n' * N, 'quotes': "(quote " * M}
    R = {'rec': '(defn f [n] (+ 1 (f (+ n 1)))) (f 0)', 'mutual': '(defn f [n] (+ 1 (g n))) (defn g [n] (+ 1 (f n))) (f 0)', 'recmap': '(defn f [n] (map f [1])) (f 0)', 'recapply': '(defn f [n] (apply f [1])) (f 0)', 'reclazy2': '(defn f [#x] (+ 1 (force x))) (def y 1) (defn g [#x] (f (g (force x)))) (g 1)',
         'evalrec': '(defn f [] (+ 1 (eval (quote (f))))) (f)', 'macrec': '(defmac m [] ^(m)) (m)', 'macexp': '(defmac m [] ^(m)) (macexpand (m))', 'argrec': '(defn f [n] (f (f n))) (f 0)', 'letrec': '(defn f [] (let [a (f)] a)) (f)', 'pkgrec': '(defn f [] (package "p" { A := (f) })) (f)', 'timeitrec': '(defn f [] (timeit f)) (f)',
         'sortrec': '(defn f [a b] (sort f [2 1])) (sort f [2 1])', 'readrec': '(defn f [] (+ 1 (eval (read "(f)")))) (f)', 'quasirec': '(defn f [] ^(a ~(f))) (f)', 'hashrec': '(defn f [] (hash a:(f))) (f)', 'arrrec': '(defn f [] [(f)]) (f)', 'xerr': '(defn f [] (expectError "a" (f))) (f)', 'condrec': '(defn f [] (cond (f) 1 2)) (f)', 'forrec': '(defn f [] (for [(def i (f)) (< i 1) (set i 1)] 1)) (f)', 'infixrec': '(defn f [] {1 + (f)}) (f)', 'defrec': '(defn f [] (def a (f))) (f)', 'letseqrec': '(defn f [] (letseq [a (f)] a)) (f)', 'assertrec': '(defn f [] (assert (f))) (f)',
         'macro': '(defmac m [n] (cond (== n 0) 0 ^(+ 1 (m ~(- n 1))))) (m 3000)', 'lazychain': '(def a 1) (defn mk [#x] (fn [] (force x))) (for [(def i 0) (< i 300000) (set i (+ i 1))] (set a (let [b a] (mk b)))) a', 'scopechain': '(def f (fn [] 1)) (for [(def i 0) (< i 300000) (set i (+ i 1))] (set f (let [g f] (fn [] (+ 1 (g)))))) (f)', 'makearr': '(makeArray 100000000000)', 'makechan': '(makeChan 100000000000)', 'makeneg': '(makeArray -1)', 'makechanneg': '(makeChan -1)'}
    deepv = '(def a nil) (def b nil) (for [(def i 0) (< i %d) (set i (+ i 1))] (set a (%s a)) (set b (%s b))) '
    V = {}
    for k, w in (('list', 'list'), ('array', 'array'), ('hash', 'hash k:')):
        for u in (['a', '(== a b)', '(flatten a)', '(str a)', '(json a)', '(eval a)', '(msgpack a)'] if thorough else ['(list (str a) (== a b) (flatten a))', '(eval a)', '(list a (json a))']):
            V[k + u] = deepv % (1500000 if thorough or k == 'list' else 400000, w, w) + u
    if thorough:
        V['longv'] = '(def a nil) (for [(def i 0) (< i 3000000) (set i (+ i 1))] (set a (cons i a))) (list (len a) (map (fn [x] x) a))'
        V['concatl'] = '(def a nil) (for [(def i 0) (< i 3000000) (set i (+ i 1))] (set a (cons i a))) (concat a a)'
    else:
        V['longv'] = '(def a nil) (for [(def i 0) (< i 700000) (set i (+ i 1))] (set a (cons i a))) (list (len a) (map (fn [x] x) a) (concat a a) (== a a))'
    W = {}
    cyc = {'arr': '(def a [1 2]) (aset a 0 a) (def b [1 2]) (aset b 0 b)', 'hash': '(def a (hash k:1)) (hset a b: a) (def b (hash k:1)) (hset b b: b)', 'arrlist': '(def a [1]) (aset a 0 (list a)) (def b [1]) (aset b 0 (list b))', 'ptr': '(def a (hash k:1)) (hset a b: (& a)) (def b (& a))', 'two': '(def a [1]) (def b (hash k: a)) (aset a 0 b)', 'rec': '(def a (snoopy cry:"x")) (hset a friends: [a]) (def b a)', 'closure': '(def a [1]) (aset a 0 (fn [] a)) (def b a)', 'pkg': '(def a [1]) (def b (package "b" { A := a })) (aset a 0 b)'}
    for k, p in cyc.items():
        for u in ['a', '(str a)', '(== a b)', '(== a a)', '(println a)', '(sprintf "%v" a)', '(json a)', '(json2 a)', '(msgpack a)', '(gob a)', '(flatten a)', '(eval a)', '(eval (list (quote quote) a))', '(togo a)', '(+ a 1)', '(a 1)', '(hash a 1)', '(type? a)', '(expectError "u" (+ 1 a))', '(assert (== 1 a))', '(map (fn [x] x) a)', '(append a a)', '(concat a a)', '(_closdump (fn [] a))', '^(x ~a ~@a)', '(sort a)', '(apply list a)', '(keys a)', '(for [(range k v a)] v)', '(dump)', '(.dump)', '(let [c a] (def d c) d)', '(fn [x] x)', '((fn [#x] (force x)) a)', '(defmac q [] a) (q)', '(defmac q [] ^(list ~a)) (q)', '(throw a)', '(cons a a)', '(slice a 0 1)', '(hget a b:)', '(isnan a)', '(< a b)', '(var z) (set z a) z', '(def z a) z', '(raw a)', '(str2sym a)', '(source a)', '(read a)', '(join a)']:
            W[k + u] = p + ' ' + u
    return D, R, V, W

def mutate(rng, t):
    b = bytearray(t.encode('utf8', 'surrogateescape'))
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        if not b: break
        k, m = rng.randrange(len(b)), rng.random()
        if m < .25: del b[k:k + rng.choice([1, 1, 2, 5, 20])]
        elif m < .45: b[k:k] = rng.choice(TOKENS).encode()
        elif m < .6: b[k] = rng.choice(b'()[]{}"\'`%^~@&*.:;,=#$\\ \n/!-+0') if rng.random() < .8 else rng.randrange(256)
        elif m < .75:
            j = rng.randrange(len(b)); n = rng.randint(1, 30); b[k:k] = b[j:j + n]
        elif m < .9:   # swap or drop a token
            ws = [x.span() for x in re.finditer(rb'[^\s()\[\]{}]+|[()\[\]{}]', bytes(b))]
            if ws:
                s, e = rng.choice(ws); b[s:e] = b'' if rng.random() < .4 else rng.choice(SHAPES).encode()
        else: b = b[:k]
    return bytes(b).decode('utf8', 'replace')

def corpus():
    out = []
    for l in open(os.path.join(C.VERIF, 'corpus', 'programs.ndjson')):
        out.append(''.join(json.loads(l)['forms']))
    for f in sorted(glob.glob(os.path.join(C.REPO, 'tests', '*.zy'))):
        t = open(f, errors='replace').read()
        out.append(t)
        out += [x for x in re.split(r'\n\s*\n', t) if x.strip()]
    return [t for t in out if not BANNED.search(t) and len(t) < 20000]

def bad_run(r):
    """where the recorded events leave the protocol (TLC decides; this picks what to run again)"""
    return len(r) != 4 or r[1] not in ('value', 'error', 'budget') or r[3] not in ('value', 'error', 'budget')

def run(rep):
    rng = random.Random(C.SEED * 7919 + 1)
    thorough = C.TIER == 'thorough'
    cfg = 'SPECIFICATION Spec\nINVARIANT Contract\nPROPERTY Returns\n'
    r0 = C.tlc('MCHost', cfg, env={'ZV_G': 'none', 'ZV_S': 'none'}, heap='2g')
    if r0.violated or 'PROPERTY' in r0.out and 'violated' in r0.out: raise C.CheckError('the model breaks the contract\n' + r0.out[-2000:])
    stages, guards = ['lex', 'parse', 'expand', 'compile', 'run', 'show'], ['fault', 'nesting', 'spinning']
    todo = [(g, s) for g in guards for s in stages]
    def variant(gs):
        return C.tlc('MCHost', 'SPECIFICATION Spec\nINVARIANT Contract\n', env={'ZV_G': gs[0], 'ZV_S': gs[1]}, heap='1g', workers=1).violated
    with ThreadPoolExecutor(6) as ex:
        for gs, v in zip(todo, ex.map(variant, todo)):
            if not v: raise C.CheckError('without the guard %s/%s the contract holds' % gs)
    r1 = C.tlc('HostGen', 'SPECIFICATION Spec\nINVARIANT Show\nCONSTANTS\n NTokens = %d\n MaxLen = 2\n NHeads = %d\n NShapes = %d\n MaxArgs = 1\n NTemplates = %d\n NParts = 9\n' % (len(TOKENS), len(HEADS), len(SHAPES), len(TEMPLATES)), heap='3g')
    seqs = [(k, tuple(int(x) for x in a.replace(' ', '').split(',') if x)) for k, a in re.findall(r'<<"TEXT", "(\w+)", <<([\d, ]*)>>>>', r1.out)]
    if len(seqs) != r1.distinct: raise C.CheckError('lost texts: %d of %d' % (len(seqs), r1.distinct))
    seqs.sort()
    d = tempfile.mkdtemp(prefix='zvhost', dir='/tmp')
    os.chmod(d, 0o777)
    os.environ['ZV_CWD'] = d
    try:
        explore(rep, rng, thorough, d, seqs, r0.distinct + r1.distinct)
    finally:
        del os.environ['ZV_CWD']
        shutil.rmtree(d, ignore_errors=True)

def explore(rep, rng, thorough, d, seqs, nstates):
    drv0, zygo0 = C.build_driver(), C.build_zygo()
    drv, zygo = os.path.join(d, 'zvdriver'), os.path.join(d, 'zygo')
    for a, b in ((drv0, drv), (zygo0, zygo)):
        shutil.copy(a, b); os.chmod(b, 0o755)
    scale = 8 if thorough else 1
    t0 = C.run_cases(drv, [{'op': 'host', 'texts': ['(+ 1 2)']}], 20000, user=NOBODY)[0]
    if t0.get('runs') != [['call', 'value', 'call', 'value']]: raise C.CheckError('the driver does not run: %s' % t0)
    tm = lambda what: os.environ.get('ZV_VERBOSE') and print('%.1f' % (time.time() - C.T0), what)
    # ---- token strings
    toks = []
    for k, s in seqs:
        if k == 'tokens':
            toks += [' '.join(TOKENS[x - 1] for x in s)] + ([''.join(TOKENS[x - 1] for x in s)] if len(s) > 1 else [])
    for _ in range(9000 * scale):
        toks.append((' ' if rng.random() < .6 else '').join(rng.choice(TOKENS) for _ in range(rng.randint(3, 9))))
    for _ in range(1500 * scale):
        toks.append(bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127)]) for _ in range(rng.randint(1, 40))).decode('latin1'))
    for _ in range(3000 * scale):
        o = rng.choice(['(%s)', '[%s]', '{%s}', '(a %s)', '(quote %s)', '%%%s', '^%s', '{a = %s}', '(hash %s)', '(fn [%s] 1)'])
        toks.append(o.replace('%s', ' '.join(rng.choice(TOKENS) for _ in range(rng.randint(1, 4)))).replace('%%', '%'))
    # ---- forms, whole histories in one interpreter
    forms = []
    for k, s in seqs:
        if k == 'form': forms.append('(%s)' % ' '.join([HEADS[s[0] - 1]] + [SHAPES[x - 1] for x in s[1:]]))
        elif k == 'part' and len(s) == 3:
            ps = TEMPLATES[s[0] - 1].split('|')
            if 2 * s[1] - 1 < len(ps): ps[2 * s[1] - 1] = SHAPES[s[2] - 1]; forms.append(''.join(ps))
    for _ in range(9000 * scale):
        ps = rng.choice(TEMPLATES).split('|')
        for j in range(1, len(ps), 2):
            m = rng.random()
            if m < .25: ps[j] = rng.choice(SHAPES)
            elif m < .32: ps[j] = ''
            elif m < .38: ps[j] += ' ' + rng.choice(SHAPES)
            elif m < .42: ps[j] = rng.choice(TEMPLATES).replace('|', '')
            elif m < .46: ps[j] = rng.choice(INFIX)
        forms.append(''.join(ps))
    for w in c08.candidates():
        if re.match(r'^[^0-9"\'(){}\[\]`;%^~,]+$', w) and w not in HEADS:
            forms += ['(%s %s)' % (w, ' '.join(rng.choice(SHAPES) for _ in range(n))) for n in (0, 1, 1, 1, 2, 2, 2, 3, 3, 4)]
    for w in HEADS:
        forms += ['(%s %s)' % (w, ' '.join(rng.choice(SHAPES) for _ in range(rng.choice([2, 2, 3, 3, 3, 4, 5])))) for _ in range(150 * scale)]
    for _ in range(6000 * scale):
        a = '(%s %s)' % (rng.choice(HEADS), ' '.join(rng.choice(SHAPES) for _ in range(rng.choice([0, 1, 2, 3]))))
        for _ in range(rng.choice([1, 1, 2])):
            o = [rng.choice(SHAPES) for _ in range(rng.choice([0, 1, 2, 3]))]; o.insert(rng.randint(0, len(o)), a)
            a = rng.choice(['(%s %s)' % (rng.choice(HEADS), ' '.join(o)), '{%s}' % ' '.join(o), '[%s]' % ' '.join(o), '^%s' % a, '(quote %s)' % a, '(macexpand %s)' % a, '(eval (quote %s))' % a])
        forms.append(a)
    for _ in range(10000 * scale):
        forms.append('{%s}' % ' '.join(rng.choice(rng.choice([SHAPES, INFIX])) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 8]))))
    forms = [t for t in forms if not BANNED.search(t)]
    rng.shuffle(forms)
    # ---- programs
    base = corpus()
    progs = [t for t in base] + [mutate(rng, rng.choice(base)) for _ in range(6000 * scale)]
    toks, progs = ([t for t in T if not BANNED.search(t)] for T in (toks, progs))
    cases = []
    def add(texts, n, **kw):
        for k in range(0, len(texts), n): cases.append(dict({'op': 'host', 'texts': texts[k:k + n], 'budget': 20000}, **kw))
    add(toks, 60)
    for api in APIS[1:]:
        sel = [t for t in toks if rng.random() < (.6 if thorough else .2)]
        add(sel, 60, api=api)
    add(toks[::9], 60, mode='sandbox', nostd=True)
    for k in range(0, len(forms), 60):
        cases.append({'op': 'host', 'texts': [PRELUDE] + forms[k:k + 60], 'shared': True, 'budget': 600000, 'api': rng.choice(['', '', 'loadrun', 'exprs', 'infixwrap'])})
    for k in range(0, len(progs), 25):
        cases.append({'op': 'host', 'texts': progs[k:k + 25], 'budget': 200000, 'api': rng.choice(APIS)})
    rng.shuffle(cases)
    res = C.run_cases(drv, cases, 25000, user=NOBODY, max_bad=40)
    rows, ref, bad, skipped = [], [], [], 0
    for c, r in zip(cases, res):
        if 'runs' in r: rows.append({'runs': r['runs']}); ref.append(c)
        elif 'skipped' in r: skipped += 1
        else:
            tm('batch %s %s' % (str(r)[:400], c.get('api')))
            if os.environ.get('ZV_DUMP'): open(os.environ['ZV_DUMP'], 'a').write(json.dumps(c) + '\n')
            n0 = 1 if c.get('shared') else 0
            bad += [(c, k, None) for k in range(n0, len(c['texts']))]
    tm('nesting')
    # ---- nesting, recursion, values that contain themselves: each its own process
    D, R, V, W = deep_texts(thorough)
    dcases = [({'op': 'host', 'texts': [t], 'budget': 100000000}, k) for G in (D, R) for k, t in G.items()] + [({'op': 'host', 'texts': [t], 'budget': 500000000}, k) for k, t in V.items()]
    rng.shuffle(dcases)
    def solo(ck, tmo=240000):
        return C.run_cases(drv, [ck[0]], tmo, nproc=1, user=NOBODY)[0]
    with ThreadPoolExecutor(5) as ex:
        dres = list(ex.map(solo, dcases))
    wl = list(W.items())
    wcases = [{'op': 'host', 'texts': [t for _, t in wl[k:k + 12]], 'budget': 3000000, 'api': rng.choice(['', 'loadrun', 'exprs'])} for k in range(0, len(wl), 12)]
    wres = C.run_cases(drv, wcases, 60000, user=NOBODY, max_bad=40)
    for (c, k), r in zip(dcases, dres):
        if 'runs' in r: rows.append({'runs': r['runs']}); ref.append(c)
        else:
            tm('deep %s %s' % (k, str(r)[:400])); bad.append((c, 0, k))
    for c, r in zip(wcases, wres):
        if 'runs' in r: rows.append({'runs': r['runs']}); ref.append(c)
        elif 'skipped' not in r: bad += [(c, k, None) for k in range(len(c['texts']))]
    tm('TLC runs')
    # ---- TLC runs every history on the protocol
    rv = C.tlc('HostTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': C.write_ndjson('host.ndjson', rows)}, heap='8g')
    for a, b in re.findall(r'<<"BAD", (\d+), (\d+)>>', rv.out): bad.append((ref[int(a) - 1], int(b) - 1, None))
    tm(len(bad))
    tm('each again')
    # ---- each again, alone and in a new process; if that is quiet, after the texts that went before it
    def alone(c, k):
        t = c['texts']
        return dict(c, texts=[t[0], t[k]] if c.get('shared') and k > 0 else [t[k]])
    def history(c, k): return dict(c, texts=c['texts'][:k + 1])
    def judge(r):
        if 'runs' not in r: return 'does not come back' if 'timeout' in r else 'ends the process: ' + r.get('stderr', '')[:500]
        rv2 = [e for e in r['runs'] if bad_run(e)]
        return 'events %s: %s' % (rv2[0], r['notes'][r['runs'].index(rv2[0])]) if rv2 else None
    def oom(r): return 'crash' in r and re.search(r'out of memory|cannot allocate memory', r.get('stderr', '')) is not None
    seen, todo = set(), []
    step = max(1, len(bad) // 300) | 1
    for c, k, name in (bad[::step] + bad)[:700]:
        key = json.dumps([c.get('api', ''), c['texts'][k][:500]])
        if key not in seen: seen.add(key); todo.append((c, k, name))
    def again(x):
        c, k, name = x
        if len(rep.violations) > 20: return None
        t1 = time.time()
        for v in (alone, history) if c.get('shared') else (alone,):
            case = v(c, k)
            r = C.run_cases(drv, [case], 300000 if name else 60000, nproc=1, user=NOBODY)[0]
            why = judge(r)
            if why and not oom(r): return case, why, r
            if time.time() - t1 > 5: tm('slow %.1f %s' % (time.time() - t1, case['texts'][-1][:200]))
        return None
    with ThreadPoolExecutor(5) as ex:
        for (c, k, name), got in zip(todo, ex.map(again, todo)):
            if got:
                case, why, r = got
                t = case['texts'][-1]
                key = (name and 'deep:' + name) or ('%s:%s' % (case.get('api', ''), t[:300]))
                rep.violation(key, why, {'case': case if len(t) < 100000 else dict(case, texts=[t[:2000] + '...']), 'result': {k2: str(v)[:1500] for k2, v in r.items()}})
    tm('the command')
    # ---- the command
    ncmd = command(rep, rng, thorough, drv, zygo, d, toks, forms, D, R)
    kinds = {}
    for row in rows:
        for e in row['runs']: kinds[e[1] if len(e) > 1 else 'none'] = kinds.get(e[1] if len(e) > 1 else 'none', 0) + 1
    rep.cov.update(model_states=nstates, guards_shown_needed=18, token_texts=len(toks), forms=len(forms), programs=len(progs), deep=len(dcases), self_containing=len(wl), histories=len(rows), calls=sum(len(r['runs']) for r in rows), came_back=kinds, trace_states=rv.distinct, command_lines=ncmd, cases_skipped=skipped,
                   rule='token strings: all to length 2 over %d tokens (joined and apart), random to length 9; forms: every head x one shape of %d, every part of 90 legal templates replaced, random to 5 arguments and two levels; mutated corpus programs; 7 entry points' % (len(TOKENS), len(SHAPES)))
    for t in rng.sample(toks, 2) + rng.sample(forms, 3): rep.sample(t[:200])
    rep.assumptions += ['exhaustion of memory by a program whose evaluation is not bounded is out of scope', 'channel operations that block on purpose are not tried', 'texts with exponentially many parts when shown (sharing, not nesting) are not tried', 'not returning is judged by 60 s (300 s for the large texts) alone on the machine']

def command(rep, rng, thorough, drv, zygo, d, toks, forms, D, R):
    """lines typed at the tool's prompt, -c texts and script files: the process lives on, or ends by itself"""
    lines = [t.replace('\n', ' ').replace('\x00', ' ') for t in rng.sample(toks, 1500 if thorough else 400) + rng.sample(forms, 2000 if thorough else 500)]
    lines += ['.', '.ls', '.dump', '.gls', '.verb', '.debug', '.undebug', '.dump car', '.cd', '.ls x', '.dump (', '.verb 1', '.gls y', '.cd \x01', '(', ')', '', ' ', '{', '"', '`', "'", '.a', '. a', '..', '.q1', 'a b c', '.(', '.[', '.%', 'def', '(def', '.dump a b', '.dump .', '.ls .', '.dump h', '.dump f']
    lines += [v for k, v in R.items() if k in ('rec', 'macrec', 'letrec', 'arrrec')]
    lines = [l for l in lines if c08.closed(l) and not BANNED.search(l) and not re.search(r'exit|quit|/\*|`|\\$|import|include|source|\.cd|for|range|force', l) and l.count('[') == l.count(']') and l.count('{') == l.count('}')]
    rng.shuffle(lines)
    env = {'PATH': '/usr/bin:/bin', 'HOME': d, 'TMPDIR': d, 'LANG': 'C.UTF-8', 'GOMAXPROCS': '2'}
    def sh(args, stdin='', tmo=30):
        p = subprocess.Popen([zygo] + args, env=env, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, user=NOBODY, group=NOBODY, extra_groups=[], preexec_fn=C._limit)
        try:
            o, _ = p.communicate(stdin.encode('utf8', 'replace'), timeout=tmo)
            return p.returncode, o.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate()
            return None, ''
    dead = re.compile(r'^goroutine \d+ \[|^fatal error: |^panic: |\[signal SIG', re.M)
    oom = re.compile(r'out of memory|cannot allocate memory')
    chunks = [lines[k:k + 30] for k in range(0, len(lines), 30)]
    pre = PRELUDE + '\n'
    def repl(ch): return sh(['-quiet', '-no-liner'], pre + ''.join('%s\n(println "zvalive%d")\n' % (l, n) for n, l in enumerate(ch)), 30)
    suspects = []
    with ThreadPoolExecutor(C.NCPU) as ex:
        for ch, (rc, o) in zip(chunks, ex.map(repl, chunks)):
            if rc is None or rc < 0 or dead.search(o):
                al = max([int(x) for x in re.findall(r'zvalive(\d+)', o)], default=-1)
                suspects += [(['-quiet', '-no-liner'], l) for l in ch[max(0, al):]] if rc is not None else [(['-quiet', '-no-liner'], l) for l in ch]
    one = [(['-quiet', '-c', l], None) for l in rng.sample(lines, 300 if thorough else 120)]
    fs = []
    for n, t in enumerate(rng.sample(toks, 100) + rng.sample(forms, 100) + ['', ' ', '\n', '#!', '#!/bin/zygo\n1', '\x00', '"', '(', list(D.values())[0]]):
        p = os.path.join(d, 's%d.zy' % n)
        open(p, 'w', newline='').write(t); os.chmod(p, 0o644)
        if not BANNED.search(t): fs.append((['-quiet', '-exitonfail', p], None)); 
    def direct(x): return sh(x[0])
    n = len(lines) + len(one) + len(fs)
    with ThreadPoolExecutor(C.NCPU) as ex:
        for x, (rc, o) in zip(one + fs, ex.map(direct, one + fs)):
            if rc is None or rc < 0 or dead.search(o): suspects.append(x)
    if os.environ.get('ZV_VERBOSE'): print('%.1f' % (time.time() - C.T0), len(suspects), 'suspects', [(a[-1][:150], l) for a, l in suspects][:60])
    sus = suspects[:120]
    def again(x): return sh(x[0], '' if x[1] is None else pre + x[1] + '\n(println "zvalive")\n', 60)
    with ThreadPoolExecutor(C.NCPU) as ex: confirmed = list(ex.map(again, sus))
    for (args, l), (rc, o) in zip(sus, confirmed):
        if len(rep.violations) > 20: break
        if oom.search(o): continue
        if rc is None:
            # a loop without end is no violation: the same text with a limit on its steps
            t = l if l is not None else args[-1] if args[-2] == '-c' else open(args[-1], newline='').read()
            r = C.run_cases(drv, [{'op': 'host', 'texts': [PRELUDE, t], 'shared': l is not None, 'budget': 600000, 'api': 'infixwrap' if l is not None else ''}], 60000, nproc=1, user=NOBODY)[0]
            if 'runs' in r and any('budget' in e for e in r['runs']): continue
        if rc is None or rc < 0 or dead.search(o):
            what = l if l is not None else ' '.join(args) if args[-2] == '-c' else open(args[-1], newline='').read()
            rep.violation('command:' + what[:300], 'does not come back' if rc is None else 'ends the tool with status %s: %s' % (rc, o[-600:]), {'args': args, 'line': l, 'text': what[:3000]})
    return n
