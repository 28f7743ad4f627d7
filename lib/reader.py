"""Shared by the reader checks: values as the specification writes them, running
the real parser, validating its answers with TLC."""
import struct, common as C

def cps(s):
    return [ord(x) for x in s]

def limbs(n):
    out = []
    while n:
        out.append(n % 4096); n //= 4096
    return out

def flt(hexbits):
    if hexbits == 'nan':
        return ['float', 'nan', 0, [], 0]
    b = int(hexbits, 16)
    s, ex, fr = b >> 63, (b >> 52) & 2047, b & ((1 << 52) - 1)
    if ex == 2047:
        return ['float', 'inf' if fr == 0 else 'nan', s if fr == 0 else 0, [], 0]
    m, e = (fr, -1074) if ex == 0 else (fr + (1 << 52), ex - 1075)
    if m == 0:
        return ['float', 'fin', s, [], 0]
    while m % 2 == 0:
        m //= 2; e += 1
    return ['float', 'fin', s, limbs(m), e]

def val(v):
    """a value recorded by the driver, as Reader.tla writes it"""
    k = v['k']
    if k == 'int':
        n = int(v['v']); return ['int', 1 if n < 0 else 0, limbs(abs(n))]
    if k == 'u64':
        return ['u64', limbs(int(v['v']))]
    if k == 'float':
        return flt(v['v'])
    if k == 'bool':
        return ['bool', 1 if v['v'] else 0]
    if k == 'char':
        return ['char', v['v']]
    if k == 'str':
        if 'h' in v:
            b = bytes.fromhex(v['h'])
            return ['str', [ord(x) if not 0xdc80 <= ord(x) <= 0xdcff else 1114112 + ord(x) - 0xdc00 for x in b.decode('utf8', 'surrogateescape')]]
        return ['str', cps(v['v'])]
    if k == 'sym':
        return ['sym', cps(v['v'])]
    if k == 'list':
        return ['list', [val(x) for x in v['v']]]
    if k == 'dotted':
        return ['dotted', [val(x) for x in v['v']], val(v['tail'])]
    if k == 'array':
        return ['arr', [val(x) for x in v['v']]]
    if k == 'hash' and not v['v']:
        return ['hash', []]
    if k in ('nil', 'comma', 'semi', 'comment'):
        return [k]
    return ['other', k]

def record(text, replies, upto):
    """replies: driver answers after each of the prefix lengths in upto"""
    q = []
    for n, r in zip(upto, replies):
        a = [n, r['st']]
        if 'xs' in r:
            a.append([val(x) for x in r['xs']])
        q.append(a)
        if r['st'] in ('err', 'panic'):
            break
    return {'t': cps(text), 'q': q}

def check(recs, heap='8g', say=False):
    """records that TLC rejects: index -> (which answer, what the specification says)"""
    import os, re
    w = C.work()
    bad = {}
    stats = [0, 0]
    for i in range(0, len(recs), 60000):
        f = os.path.join(w, f'reader{i}.ndjson')
        C.write_ndjson(f, recs[i:i + 60000])
        r = C.tlc('ReaderTrace', 'SPECIFICATION Spec\nINVARIANT Check\n', env={'ZV_CASES': f, 'ZV_SAY': '1' if say else '0'}, heap=heap, workers=1 if say else C.NCPU)
        os.remove(f)
        stats[0] += r.distinct; stats[1] += r.generated
        for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*"(\w+)"(.*?)>>\s*(?=<<\s*"BAD|$|[A-Z])', r.out, re.S):
            bad[i + int(m.group(1)) - 1] = (int(m.group(2)) - 1, m.group(3), re.sub(r'\s+', ' ', m.group(4)))
    return bad, stats
