"""Choosing values: biased to boundaries, mostly valid, sometimes not. Which is which is for the specification to say."""
import struct
from asn import *

S_MIN, S_MAX, U_MAX = -2 ** 63, 2 ** 63 - 1, 2 ** 64 - 1
SPECIAL_R = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 3.14159, 1e-300, 1e300, float('inf'), float('-inf'), 5e-324, 2.2250738585072014e-308,
             1.7976931348623157e308, 123456789.0, 1 / 3, -2.5e-10, 4503599627370497.5, 2.0 ** 100, 2.0 ** -100, 1024.0, -255.0]


def storage(t):
    iv = irange(t)
    lo = min((x[0] for x in iv), default=0)
    return (0, U_MAX) if lo >= 0 else (S_MIN, S_MAX)


def consts(c):
    """constants occurring in a constraint on numbers"""
    if c['o'] == 'val':
        return [c['v']]
    if c['o'] == 'rng':
        return [x for x in (c['lo'], c['hi']) if x != []]
    r = []
    for f in ('a', 'b'):
        if f in c:
            r += consts(c[f])
    return r


def gint(t, r, ok):
    lo, hi = storage(t)
    iv = [(max(a, lo), min(b, hi)) for a, b in irange(t)]
    iv = [x for x in iv if x[0] <= x[1]]
    if ok and iv:
        a, b = r.choice(iv)
        p = r.random()
        if p < .35:
            return r.choice([a, b])
        if p < .55:
            return min(b, max(a, r.choice([a + 1, b - 1, 0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1])))
        if p < .75:
            return min(b, max(a, (1 << r.randrange(64)) + r.randrange(-1, 2)))
        return r.randint(a, b)
    pool = [x for c in t['con'] for x in map(un9, consts(c))]
    pool = [x + d for x in pool for d in (-1, 0, 1)] + [lo, hi, 0, 1, 2 ** 63 - 1]
    return min(hi, max(lo, r.choice(pool)))


def greal(t, r, ok):
    pool = [undbl(x) for c in t['con'] for x in consts(c)]
    ext = []
    for x in pool:
        b = struct.unpack('>q', struct.pack('>d', x))[0]
        ext += [x] + [struct.unpack('>d', struct.pack('>q', b + d))[0] for d in (-1, 1) if b + d >= 0 or b < 0]
    if t['con'] and r.random() < .6:
        if len(pool) >= 2 and r.random() < .5:
            return r.uniform(min(pool), max(pool))
        return r.choice(ext or SPECIAL_R)
    if r.random() < .5:
        return r.choice(SPECIAL_R)
    if r.random() < .1 and not ok:
        return float('nan')
    x = struct.unpack('>d', r.getrandbits(64).to_bytes(8, 'big'))[0]
    return x if x == x else 7.25


def gsize(t, r, ok):
    lo, hi = srange(t)
    if hi > 200000:
        hi = lo + 20
    if lo == hi:
        return lo
    iv = [(0, hi)]
    for c in t['con']:
        iv = meet(iv, sizeivs(c))
    if ok and iv:
        a, b = r.choice(iv)
        b = min(b, hi)
        if b > 1000:
            k = [a, b, K16 - 1, K16, K16 + 1, 2 * K16, 3 * K16 + 5, 4 * K16, 4 * K16 + 1, 5 * K16, 127, 128, 200]
            return min(b, max(a, r.choice(k) if r.random() < .5 else r.choice([127, 128, 129, 1, 60])))
        return r.choice([a, b]) if r.random() < .4 else r.randint(a, b)
    return max(0, r.choice([0, lo - 1, hi, r.randint(0, hi)]))


def contents(t, n, r):
    p = r.random()
    m = 1 if t['k'] == 'bits' else 255
    if p < .15:
        return [m] * n
    if p < .25:
        return [0] * n
    return [r.randint(0, m) for _ in range(n)]


def gen(t, r, ok=1.0, d=0):
    """ok: probability with which each leaf is chosen inside its constraints"""
    k = t['k']
    good = r.random() < ok
    if k == 'int':
        return gint(t, r, good)
    if k == 'bool':
        return r.random() < .5
    if k == 'null':
        return None
    if k == 'real':
        return greal(t, r, good)
    if k == 'enum':
        return r.randrange(1, len(t['names']) + 1) if good else r.choice([0, 1, len(t['names'])])
    if k in ('oct', 'bits'):
        lo, hi = srange(t)
        return contents(t, gsize(t, r, good), r)
    if k == 'str':
        n = gsize(t, r, good)
        al = letters(t)
        if good or r.random() < .5:
            for c in t['con']:
                if c['o'] in ('val', 'or') and r.random() < .7:
                    q = [x for x in consts(c) if isinstance(x, list)]
                    if q:
                        return list(r.choice(q))
            return [r.choice([al[0], al[-1]]) if r.random() < .2 else r.choice(al) for _ in range(n)]
        s = [r.choice(al) for _ in range(n)]
        if s:
            s[r.randrange(len(s))] = r.choice([1, 32, 64, 65, 90, 91, 97, 122, 126, 127, 48, 57, 58, 47])
        return s
    if k == 'oid':
        a = r.randrange(3)
        return [a, r.randrange(40)] + [r.choice([0, 1, 127, 128, 16383, 16384, 2 ** 31, 2 ** 63, 2 ** 64 - 1, r.getrandbits(r.randrange(1, 65))]) for _ in range(r.choice([0, 1, 3, 6, 18]))]
    if k == 'roid':
        return [r.choice([0, 1, 127, 128, 2 ** 64 - 1, r.getrandbits(r.randrange(1, 65))]) for _ in range(r.choice([1, 2, 5, 20]))]
    if k == 'sof':
        n = gsize(t, r, good)
        if n > 400:
            x = [gen(t['t'], r, 1.0, d + 1) for _ in range(7)]
            return [x[i % 7] for i in range(n)]
        return [gen(t['t'], r, ok, d + 1) for _ in range(n)]
    if k == 'choice':
        if not good and r.random() < .3:
            return (0, None)
        i = r.randrange(1, len(t['alts']) + 1)
        return (i, gen(t['alts'][i - 1], r, ok, d + 1))
    v = []
    for c in t['comps']:
        if c['o'] != 'm' and r.random() < (.4 if d < 2 else .5):
            v.append(None)
        elif c['o'] == 'd' and r.random() < .3:
            v.append(c['pd'])
        else:
            v.append(gen(c['t'], r, ok, d + 1))
    # WITH COMPONENTS: nudge towards satisfying one alternative
    for w in t['con']:
        while w['o'] in ('or', 'and'):
            w = r.choice([w['a'], w['b']])
        if w['o'] == 'wcs' and r.random() < .8:
            for e in w['l']:
                c = t['comps'][e['i'] - 1]
                if e['p'] == 'a':
                    v[e['i'] - 1] = None
                elif e['p'] == 'p' or (v[e['i'] - 1] is not None and e['c']):
                    v[e['i'] - 1] = gen(dict(c['t'], con=c['t']['con'] + e['c']), r, ok, d + 1)
    return v


def small_space(t, cap=300):
    """every value of the type when there are few, else None"""
    import itertools
    k = t['k']
    if k == 'bool':
        return [False, True]
    if k == 'null':
        return [None]
    if k == 'enum':
        return list(range(1, len(t['names']) + 1))
    if k == 'int':
        lo, hi = storage(t)
        iv = sorted(set(irange(t)))
        if sum(min(b, U_MAX) - max(a, S_MIN) + 1 for a, b in iv) > cap:
            return None
        return sorted({x for a, b in iv for x in range(max(a, lo), min(b, hi) + 1)})
    if k == 'oct':
        return None
    if k == 'bits':
        lo, hi = srange(t)
        if hi > 7:
            return None
        return [list(x) for n in range(lo, hi + 1) for x in itertools.product((0, 1), repeat=n)]
    if k == 'seq':
        ls = []
        n = 1
        for c in t['comps']:
            s = small_space(c['t'], cap)
            if s is None:
                return None
            s = s if c['o'] == 'm' else [None] + s
            n *= len(s)
            if n > cap:
                return None
            ls.append(s)
        return [list(x) for x in itertools.product(*ls)]
    if k == 'choice':
        r = []
        for i, a in enumerate(t['alts']):
            s = small_space(a, cap)
            if s is None:
                return None
            r += [(i + 1, x) for x in s]
        return r if len(r) <= cap else None
    if k == 'sof':
        s = small_space(t['t'], 16)
        lo, hi = srange(t)
        if s is None or sum(len(s) ** n for n in range(lo, min(hi, 20) + 1)) > cap or hi > 20:
            return None
        return [list(x) for n in range(lo, hi + 1) for x in itertools.product(s, repeat=n)]
    return None


def near(t, v, r, n):
    """values that differ from v in one place"""
    out = []
    for _ in range(n):
        w = tweak(t, v, r)
        if w is not NOPE:
            out.append(w)
    return out


NOPE = object()


def tweak(t, v, r):
    k = t['k']
    if k == 'int':
        lo, hi = storage(t)
        return r.choice([x for x in (v + 1, v - 1, v ^ 256, v ^ (1 << 32), v ^ (1 << 62)) if lo <= x <= hi])
    if k == 'bool':
        return not v
    if k == 'null':
        return NOPE
    if k == 'real':
        return gen(t, r)
    if k == 'enum':
        return r.randrange(1, len(t['names']) + 1)
    if k in ('oct', 'bits', 'str', 'sof', 'oid', 'roid'):
        lo, hi = srange(t) if k not in ('oid', 'roid') else (2, 20)
        if r.random() < .4 and len(v) > max(lo, 0):
            return v[:-1]
        if not v:
            return NOPE
        i = r.choice([0, len(v) - 1, r.randrange(len(v))])
        w = list(v)
        if k == 'sof':
            w[i] = tweak(t['t'], w[i], r)
            return NOPE if w[i] is NOPE else w
        if k == 'bits':
            w[i] ^= 1
        elif k == 'oct':
            w[i] ^= 1 << r.randrange(8)
        elif k == 'str':
            w[i] = r.choice(letters(t))
        else:
            w[i] ^= 1 << r.choice([0, 5, 33, 63])
        return w
    if k == 'choice':
        if r.random() < .3 or not v[0]:
            return gen(t, r)
        x = tweak(t['alts'][v[0] - 1], v[1], r)
        return NOPE if x is NOPE else (v[0], x)
    if not v:
        return NOPE
    i = r.randrange(len(v))
    c, w = t['comps'][i], list(v)
    if c['o'] != 'm' and r.random() < .4:
        w[i] = gen(c['t'], r) if v[i] is None else None
    elif v[i] is None:
        w[i] = gen(c['t'], r)
    else:
        x = tweak(c['t'], v[i], r)
        if x is NOPE:
            return NOPE
        w[i] = x
    return w


def largest(t, r, d=0):
    """values meant to have the longest encodings"""
    k = t['k']
    if k == 'int':
        lo, hi = storage(t)
        iv = [(max(a, lo), min(b, hi)) for a, b in irange(t) if max(a, lo) <= min(b, hi)]
        return [max(b for a, b in iv), min(a for a, b in iv)] if iv else []
    if k == 'real':
        return [x for x in (-1.7976931348623157e308, -2.2250738585072014e-308, 1 / 3)]
    if k in ('oct', 'bits', 'str'):
        lo, hi = srange(t)
        return [[{'oct': 255, 'bits': 1}.get(k) or letters(t)[-1]] * hi] if hi < 10 ** 6 and (k != 'str' or letters(t) or not hi) else []
    if k == 'oid':
        return [[2, 39] + [U_MAX] * 18]
    if k == 'roid':
        return [[U_MAX] * 20]
    if k == 'sof':
        lo, hi = srange(t)
        x = largest(t['t'], r, d + 1) or [gen(t['t'], r)]
        return [[y] * hi for y in x[:2]]
    if k == 'choice':
        return [(i + 1, x) for i, a in enumerate(t['alts']) for x in (largest(a, r, d + 1) or [gen(a, r)])[:2]]
    if k == 'seq':
        ls = [largest(c['t'], r, d + 1) or [gen(c['t'], r)] for c in t['comps']]
        return [[l[j % len(l)] for l in ls] for j in range(max([1] + [min(len(l), 4) for l in ls]))]
    return [gen(t, r)]


def has(t, ks):
    return t['k'] in ks or ('t' in t and has(t['t'], ks)) or any(has(a, ks) for a in t.get('alts', [])) or any(has(c['t'], ks) for c in t.get('comps', []))
