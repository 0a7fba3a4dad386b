"""Generators of call histories for the run-time library (C and Ada drivers).
Each operation is (script line, event skeleton); see harness/rt.c, spec/RtTrace.tla."""
import random, struct, json

M64 = (1 << 64) - 1


def W(v):
    v &= M64
    return [(v >> (8 * i)) & 255 for i in range(7, -1, -1)]


def hx(v):
    return '%x' % (v & M64)


def hb(b):
    return bytes(b).hex() or '-'


def dword(x):
    return struct.unpack('>Q', struct.pack('>d', x))[0]


class Op:
    __slots__ = ('line', 'ev', 'bits', 'dec')

    def __init__(self, line, ev, bits=0, dec=None):
        self.line, self.ev, self.bits, self.dec = line, ev, bits, dec


def B(r, n):
    """n octets, biased to patterns"""
    m = r.randrange(5)
    if m == 0:
        return [255] * n
    if m == 1:
        return [0] * n
    return [r.randrange(256) for _ in range(n)]


FORCE = None        # a value forced on the integer generators (sweeps)


def uword(r, bits=64):
    """boundary-directed unsigned word of at most `bits` bits"""
    if FORCE is not None:
        v = abs(FORCE)
        return v if v < (1 << bits) else v % (1 << bits)
    k = r.randrange(0, bits + 1)
    m = r.randrange(6)
    if m == 0:
        v = 1 << min(k, bits - 1)
    elif m == 1:
        v = (1 << k) - 1
    elif m == 2:
        v = (1 << min(k, bits - 1)) + r.choice([-1, 0, 1])
    elif m == 3:
        v = r.randrange(0, 300)
    else:
        v = r.getrandbits(k) if k else 0
    return max(0, min(v, (1 << bits) - 1))


def sword(r, bits=64):
    if FORCE is not None:
        v = FORCE
        return v if -(1 << (bits - 1)) <= v < (1 << (bits - 1)) else (v % (1 << bits)) - (1 << (bits - 1))
    v = uword(r, bits - 1)
    return v if r.random() < .5 else -v - (1 if r.random() < .5 and v < (1 << (bits - 1)) - 1 else 0) if v else 0


def bl(v):
    return v.bit_length()


def slen(v):
    return (v if v >= 0 else ~v).bit_length() + 1


def oct_for(bits):
    return max(1, (bits + 7) // 8)


NARROW = {'cint', 'cuint', 'apos', 'aposbe', 'aposle', 'aposvar', 'atwo', 'atwobe', 'atwole', 'atwovar', 'abcd', 'abcdvar', 'abcdnul',
          'auasc', 'asasc', 'auascvar', 'asascvar', 'auascnul', 'asascnul'}


def E(op, line, bits, dec, **ev):
    d = {'k': 'enc', 'op': op}
    d.update(ev)
    return Op('e %s %s' % (op, line), d, bits, dec)


def D(op, line, **ev):
    d = {'k': 'dec', 'op': op}
    d.update(ev)
    if op in NARROW:
        d['w'] = int(line.split()[-1])
    return Op('d %s %s' % (op, line), d)


# ------------------------------------------------------------------ raw bits
def g_bit(r):
    n = r.randrange(2)
    return E('bit', '%d %d' % (n, r.randrange(2)), 1, D('bit', ''), n=n)


def g_byte(r):
    n, neg = r.randrange(256), r.random() < .3
    v = n ^ 255 if neg else n
    return E('byte', '%d %d' % (n, neg), 8, D('byte', ''), n=n, neg=neg)


def g_byte0(r):
    n = r.choice([0, 255, 128, 1, r.randrange(256)])
    return E('byte0', '%d' % n, 8, D('byte0', ''), n=n)


def g_pbyte(r):
    n = r.randrange(1, 8)
    v, neg = r.randrange(1 << n), r.random() < .3
    return E('pbyte', '%d %d %d' % (v, n, neg), n, D('pbyte', '%d' % n, n=n), v=v, n=n, neg=neg)


def g_zeros(r):
    n = r.choice([0, 1, 3, 7, 8, 9, 16, 23, r.randrange(70), r.randrange(700)])
    return E('zeros', '%d' % n, n, D('bits', '%d' % n, n=n), n=n)


def g_ones(r):
    n = r.choice([0, 1, 3, 7, 8, 9, 16, 23, r.randrange(70), r.randrange(700)])
    return E('ones', '%d' % n, n, D('bits', '%d' % n, n=n), n=n)


def g_bytes(r, mx=12):
    n = r.choice([0, 1, 2, 3, r.randrange(mx + 1)]) if r.random() < .95 else r.choice([31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, r.randrange(600)])
    d = B(r, n)
    op = r.choice(['bytes', 'oct'])
    return E(op, hb(d), 8 * n, D(r.choice(['bytes', 'oct']), '%d' % n, n=n), d=d)


def g_bits(r, mx=80):
    n = r.choice([1, 7, 8, 9, 15, 16, r.randrange(1, mx)]) if r.random() < .93 else r.choice([255, 256, 257, 263, 511, 513, 1023, 1025, 2047, 2049, r.randrange(100, 4500)])
    d = B(r, (n + 7) // 8)
    return E('bits', '%s %d' % (hb(d), n), n, D('bits', '%d' % n, n=n), d=d, n=n)


def g_nonneg(r):
    v = uword(r)
    if r.random() < .4:
        neg = r.random() < .6
        return E('nonnegneg', '%s %d' % (hx(v), neg), bl(v), D('nonneg', '%d' % bl(v), n=bl(v)), v=W(v), neg=neg)
    return E('nonneg', hx(v), bl(v), D('nonneg', '%d' % bl(v), n=bl(v)), v=W(v))


def g_peek(r):
    return None


# ------------------------------------------------------------------ X.691 whole numbers
def s_range(r):
    m = r.randrange(9)
    if m == 0:
        return -(1 << 63), (1 << 63) - 1
    if m == 1:
        return 0, (1 << r.randrange(0, 64)) - 1
    if m == 2:
        lo = sword(r)
        return lo, lo
    if m == 3:
        k = r.choice([8, 16, 32, 64])
        return -(1 << (k - 1)), (1 << (k - 1)) - 1
    a, b = sword(r), sword(r)
    return min(a, b), max(a, b)


def in_range(r, lo, hi):
    m = r.randrange(6)
    if m == 0:
        return lo
    if m == 1:
        return hi
    if m == 2:
        return min(hi, lo + 1)
    if m == 3:
        return max(lo, hi - 1)
    if m == 4:
        return min(hi, max(lo, lo + (1 << r.randrange(0, 64)) - r.randrange(2)))
    return r.randint(lo, hi)


def nw_for(r, lo, hi, signed):
    ok = [64]
    for k in (8, 16, 32):
        if signed and -(1 << (k - 1)) <= lo and hi < (1 << (k - 1)) or not signed and hi < (1 << k):
            ok.append(k)
    return r.choice(ok)


def g_cint(r):
    lo, hi = s_range(r)
    v = in_range(r, lo, hi)
    return E('cint', '%s %s %s' % (hx(v), hx(lo), hx(hi)), bl(hi - lo),
             D('cint', '%s %s %d' % (hx(lo), hx(hi), nw_for(r, lo, hi, True)), lo=W(lo), hi=W(hi)), v=W(v), lo=W(lo), hi=W(hi))


def u_range(r):
    a, b = uword(r), uword(r)
    m = r.randrange(6)
    if m == 0:
        return 0, M64
    if m == 1:
        return 0, (1 << r.randrange(1, 65)) - 1
    if m == 2:
        return a, a
    return min(a, b), max(a, b)


def g_cuint(r):
    lo, hi = u_range(r)
    v = in_range(r, lo, hi)
    return E('cuint', '%s %s %s' % (hx(v), hx(lo), hx(hi)), bl(hi - lo),
             D('cuint', '%s %s %d' % (hx(lo), hx(hi), nw_for(r, lo, hi, False)), lo=W(lo), hi=W(hi)), v=W(v), lo=W(lo), hi=W(hi))


def g_scint(r):
    lo = r.choice([0, 1, -1, -128, -(1 << 63), sword(r)])
    v = r.choice([lo, lo + 1, (1 << 63) - 1, lo + uword(r)])
    v = min(v, (1 << 63) - 1)
    n = 8 + 8 * oct_for(bl(v - lo))
    return E('scint', '%s %s' % (hx(v), hx(lo)), n, D('scint', hx(lo), lo=W(lo)), v=W(v), lo=W(lo))


def g_scuint(r):
    lo = r.choice([0, 1, 5, uword(r)])
    v = min(M64, r.choice([lo, M64, lo + uword(r)]))
    n = 8 + 8 * oct_for(bl(v - lo))
    return E('scuint', '%s %s' % (hx(v), hx(lo)), n, D('scuint', hx(lo), lo=W(lo)), v=W(v), lo=W(lo))


def g_ucint(r):
    v = sword(r)
    return E('ucint', hx(v), 8 + 8 * oct_for(slen(v)), D('ucint', ''), v=W(v))


def g_ucmax(r):
    """with an upper bound only (a call of the Ada library)"""
    o = g_ucint(r)
    v = int.from_bytes(bytes(o.ev['v']), 'big')
    v -= (v >> 63) << 64
    m = r.choice([v, v, v + r.getrandbits(r.randrange(1, 62)), sword(r)])
    m = max(v, min(m, (1 << 63) - 1))
    if r.random() < .1 and v > -(1 << 63):
        m = v - 1
    o.dec = D('ucmax', hx(m), mx=W(m))
    return o


# ------------------------------------------------------------------ REAL
def a_real(r):
    m = r.randrange(12)
    if m == 0:
        return r.choice([0.0, -0.0, float('inf'), -float('inf'), float('nan'), 1.0, -1.0, 0.5, 2.0, 1e308, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308])
    if m == 1:  # subnormal
        return struct.unpack('>d', struct.pack('>Q', (r.getrandbits(1) << 63) | r.getrandbits(r.randrange(1, 53))))[0]
    if m == 2:
        return float(r.choice([-1, 1]) * r.getrandbits(r.randrange(1, 60)))
    if m == 3:
        return r.choice([-1, 1]) * 2.0 ** r.randrange(-1074, 1024)
    if m == 4:
        return r.uniform(-1000, 1000)
    e = r.choice([0, 1, 2, 1023, 1022, 1075, 1076, 2046, 2045, 1023 - 127, 1023 + 52, 1023 + 53, r.randrange(1, 2047)])
    ma = r.choice([0, 1, (1 << 52) - 1, 1 << 51, r.getrandbits(52)])
    return struct.unpack('>d', struct.pack('>Q', (r.getrandbits(1) << 63) | (e << 52) | ma))[0]


def g_real(r):
    x = a_real(r)
    if r.random() < .3 and abs(x) < 3.4e38:
        x = struct.unpack('>f', struct.pack('>f', x))[0]
    w = dword(x)
    # the single precision decoder, where it loses nothing
    nw = 32 if abs(x) < 3.4e38 and dword(struct.unpack('>f', struct.pack('>f', x))[0]) == w and r.random() < .5 else 64
    return E('real', hx(w), 8 * 13, D('real', '32', f32=1) if nw == 32 else D('real', '64'), v=W(w))


# a binary REAL a peer may send: any base, scale factor, exponent length 1..3, un-normalised mantissa
def real_wire(r):
    base = r.randrange(3)
    f = r.randrange(4)
    el = r.randrange(1, 4)
    mul = [1, 3, 4][base]
    m = r.getrandbits(r.choice([1, 4, 8, 13, 24, 40, 53, r.randrange(1, 54)])) | (1 if r.random() < .5 else 0)
    e = r.randrange(-(1 << min(8 * el - 1, 9)), 1 << min(8 * el - 1, 9))
    mo = max(1, (m.bit_length() + 7) // 8) + (r.random() < .15)
    mo = min(mo, 7)
    h = 0x80 | (r.getrandbits(1) << 6) | (base << 4) | (f << 2) | (el - 1)
    c = [h] + list((e & ((1 << (8 * el)) - 1)).to_bytes(el, 'big')) + list(m.to_bytes(mo, 'big'))
    return [len(c)] + c


# ------------------------------------------------------------------ octet / bit strings
def size_range(r, big=False):
    if big:
        return r.choice([0, 1, 5]), r.choice([65536, 70000, 100000])
    lo = r.choice([0, 1, 2, 5, 10])
    hi = lo + r.choice([0, 0, 1, 3, 7, 8, 15, 200, 65535 - lo, 65534 - lo])
    return lo, hi


def cnt_in(r, lo, hi, cap):
    return min(max(lo, r.choice([lo, lo + 1, hi, hi - 1, r.randint(lo, hi)])), hi) if hi <= cap else r.randint(lo, min(hi, max(lo, cap)))


def g_octstr(r, cap=40):
    lo, hi = size_range(r, r.random() < .25)
    n = cnt_in(r, lo, hi, cap)
    d = B(r, n)
    return E('octstr', '%s %d %d' % (hb(d), lo, hi), 8 * n + 32, D('octstr', '%d %d' % (lo, hi), min=lo, max=hi), d=d, min=lo, max=hi)


def g_octfrag(r, n=None):
    n = r.choice([0, 1, 2, 127, 128, 129, 200]) if n is None else n
    d = [(i * 7 + i // 256 + 3) & 255 for i in range(n)] if n > 300 else B(r, n)
    mx = n + r.choice([0, 1, 1000])
    return E('octfrag', hb(d), 8 * n + 8 * (n // 16384) + 32, D('octfrag', '%d' % mx, max=mx), d=d)


def g_bitstr(r, cap=300, n=None):
    if n is None:
        lo, hi = size_range(r, r.random() < .25)
        n = cnt_in(r, lo, hi, cap)
        d = B(r, (n + 7) // 8)
    else:
        lo, hi = 0, r.choice([70000, n + 1, n]) if n >= 65536 else r.choice([65536, 70000])
        hi = max(hi, n, 65536)
        d = [(i * 11 + i // 256 + 5) & 255 for i in range((n + 7) // 8)]
    return E('bitstr', '%s %d %d %d' % (hb(d), n, lo, hi), n + 8 * (n // 16384) + 32, D('bitstr', '%d %d' % (lo, hi), min=lo, max=hi),
             d=d, n=n, min=lo, max=hi)


# ------------------------------------------------------------------ OID
def arcs_txt(a):
    return '%d %s' % (len(a), ' '.join(hx(x) for x in a))


def g_oid(r):
    n = r.choice([2, 2, 3, 4, 7, 20, r.randrange(2, 21)])
    a = [r.randrange(3), r.choice([0, 39, r.randrange(40)])] + [uword(r) if r.random() < .5 else r.choice([0, 1, 127, 128, 16383, 16384, 840, 113549]) for _ in range(n - 2)]
    return E('oid', arcs_txt(a), 16 + 80 * n, D('oid', ''), arcs=[W(x) for x in a])


def g_roid(r):
    n = r.choice([1, 2, 3, 20, r.randrange(1, 21)])
    a = [uword(r) if r.random() < .5 else r.choice([0, 1, 127, 128, 16383, 16384]) for _ in range(n)]
    return E('roid', arcs_txt(a), 16 + 80 * n, D('roid', ''), arcs=[W(x) for x in a])


# ------------------------------------------------------------------ ACN
def nw_u(r, v, ok=(8, 16, 32, 64)):
    return r.choice([k for k in ok if v < (1 << k)] + [64])


def nw_s(r, v, ok=(8, 16, 32, 64)):
    return r.choice([k for k in ok if -(1 << (k - 1)) <= v < (1 << (k - 1))] + [64])


def g_align(r):
    n = r.choice([8, 16, 32])
    return E('align', '%d' % n, 31, D('align', '%d' % n, n=n), n=n)


def g_apos(r):
    n = r.choice([1, 2, 7, 8, 9, 16, 31, 32, 33, 40, 63, 64, r.randrange(1, 65)])
    v = uword(r, n)
    if r.random() < .2:
        return E('alen', '%s %d' % (hx(v), n), n, D('alen', '%d' % n, n=n), v=W(v), n=n)
    return E('apos', '%s %d' % (hx(v), n), n, D('apos', '%d %d' % (n, nw_u(r, v)), n=n), v=W(v), n=n)


def _narrow_fixed(n):
    return {8: (8, 64), 16: (8, 16, 64), 32: (8, 16, 32, 64), 64: (8, 16, 32, 64)}[n]


def g_aposbe(r):
    n = r.choice([8, 16, 32, 64])
    v = uword(r, n)
    return E('aposbe', '%s %d' % (hx(v), n), n, D('aposbe', '%d %d' % (n, nw_u(r, v, _narrow_fixed(n))), n=n), v=W(v), n=n)


def g_aposle(r):
    n = r.choice([16, 32, 64])
    v = uword(r, n)
    return E('aposle', '%s %d' % (hx(v), n), n, D('aposle', '%d %d' % (n, nw_u(r, v, _narrow_fixed(n))), n=n), v=W(v), n=n)


def g_aposvar(r):
    v = uword(r)
    return E('aposvar', hx(v), 8 + 8 * oct_for(bl(v)), D('aposvar', '%d' % nw_u(r, v)), v=W(v))


def g_atwo(r):
    n = r.choice([1, 2, 7, 8, 9, 16, 31, 32, 33, 40, 63, 64, r.randrange(1, 65)])
    v = sword(r, n) if n > 1 else r.choice([0, -1])
    return E('atwo', '%s %d' % (hx(v), n), n, D('atwo', '%d %d' % (n, nw_s(r, v)), n=n), v=W(v), n=n)


def g_atwobe(r):
    n = r.choice([8, 16, 32, 64])
    v = sword(r, n)
    return E('atwobe', '%s %d' % (hx(v), n), n, D('atwobe', '%d %d' % (n, nw_s(r, v, _narrow_fixed(n))), n=n), v=W(v), n=n)


def g_atwole(r):
    n = r.choice([16, 32, 64])
    v = sword(r, n)
    return E('atwole', '%s %d' % (hx(v), n), n, D('atwole', '%d %d' % (n, nw_s(r, v, _narrow_fixed(n))), n=n), v=W(v), n=n)


def g_atwovar(r):
    v = sword(r)
    return E('atwovar', hx(v), 8 + 8 * oct_for(slen(v)), D('atwovar', '%d' % nw_s(r, v)), v=W(v))


def dig(v):
    return len(str(v)) if v else 0


def dword_dec(r):
    if FORCE is not None:
        return abs(FORCE) & M64
    m = r.randrange(4)
    if m == 0:
        return min(M64, 10 ** r.randrange(0, 20))
    if m == 1:
        return min(M64, 10 ** r.randrange(0, 20) - 1)
    if m == 2:
        return r.choice([0, 9, M64, M64 - 1, 1 << 63])
    return uword(r)


def g_abcd(r):
    v = dword_dec(r)
    n = dig(v) + r.choice([0, 0, 1, 3])
    n = max(1, n)
    return E('abcd', '%s %d' % (hx(v), n), 4 * n, D('abcd', '%d %d' % (n, nw_u(r, v)), n=n), v=W(v), n=n)


def g_abcdvar(r):
    v = dword_dec(r)
    return E('abcdvar', hx(v), 8 + 4 * dig(v), D('abcdvar', '%d' % nw_u(r, v)), v=W(v))


def g_abcdnul(r):
    v = dword_dec(r)
    return E('abcdnul', hx(v), 4 + 4 * dig(v), D('abcdnul', '%d' % nw_u(r, v)), v=W(v))


def sdec(r):
    if FORCE is not None:
        return max(-(1 << 63), min((1 << 63) - 1, FORCE))
    v = min(dword_dec(r), (1 << 63) - 1)
    return v if r.random() < .5 else r.choice([-v, -v, -(1 << 63)])


def g_auasc(r):
    v = dword_dec(r)
    n = max(1, dig(v) + r.choice([0, 0, 1, 3]))
    return E('auasc', '%s %d' % (hx(v), n), 8 * n, D('auasc', '%d %d' % (n, nw_u(r, v)), n=n), v=W(v), n=n)


def g_asasc(r):
    v = sdec(r)
    n = max(1, dig(abs(v)) + r.choice([0, 0, 1, 3])) + 1
    return E('asasc', '%s %d' % (hx(v), n), 8 * n, D('asasc', '%d %d' % (n, nw_s(r, v)), n=n), v=W(v), n=n)


def g_auascvar(r):
    v = dword_dec(r)
    return E('auascvar', hx(v), 8 + 8 * max(1, dig(v)), D('auascvar', '%d' % nw_u(r, v)), v=W(v))


def g_asascvar(r):
    v = sdec(r)
    return E('asascvar', hx(v), 24 + 8 * dig(abs(v)), D('asascvar', '%d' % nw_s(r, v)), v=W(v))


def term(r):
    n = r.choice([1, 1, 2, 3, 10])
    t = r.choice([[0], [0x0d, 0x0a], [0xff] * n, [0, 1], [0x24], [0x23, 0x23, 0x24], [r.choice([0, 1, 0x0a, 0xf0, 0x58]) for _ in range(n)]])
    return t


def g_auascnul(r):
    v, d = dword_dec(r), term(r)
    return E('auascnul', '%s %s' % (hx(v), hb(d)), 8 * max(1, dig(v)) + 8 * len(d), D('auascnul', '%s %d' % (hb(d), nw_u(r, v)), d=d), v=W(v), d=d)


def g_asascnul(r):
    v, d = sdec(r), term(r)
    return E('asascnul', '%s %s' % (hx(v), hb(d)), 16 + 8 * dig(abs(v)) + 8 * len(d), D('asascnul', '%s %d' % (hb(d), nw_s(r, v)), d=d), v=W(v), d=d)


def chars(r, n, avoid=(0,), hi=127):
    pool = [c for c in range(1, hi + 1) if c not in avoid]
    return [r.choice(pool) for _ in range(n)]


def g_str(r):
    m = r.randrange(9)
    mx = r.choice([1, 2, 5, 10, 17])
    n = r.choice([0, 1, mx - 1, mx, r.randrange(mx + 1)])
    if m == 0:
        d = chars(r, mx)
        return E('strfix', hb(d), 8 * mx, D('strfix', '%d' % mx, max=mx), d=d)
    if m == 1:
        nc = r.choice([0, 0, 10, 36])
        d = chars(r, n, (0, nc))
        return E('strnul', '%s %d %d' % (hb(d), mx, nc), 8 * n + 8, D('strnul', '%d %d' % (mx, nc), max=mx, n=nc), d=d, n=nc)
    if m == 2:
        t = term(r)
        while True:
            d = chars(r, n, (0,))
            s = bytes(d + t)
            if s.find(bytes(t)) == n:
                break
            t = term(r)
        return E('strnulm', '%s %d %s' % (hb(d), mx, hb(t)), 8 * (n + len(t)), D('strnulm', '%d %s' % (mx, hb(t)), max=mx, d2=t), d=d, d2=t)
    if m == 3:
        d = chars(r, n)
        return E('strext', '%s %d' % (hb(d), mx), 8 * n, D('strext', '%d %d' % (mx, n), max=mx, n=n), d=d)
    if m == 4:
        lo = r.choice([0, 0, n, max(0, n - 1)])
        mx = max(mx, lo, 1)
        d = chars(r, n)
        return E('strint', '%s %d %d' % (hb(d), lo, mx), 8 * n + 16, D('strint', '%d %d' % (lo, mx), min=lo, max=mx), d=d, min=lo, max=mx)
    if m in (5, 6):
        cs = sorted(r.sample(range(1, 128), r.choice([1, 2, 3, 10, 26, 64, 65, 127])))
        if m == 5:
            if r.random() < .5:
                d = [r.choice(cs) for _ in range(mx)]
                return E('idxfix', '%s %s' % (hb(d), hb(cs)), 7 * mx, D('idxfix', '%d %s' % (mx, hb(cs)), max=mx, d2=cs), d=d, d2=cs)
            d = [r.choice(cs) for _ in range(n)]
            return E('idxext', '%s %d %s' % (hb(d), mx, hb(cs)), 7 * n, D('idxext', '%d %d %s' % (mx, n, hb(cs)), max=mx, n=n, d2=cs), d=d, d2=cs)
        lo = r.choice([0, 0, n, max(0, n - 1)])
        mx = max(mx, lo, 1)
        d = [r.choice(cs) for _ in range(n)]
        return E('idxint', '%s %d %d %s' % (hb(d), lo, mx, hb(cs)), 7 * n + 16, D('idxint', '%d %d %s' % (lo, mx, hb(cs)), min=lo, max=mx, d2=cs), d=d, min=lo, max=mx, d2=cs)
    d = chars(r, n)
    if m == 7:
        return E('ia5ext', '%s %d' % (hb(d), mx), 7 * n, D('ia5ext', '%d %d' % (mx, n), max=mx, n=n), d=d)
    lo = r.choice([0, 0, n])
    mx = max(mx, lo, 1)
    return E('ia5int', '%s %d %d' % (hb(d), lo, mx), 7 * n + 16, D('ia5int', '%d %d' % (lo, mx), min=lo, max=mx), d=d, min=lo, max=mx)


def fbytes(r, n):
    while True:
        if n == 8:
            d = list(struct.pack('>d', a_real(r)))
            x = struct.unpack('>d', bytes(d))[0]
        else:
            d = r.choice([list(struct.pack('>f', r.choice([0.0, -0.0, 1.0, -1.5, 3.4e38, 1e-45, float('inf')]))), [r.randrange(256) for _ in range(4)]])
            x = struct.unpack('>f', bytes(d))[0]
        if x == x:
            return d


def g_f(r):
    n, en = r.choice([4, 8]), r.choice(['be', 'le'])
    d = fbytes(r, n)
    op = 'f%d%s' % (8 * n, en)
    return E(op, hb(d), 8 * n, D(op, str(r.choice([32, 64])) if n == 4 else ''), d=d)


def patbits(r, n):
    d = B(r, (n + 7) // 8)
    if n % 8 and d:
        d[-1] &= (0xff << (8 - n % 8)) & 0xff
    return d


def g_pat(r):
    """patterns are written as bits and read back by the boolean / null readers"""
    n = r.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 33])
    p, q = patbits(r, n), patbits(r, n)
    w = r.choice([p, q])
    m = r.randrange(4)
    if m == 0:
        d = D('pat', '%s %d' % (hb(p), n), d=p, n=n)
    elif m == 1:
        d = D('patign', '%d' % n, n=n)
    elif m == 2:
        d = D('tf', '%s %s %d' % (hb(p), hb(q), n), d=p, d2=q, n=n)
    else:
        d = D('chkpat', '%s %d' % (hb(p), n), d=p, n=n)
        e = E('bits', '%s %d' % (hb(p), n), n, d, d=p, n=n)
        return e
    return E('bits', '%s %d' % (hb(w), n), n, d, d=w, n=n)


def g_bitsnul(r):
    """a bit string closed by a bit pattern"""
    n = r.choice([4, 8, 9, 16])
    t = patbits(r, n)
    mx = r.choice([3, 8, 20, 40])
    k = r.randrange(mx + 1)
    body = [r.randrange(2) for _ in range(k)]
    tb = [(t[i // 8] >> (7 - i % 8)) & 1 for i in range(n)]
    s = body + tb
    for j in range(k):
        if s[j:j + n] == tb:
            s = s[:j + n]
            break
    d = [int(''.join(map(str, (s + [0] * 8)[i:i + 8])), 2) for i in range(0, len(s), 8)]
    return E('bits', '%s %d' % (hb(d), len(s)), len(s), D('bitsnul', '%s %d %d' % (hb(t), n, mx), d=t, n=n, max=mx), d=d, n=len(s))


STREAM = [g_bit, g_byte, g_byte0, g_pbyte, g_zeros, g_ones, g_bytes, g_bits, g_nonneg]
UPERINT = [g_cint, g_cint, g_cuint, g_cuint, g_scint, g_scuint, g_ucint]
STRS = [g_octstr, g_octfrag, g_bitstr]
OIDS = [g_oid, g_roid]
REALS = [g_real]
ACNINT = [g_apos, g_aposbe, g_aposle, g_aposvar, g_atwo, g_atwobe, g_atwole, g_atwovar, g_abcd, g_abcdvar, g_abcdnul,
          g_auasc, g_asasc, g_auascvar, g_asascvar, g_auascnul, g_asascnul]
ACNREST = [g_str, g_str, g_f, g_pat, g_align, g_bitsnul]
ALL = STREAM + UPERINT + STRS + OIDS + REALS + ACNINT + ACNREST


# ------------------------------------------------------------------ determinants
DET_BITS = {'U8': 8, 'U16_BE': 16, 'U32_BE': 32, 'U64_BE': 64, 'U16_LE': 16, 'U32_LE': 32, 'U64_LE': 64,
            'I8': 8, 'I16_BE': 16, 'I32_BE': 32, 'I64_BE': 64, 'BOOL1': 1}


class Episode:
    """a script: list of lines and of event skeletons (None = no event)"""

    def __init__(self, dec=False, init=(), cap=0, meta=''):
        self.lines, self.evs = [], []
        self.dec, self.init, self.cap, self.meta = dec, list(init), cap, meta

    def add(self, op):
        self.lines.append(op.line)
        self.evs.append(dict(op.ev))

    def raw(self, line, ev):
        self.lines.append(line)
        self.evs.append(ev)


TABLE_U = sorted(set([v for k in range(65) for d in (-2, -1, 0, 1, 2) for v in [(1 << k) + d] if 0 <= v <= M64] +
                     [v for k in range(20) for d in (-1, 0, 1) for v in [10 ** k + d] if 0 <= v <= M64]))
TABLE_S = sorted(set([v for u in TABLE_U for v in (u, -u) if -(1 << 63) <= v < (1 << 63)]))
# lengths around which encodings change
TABLE_N = [0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]


def pack(r, ops, k=10, **kw):
    """round-trip episodes over a list of prepared operations"""
    r.shuffle(ops)
    out = []
    for i in range(0, len(ops), k):
        part = ops[i:i + k]
        if r.random() < .8:
            part = [g_pbyte(r)] + part
        it = iter(part)
        out.append(roundtrip(r, [lambda _: next(it)], len(part), **kw))
    return out


def sweep_ints(r, gens, reps=1):
    """every generator with every boundary value"""
    global FORCE
    ops = []
    for _ in range(reps):
        for g in gens:
            signed = g in (g_ucint, g_atwo, g_atwobe, g_atwole, g_atwovar, g_asasc, g_asascvar, g_asascnul)
            for v in (TABLE_S if signed else TABLE_U):
                FORCE = v
                try:
                    ops.append(g(r))
                finally:
                    FORCE = None
    return pack(r, ops)


def sweep_ranges(r):
    """constrained and semi-constrained numbers: ranges of every width, placed at every kind of bound"""
    ops = []
    for k in range(65):
        for d in (-1, 0, 1):
            w = (1 << k) + d
            if 0 <= w <= M64:
                for lo in (0, M64 - w, r.randrange(M64 - w + 1)):
                    hi = lo + w
                    for v in (lo, hi, lo + w // 2):
                        ops.append(E('cuint', '%s %s %s' % (hx(v), hx(lo), hx(hi)), bl(w), D('cuint', '%s %s %d' % (hx(lo), hx(hi), nw_for(r, lo, hi, False)), lo=W(lo), hi=W(hi)), v=W(v), lo=W(lo), hi=W(hi)))
                    slo = lo - (1 << 63)
                    shi = slo + w
                    for v in (slo, shi, slo + w // 2):
                        ops.append(E('cint', '%s %s %s' % (hx(v), hx(slo), hx(shi)), bl(w), D('cint', '%s %s %d' % (hx(slo), hx(shi), nw_for(r, slo, shi, True)), lo=W(slo), hi=W(shi)), v=W(v), lo=W(slo), hi=W(shi)))
                for lo in (0, r.randrange(M64 - w + 1)):
                    v = lo + w
                    ops.append(E('scuint', '%s %s' % (hx(v), hx(lo)), 80, D('scuint', hx(lo), lo=W(lo)), v=W(v), lo=W(lo)))
                lo = r.randrange(M64 - w + 1) - (1 << 63)
                v = lo + w
                ops.append(E('scint', '%s %s' % (hx(v), hx(lo)), 80, D('scint', hx(lo), lo=W(lo)), v=W(v), lo=W(lo)))
    return pack(r, ops)


def sweep_lenwire(r, kinds=('scint', 'scuint', 'ucint', 'aposvar', 'atwovar')):
    """length octet plus contents, minimal or not, as a peer may send it"""
    out = []
    for op in kinds:
        for k in range(0, 11):
            for first in (0, 1, 0x7f, 0x80, 0x81, 0xff):
                for rest in (0, 0xff, 1, None):
                    body = ([first] + [r.randrange(256) if rest is None else rest for _ in range(k - 1)])[:k]
                    if body and r.random() < .5:
                        body[-1] = r.choice([0, 1, 255])
                    data = [k] + body + [r.randrange(256)]
                    ep = Episode(dec=True, init=data)
                    ep.raw('D %s 0' % hb(data), None)
                    lo = r.choice([0, 0, 1, 300])
                    ep.add(D(op, hx(lo), lo=W(lo)) if op[0] == 's' else D(op, '') if op == 'ucint' else D(op, '64'))
                    ep.meta = 'lenwire'
                    out.append(ep)
    return out


def sweep_realwire(r):
    out = []
    for h in range(0x80, 0x100):
        for j in range(3):
            w = real_wire(r)
            el = (h & 3) + 1
            e = r.choice([0, 1, -1, 7, -8, r.randrange(-100, 100)]) if el < 4 else 0
            m = r.choice([1, 3, 5, 0x80, 0xff, (1 << 53) - 1, r.getrandbits(30) | 1])
            mo = (m.bit_length() + 7) // 8 + (j == 2)
            c = [h] + list((e & ((1 << (8 * el)) - 1)).to_bytes(el, 'big')) + list(m.to_bytes(min(mo, 8), 'big'))
            for w in ([len(c)] + c, w):
                ep = Episode(dec=True, init=w)
                ep.raw('D %s 0' % hb(w), None)
                ep.add(D('real', '64'))
                ep.meta = 'realwire'
                out.append(ep)
    for sp in range(0x40, 0x48):
        w = [1, sp]
        ep = Episode(dec=True, init=w)
        ep.raw('D %s 0' % hb(w), None)
        ep.add(D('real', '64'))
        out.append(ep)
    return out


def oid_of_size(r, n, rel):
    """an identifier whose contents take exactly n octets"""
    subs = []
    left = n - (0 if rel else 1)
    while left > 0:
        slots = 20 - (0 if rel else 2) - len(subs)
        k = min(left, 9) if left > 9 * (slots - 1) or r.random() < .7 else r.randrange(1, min(left, 9) + 1)
        subs.append(r.randrange(1 << (7 * (k - 1)), 1 << (7 * k)) if k > 1 else r.randrange(128))
        left -= k
    a = subs if rel else [r.randrange(2), r.randrange(40)] + subs
    op = 'roid' if rel else 'oid'
    return E(op, arcs_txt(a), 16 + 8 * n, D(op, ''), arcs=[W(x) for x in a])


def sweep_oids(r):
    ops = []
    for n in list(range(1, 12)) + list(range(120, 136)) + [100, 150, 160]:
        for rel in (False, True):
            ops.append(oid_of_size(r, n, rel))
    for k in range(64):
        for d in (-1, 0, 1):
            v = (1 << k) + d
            if v >= 0:
                ops.append(E('roid', arcs_txt([v]), 120, D('roid', ''), arcs=[W(v)]))
    for a in range(3):
        for b in range(40):
            ops.append(E('oid', arcs_txt([a, b]), 40, D('oid', ''), arcs=[W(a), W(b)]))
    return pack(r, ops, k=5)


def frag_episodes(r, ns, maxes=None, bits=False, exact=.5, octstr=.5):
    """fragmented strings: one per episode (they are large)"""
    out = []
    for n in ns:
        hi = max(65536, n) if r.random() < exact else max(65536, n) + r.choice([1, 1000])
        if bits:
            d = [(i * 11 + i // 256 + 5) & 255 for i in range((n + 7) // 8)]
            o = E('bitstr', '%s %d %d %d' % (hb(d), n, 0, hi), n + 8 * (n // 16384) + 32, D('bitstr', '0 %d' % hi, min=0, max=hi), d=d, n=n, min=0, max=hi)
        else:
            d = [(i * 7 + i // 256 + 3) & 255 for i in range(n)]
            if r.random() < octstr:
                o = E('octstr', '%s 0 %d' % (hb(d), hi), 8 * n + 8 * (n // 16384) + 64, D('octstr', '0 %d' % hi, min=0, max=hi), d=d, min=0, max=hi)
            else:
                mx = n if r.random() < exact else n + 1
                o = E('octfrag', hb(d), 8 * n + 8 * (n // 16384) + 64, D('octfrag', '%d' % mx, max=mx), d=d)
        ops = [o, g_byte(r)] if r.random() < .5 else [g_pbyte(r), o, g_byte(r)]
        it = iter(ops)
        out.append(roundtrip(r, [lambda _: next(it)], len(ops), tail=False))
    return out


def bits_of(ops):
    return sum(o.bits for o in ops)


def roundtrip(r, gens, nops, slack=None, dirty=None, chunk=0, readback=True, exact=False, tail=True):
    """encode a history, read it back in the same order"""
    ops = [r.choice(gens)(r) for _ in range(nops)]
    ep = Episode()
    # capacity is an upper bound; the driver allocates exactly that much
    ep.cap = (bits_of(ops) + 7) // 8 + (0 if exact else (8 if slack is None else slack))
    fill = -1 if (dirty is None and r.random() < .6) or dirty is False else r.choice([0xff, 0xaa, 0x55, 0])
    ep.raw('E %d %d %d' % (ep.cap, fill, chunk), None)
    for o in ops:
        ep.add(o)
    if readback:
        ep.raw('r %d' % chunk, {'k': 'rewind', 'op': 'rewind'})
        for o in ops:
            if r.random() < .15:
                ep.add(D('peek', ''))
            ep.add(o.dec)
        if tail and ep.evs and r.random() < .5:
            # the end of the data: one more octet cannot be there
            ep.add(D('byte', ''))
    else:
        ep.raw('x', {'k': 'end', 'op': 'end'})
    ep.meta = 'roundtrip'
    return ep


def hostile(r, gens, chunk=0, wire=None, wild=True):
    """decoding of arbitrary octets"""
    n = r.choice([0, 1, 2, 3, 5, 9, 12, 20])
    if wire is None:
        m = r.randrange(4)
        data = [r.choice([0, 255, 0x30, 0x39, 0x2b, 0x2d, 0x80, 0xc1, 0x41, 0x99, r.randrange(256)]) for _ in range(n)] if m else [r.randrange(256) for _ in range(n)]
    else:
        data = wire
    ep = Episode(dec=True, init=data)
    ep.raw('D %s %d' % (hb(data), chunk), None)
    if r.random() < .6 and data and wire is None:
        k = r.randrange(1, 8)
        ep.add(D('pbyte', '%d' % k, n=k))
    for _ in range(r.randrange(1, 4)):
        o = r.choice(gens)(r).dec
        if wild and o.ev['op'] in ('strext', 'idxext', 'ia5ext') and r.random() < .4:     # a determinant beyond the size
            mx = o.ev['max']
            n = r.choice([mx + 1, mx + 2, mx + 300, -1, -300, mx])
            o = Op(' '.join(o.line.split()[:3] + [str(n)] + o.line.split()[4:]), dict(o.ev, n=n))
        ep.add(o)
    ep.meta = 'hostile'
    return ep


# ------------------------------------------------------------------ deferred determinants
def det_value(r, kind, n):
    if kind in ('I8', 'I16_BE', 'I32_BE', 'I64_BE', 'TwosComplement_ConstSize'):
        return sword(r, n)
    return uword(r, n)


def deferred(r):
    """determinants reserved, later patched (repeatedly, out of order, by several consumers)"""
    ep = Episode()
    items, dets = [], []
    for _ in range(r.randrange(2, 9)):
        if r.random() < .5:
            kind = r.choice(list(DET_BITS) + ['ConstSize', 'TwosComplement_ConstSize', 'IA5'])
            n = r.choice([1, 2, 5, 8, 10]) if kind == 'IA5' else DET_BITS.get(kind) or r.choice([1, 2, 3, 7, 8, 9, 12, 16, 17, 31, 32, 33, 48, 63, 64])
            if kind == 'TwosComplement_ConstSize' and n == 1:
                n = 2
            items.append(('det', kind, n))
        else:
            items.append(('op', r.choice(ALL)(r)))
    bits = sum(7 * i[2] if i[0] == 'det' and i[1] == 'IA5' else i[2] if i[0] == 'det' else i[1].bits for i in items)
    ep.cap = bits // 8 + 9
    ep.raw('E %d -1 0' % ep.cap, None)
    open_ = []
    def args(kind, n):
        return ' %d' % n if kind not in DET_BITS else ''
    def patch():
        d = r.choice(open_)
        kind, n, ident, val = d
        if val is None or r.random() < .4:
            if kind == 'IA5':
                v = chars(r, r.choice([n, n, max(0, n - 1), r.randrange(n + 1)]), (0,))
                if val is not None and r.random() < .5:
                    v = val[:r.randrange(len(val) + 1)] + chars(r, 1)
                    v = v[:n]
            else:
                v = det_value(r, kind, n)
                if val is not None and r.random() < .4:
                    v = val ^ 1 if not (kind.startswith('I') or kind.startswith('Two')) else val
        else:
            v = val
        first = val is None
        ev = {'k': 'patch', 'op': kind, 'id': ident, 'n': n}
        if kind == 'IA5':
            ev['d'] = v
            ep.raw('p %s %d %d %s' % (kind, ident, n, hb(v)), ev)
        elif kind in DET_BITS:
            ev['v'] = W(v)
            ep.raw('p %s %d %s' % (kind, ident, hx(v)), ev)
        else:
            ev['v'] = W(v)
            ep.raw('p %s %d %d %s' % (kind, ident, n, hx(v)), ev)
        if first:
            d[3] = v
    for it in items:
        if it[0] == 'op':
            ep.add(it[1])
        else:
            dets.append(it)
            open_.append([it[1], it[2], len(dets), None])
            ep.raw('i %s%s' % (it[1], args(it[1], it[2])), {'k': 'init', 'op': it[1], 'n': it[2]})
        while open_ and r.random() < .3:
            patch()
    for _ in range(r.randrange(4)):
        if open_:
            patch()
    ep.raw('x', {'k': 'end', 'op': 'end'})
    ep.meta = 'deferred'
    return ep


# ------------------------------------------------------------------ pure helpers
def g_fn(r):
    m = r.randrange(12)
    F = lambda op, line, **ev: ('f %s %s' % (op, line), dict({'k': 'fn', 'op': op}, **ev))
    if m == 0:
        v = uword(r)
        return F('nbits', hx(v), v=W(v))
    if m == 1:
        v = uword(r)
        return F('lenu', hx(v), v=W(v))
    if m in (2, 3):
        v = sword(r)
        return F('lens' if m == 2 else 'int2uint', hx(v), v=W(v))
    if m == 4:
        n = r.choice([1, 2, 4, 8])
        v = uword(r, 8 * n)
        return F('uint2int', '%s %d' % (hx(v), n), v=W(v), n=n)
    if m == 5:
        a = B(r, r.randrange(5))
        b = r.choice([list(a), B(r, r.randrange(5)), a[:-1], a + [0]])
        if a and r.random() < .5:
            b = list(a)
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return F('octeq', '%s %s' % (hb(a), hb(b)), d=a, d2=b)
    if m == 6:
        n = r.randrange(0, 33)
        k = (n + 7) // 8
        a = B(r, k)
        b = list(a)
        if b and r.random() < .7:
            b[r.randrange(k)] ^= 1 << r.randrange(8)
        n2 = n if r.random() < .8 else min(8 * k, n + 1)
        return F('biteq', '%s %s %d %d' % (hb(a), hb(b), n, n2), d=a, d2=b, n=n, min=n2)
    if m in (7, 8, 9):
        k = r.randrange(0, 21)
        a = [r.choice([0, 1, 2, 3, 39, 40, uword(r, 62)]) for _ in range(k)]
        b = list(a)
        if m == 7:
            if b and r.random() < .6:
                i = r.randrange(k)
                b[i] = b[i] ^ (1 << r.randrange(40))
            elif r.random() < .5:
                b = b[:-1]
            return F('oideq', '%d %s %d %s' % (k, ' '.join(map(hx, a)), len(b), ' '.join(map(hx, b))), arcs=[W(x) for x in a], arcs2=[W(x) for x in b])
        if k > 1:
            a[0] = r.choice([0, 1, 2, 3])
        return F('oidvalid' if m == 8 else 'roidvalid', '%d %s' % (k, ' '.join(map(hx, a))), arcs=[W(x) for x in a])
    if m == 10:
        a = sorted(set(sword(r) for _ in range(r.randrange(0, 8))))
        v = r.choice(a + [sword(r)])
        return F('bsearch', '%d %s %s' % (len(a), ' '.join(map(hx, a)), hx(v)), arcs=[W(x) for x in a], v=W(v))
    v = r.choice([0, 1, 31, 32, 33])
    op = r.choice(['milenc', 'mildec'])
    return F(op, hx(v), v=W(v))


# ------------------------------------------------------------------ running
def run(proc, eps):
    """replay episodes; returns trace records for TLC (list of dicts)"""
    out = []
    for ep in eps:
        ans = proc.episode(ep.lines)
        evs = []
        for k, a in enumerate(ans):
            ev = ep.evs[k]
            if a in ('crash', 'hang'):
                evs.append({'k': a, 'op': (ev or {}).get('op', 'open'), 'ok': False, 'p': 0, 'why': proc.err})
                break
            if ev is None:
                continue
            o = json.loads(a)
            e = dict(ev)
            e.update(o)
            if 'c' in e:
                e['v'] = [e.pop('c'), e.get('v', [])]
            evs.append(e)
            if e['k'] == 'dec' and not e['ok']:
                break      # the stream is not specified after a refused decode
        out.append({'cap': ep.cap, 'dec': ep.dec, 'init': ep.init, 'ev': evs})
    return out
