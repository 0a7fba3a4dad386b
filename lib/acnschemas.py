"""Schemas with an ACN description."""
from asn import *
from acn import *
from schemas import nm, en, sq, ch
from valgen import U_MAX, S_MIN, S_MAX


def aints():
    d = {}

    def add(t, **p):
        d['I%d' % (len(d) + 1)] = ac(t, **p)
    for w in (1, 3, 7, 8, 9, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 47, 48, 63, 64):
        add(R(0, 2 ** w - 1), enc='pos', sz=w)
        add(R(-2 ** (w - 1), 2 ** (w - 1) - 1), enc='two', sz=w)
    for w in (16, 32, 64):
        for le in (0, 1):
            add(R(0, 2 ** w - 1), enc='pos', sz=w, le=le)
            add(R(0, 100), enc='pos', sz=w, le=le)
            add(R(-2 ** (w - 1), 2 ** (w - 1) - 1), enc='two', sz=w, le=le)
            add(R(-100, 100), enc='two', sz=w, le=le)
    add(R(0, 255), enc='pos', sz=8, le=1)
    add(R(-128, 127), enc='two', sz=8, le=1)
    add(R(10, 20), enc='pos', sz=8)
    add(R(10, 20), enc='pos', sz=5)
    add(R(1000, 1015), enc='pos', sz=64)
    add(R(-3, 900), enc='two', sz=11)
    add(R(-900, -3), enc='two', sz=40)
    for n in (1, 2, 3, 5, 9, 18):
        add(R(0, 10 ** n - 1), enc='bcd', sz=4 * n)
        add(R(0, 10 ** n - 1), enc='asc', sz=8 * n + 8)
        add(R(1 - 10 ** n, 10 ** n - 1), enc='asc', sz=8 * n + 8)
    add(R(0, 50), enc='bcd', sz=24)
    add(R(0, 50), enc='asc', sz=64)
    add(R(-50, 50), enc='asc', sz=64)
    for hi in (9, 255, 10 ** 6, 2 ** 32, U_MAX):
        add(R(0, hi), enc='bcd', sz=0)
        add(R(0, hi), enc='asc', sz=0, term=[0])
    add(R(0, 10 ** 6), enc='asc', sz=0, term=[13, 10])
    add(R(-10 ** 6, 10 ** 6), enc='asc', sz=0, term=[0])
    add(R(S_MIN, S_MAX), enc='asc', sz=0, term=[255])
    add(R(-99, 99), enc='asc', sz=0, term=[0xAB, 0xCD, 0xEF])
    add(R(1, 32), enc='pos', sz=5, mf='milbus')
    add(R(1, 32), enc='pos', sz=16, le=1, mf='milbus')
    add(INT(rng(0, None)), enc='pos', sz=64)
    add(INT(), enc='two', sz=64)
    add(INT(Or(rng(1, 4), rng(10, 20))), enc='pos', sz=6)
    for al in (8, 16, 32):
        add(R(0, 9), al=al)
        add(R(0, 2 ** 32 - 1), enc='pos', sz=32, al=al)
    return {n: t for n, t in d.items() if n not in ()}


def aleaf():
    d = {}

    def add(t, **p):
        t = ac(t, **p)
        d['L%d' % (len(d) + 1)] = t if t['k'] != 'null' else sq(R(0, 3), t, R(0, 3))
    # enumerations
    add(en(None, None, None))
    add(en(None, None, None), enc='pos', sz=2)
    add(en(None, None, None), enc='pos', sz=8)
    add(en(10, 5, 7, 200))
    add(en(10, 5, 7, 200), enc='pos', sz=8)
    add(en(10, 5, 7, 200), ev=1)
    add(en(10, 5, 7, 200), enc='pos', sz=8, ev=1)
    add(en(10, 5, 7, 200), enc='pos', sz=16, le=1, ev=1)
    add(en(10, 5, 7, 200), enc='pos', sz=32, le=0, ev=1)
    add(en(-10, 5, 7, 200), enc='two', sz=12, ev=1)
    add(en(-10, 5, -100), enc='two', sz=8, ev=1)
    add(en(-10, 5, -100), ev=1)
    add(en(3, 1, 2), enc='asc', sz=16, ev=1)
    add(en(-3, 1, 2), enc='asc', sz=16, ev=1)
    add(en(3, 1, 2), enc='bcd', sz=8, ev=1)
    add(en(None, None, None, None), ev=1, enc='pos', sz=8, vals=[7, 3, 250, 0])
    add(en(None, None, None, None), ev=1, vals=[7, 3, 250, 100])
    add(en(5, 9, 7), ev=1, vals=[1, 2, 1000], enc='pos', sz=16, le=1)
    add(en(*[None] * 17), enc='pos', sz=5)
    # reals
    add(REAL(rng(-1000.0, 1000.0, k='real')), enc='64')
    add(REAL(), enc='64')
    add(REAL(), enc='64', le=1)
    add(REAL(), enc='64', le=0)
    add(REAL(), enc='32')
    add(REAL(), enc='32', le=1)
    add(REAL(rng(-10.0, 10.0, k='real')), enc='32')
    add(REAL())
    # booleans
    add(BOOL())
    add(BOOL(), tv=[1, 1, 1])
    add(BOOL(), fv=[0, 1])
    add(BOOL(), tv=[0])
    add(BOOL(), tv=[1] * 8)
    add(BOOL(), tv=[1, 0, 1, 1, 0, 1, 1, 1, 1, 0, 1])
    add(BOOL(), tv=[1, 0, 1], fv=[0, 0, 1])
    add(BOOL(), tv=[1, 0, 1, 0, 0, 0, 0, 0, 1, 1, 0, 1], fv=[1, 0, 1, 0, 0, 0, 0, 0, 1, 1, 0, 0])
    add(BOOL(), fv=[0] * 9)
    # null
    add(NULL())
    add(NULL(), pat=[1, 0, 1])
    add(NULL(), pat=[0] * 5 + [1] * 8 + [0, 1])
    add(NULL(), pat=bits([0x1A, 0xCF, 0xFC, 0x1D]), hex=1)
    add(NULL(), pat=[0])
    # strings
    az = frm(('A', 'Z'))
    add(STR(size(4)))
    add(STR(size(4)), asc=1)
    add(STR(size(1, 10)))
    add(STR(size(1, 10)), asc=1)
    add(STR(size(0, 10)), asc=1, term=[0])
    add(STR(size(0, 10), frm((' ', '~'))), asc=1, term=[0xFF])
    add(STR(size(2, 10), frm((' ', '~'))), asc=1, term=[255, 0, 254])
    add(STR(size(2, 10)), asc=1, term=[0, 0])
    add(STR(size(1, 300), frm((' ', '~'))), asc=1, term=[13, 10])
    add(STR(size(1, 20), az))
    add(STR(size(1, 20), az), asc=1)
    add(STR(size(20), az))
    add(STR(size(5), az), asc=1)
    add(STR(size(1, 20), az), asc=1, term=[0])
    add(STR(size(1, 20), az), asc=1, term=[1, 2, 3])
    add(STR(size(0, 12), kind='num'))
    add(STR(size(0, 12), kind='num'), asc=1)
    add(STR(size(0, 3)), asc=1)
    # octet and bit strings
    add(OCT(size(3)))
    add(OCT(size(1, 6)))
    add(OCT(size(0, 300)))
    add(OCT(size(0, 10)), term=bits([0xEE, 0xBB]))
    add(OCT(size(1, 10)), term=bits([0]))
    add(OCT(size(0, 6)), term=bits([0xAB, 0xCD, 0xEF]))
    add(BITS(size(5)))
    add(BITS(size(8)))
    add(BITS(size(0, 20)))
    add(BITS(size(16)))
    add(BITS(size(1, 20)), term=[1, 0, 0, 0, 0, 0, 0, 1])
    add(BITS(size(0, 9)), term=[0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1])
    add(BITS(size(0, 40)), term=bits([0xFF, 0xFF]))
    for al in (8, 16, 32):
        add(BOOL(), al=al)
        add(OCT(size(1, 3)), al=al)
        add(REAL(), enc='32', al=al)
        add(STR(size(1, 3)), asc=1, al=al)
        add(BITS(size(3)), al=al)
        add(en(None, None, None), al=al)
        add(NULL(), pat=[1, 1], al=al)
    return d




def fi(sz=8, enc='pos', **p):
    """an inserted integer"""
    return Fld(nm('f'), ac(R(0, 2 ** sz - 1) if enc == 'pos' else R(-2 ** (sz - 1), 2 ** (sz - 1) - 1) if enc == 'two' else R(0, 10 ** (sz // 4) - 1) if enc == 'bcd' else R(1 - 10 ** (sz // 8 - 1), 10 ** (sz // 8 - 1) - 1) if enc == 'asc' else 0, enc=enc, sz=sz, **p))


def fb(**p):
    return Fld(nm('f'), ac(BOOL(), **p))


def fn(pat, **p):
    return Fld(nm('f'), ac(NULL(), pat=pat, **p))


def at(f, path):
    """the same field, as seen from elsewhere"""
    g = Fld(f.name, f.t, path)
    g.same = f
    return g


def names(t):
    return [c['n'] for c in t['comps']]


def asizes():
    """lengths held by inserted fields"""
    d = {}
    az = frm(('A', 'Z'))

    def add(item, f, *more, al=0, **p):
        t = sq(R(0, 7), ac(item, det=f, **p), BOOL())
        a, b, c = names(t)
        l = [C(a), f, *more, C(b), C(c)]
        d['Z%d' % (len(d) + 1)] = ac(t, ch=l)
    for mk in (lambda: fi(8), lambda: fi(16, le=1), lambda: fi(5), lambda: fi(32), lambda: fi(12, 'bcd'), lambda: fi(8, 'two'), lambda: fi(32, 'asc'), lambda: fi(64, le=0)):
        add(OCT(size(0, 20)), mk())
        add(BITS(size(1, 11)), mk())
        add(STR(size(0, 14)), mk(), asc=1)
        add(STR(size(2, 9), az), mk())
        add(SOF(R(0, 1000), size(0, 12)), mk())
    for item in (OCT(size(10, 15)), BITS(size(3, 10)), SOF(BOOL(), size(2, 7)), SOF(ac(R(-10, 10), enc='two', sz=16, le=1), size(1, 5)), SOF(STR(size(1, 4), az), size(0, 4)),
                 SOF(sq((R(0, 3), 'o'), BOOL()), size(0, 5)), SOF(ac(BOOL(), al=8), size(0, 5)), OCT(size(0, 255)), BITS(size(0, 600)), SOF(R(0, 15), size(0, 300))):
        add(item, fi(16))
    add(STR(size(1, 20)), fi(8))
    add(STR(size(1, 20), frm(('a', 'h'))), fi(6))
    add(STR(size(1, 20), frm(('a', 'h'))), fi(6), asc=1)
    add(OCT(size(0, 9)), fi(4), fn([1, 0, 1, 1]))
    add(OCT(size(1, 9)), fi(8, al=8), al=16)
    # the field after other components, the size far behind it
    for k in range(3):
        f = fi([8, 3, 16][k])
        t = sq(ac(OCT(size(0, 7)), det=f), BOOL(), R(0, 100))
        a, b, c = names(t)
        d['Y%d' % (k + 1)] = ac(t, ch=[[f, C(b), C(c), C(a)], [C(c), f, C(b), C(a)], [C(b), C(c), f, C(a)]][k])
    # one field, two users
    f = fi(8)
    t = sq(ac(OCT(size(0, 7)), det=f), ac(SOF(BOOL(), size(2, 9)), det=f))
    d['W1'] = ac(t, ch=[f] + [C(x) for x in names(t)])
    f, g = fi(8), fi(16, le=1)
    t = sq(ac(OCT(size(0, 7)), det=f), ac(SOF(BOOL(), size(2, 9)), det=g), ac(STR(size(0, 5)), asc=1, det=f))
    a, b, c = names(t)
    d['W2'] = ac(t, ch=[g, C(b), f, C(a), C(c)])
    # deep fields: hdr.len
    f = fi(8)
    h = ac(sq(R(0, 3)))
    h = ac(h, ch=[f, C(names(h)[0])])
    t = SEQ(('hdr', h), ('bdy', OCT(size(0, 9))))
    t['comps'][1]['t'] = ac(t['comps'][1]['t'], det=at(f, 'hdr.' + f.name))
    d['V1'] = t
    f = fi(8)
    h2 = sq(BOOL())
    h2 = ac(h2, ch=[C(names(h2)[0]), f])
    h1 = SEQ(('inn', h2), ('oth', R(0, 9)))
    t = SEQ(('hdr', h1), ('bdy', SOF(R(0, 9), size(1, 9))))
    t['comps'][1]['t'] = ac(t['comps'][1]['t'], det=at(f, 'hdr.inn.' + f.name))
    d['V2'] = t
    # parameters
    f, q = fi(8), Fld('n', INT())
    d['Buf'] = par(ac(OCT(size(0, 9)), det=q), q)
    q2 = Fld('n2', INT())
    d['Lst'] = par(ac(SOF(R(0, 30), size(0, 6)), det=q2), q2)
    t = SEQ(('aa', use(d, 'Buf')), ('bb', use(d, 'Lst')))
    g = fi(8)
    d['U1'] = ac(t, ch=[f, g, C('aa', args=[f]), C('bb', args=[g])])
    t = SEQ(('aa', use(d, 'Buf')), ('bb', use(d, 'Lst')))
    f = fi(8)
    d['U2'] = ac(t, ch=[f, C('aa', args=[f]), C('bb', args=[f])])
    q3, q4 = Fld('p1', INT()), Fld('p2', INT())
    t = SEQ(('aa', use(d, 'Buf')), ('bb', use(d, 'Lst')), ('cc', BOOL()))
    d['Mid'] = par(ac(t, ch=[C('bb', args=[q4]), C('cc'), C('aa', args=[q3])]), q3, q4)
    f, g = fi(8), fi(16)
    d['U3'] = ac(SEQ(('xx', BOOL()), ('mm', use(d, 'Mid'))), ch=[f, g, C('xx'), C('mm', args=[g, f])])
    f = fi(8)
    d['U4'] = ac(SEQ(('xx', SOF(use(d, 'Buf'), size(0, 3)))), ch=[f, C('xx')])
    d['U4']['comps'][0]['t'] = ac(d['U4']['comps'][0]['t'], elargs=[f])
    f = fi(8)
    d['U5'] = ac(SEQ(('xx', CHOICE(('p', use(d, 'Buf')), ('q', BOOL()), ('r', use(d, 'Lst'))))), ch=[f, C('xx')])
    d['U5']['comps'][0]['t'] = ac(d['U5']['comps'][0]['t'], altargs={'p': [f], 'r': [f]})
    # within elements
    f = fi(8)
    e = sq(ac(OCT(size(0, 4)), det=f))
    e = ac(e, ch=[f, C(names(e)[0])])
    d['T1'] = SOF(e, size(1, 3))
    f = fi(8)
    e = sq(ac(OCT(size(0, 4)), det=f))
    e = ac(e, ch=[f, C(names(e)[0])])
    d['Elm'] = e
    d['T2'] = sq(SOF(use(d, 'Elm'), size(0, 3)), (use(d, 'Elm'), 'o'), BOOL())
    # milbus
    f = fi(5, mf='milbus')
    t = sq(ac(OCT(size(1, 32)), det=f))
    d['M1'] = ac(t, ch=[f, C(names(t)[0])])
    # lengths that are of a type of the schema
    d['Len9'] = R(0, 9)
    d['Len5'] = R(2, 5)
    d['LenX'] = ac(R(0, 31), enc='pos', sz=8)
    d['LenS'] = R(-5, 12)
    i = 0
    for ref, q in (('Len9', {}), ('Len9', dict(enc='pos', sz=8)), ('Len9', dict(enc='asc', sz=8 * 3)), ('Len5', {}), ('Len5', dict(enc='pos', sz=16, le=1)), ('LenX', {}), ('LenX', dict(enc='bcd', sz=8)), ('LenS', dict(enc='two', sz=8)), ('LenS', {})):
        m = q.get('enc', d[ref].get('ap', {}).get('enc'))
        lo, hi = (0, 31) if m and ref != 'LenS' else (0, 9) if ref == 'Len9' else (2, 5) if ref == 'Len5' else (0, 31) if ref == 'LenX' else (0, 12)
        for item in (OCT(size(lo, min(hi, 9))), BITS(size(lo, hi)), SOF(BOOL(), size(max(lo, 1), min(hi, 9))), STR(size(lo, hi), az), STR(size(lo, min(hi, 9)))):
            i += 1
            f = Fld(nm('f'), use(d, ref))
            if q:
                f.t = ac(f.t, **q)
            t = sq(ac(item, det=f, **({'asc': 1} if i % 10 == 5 else {})), BOOL())
            d['X%d' % i] = ac(t, ch=[f] + [C(x) for x in names(t)])
    f = fi(5, mf='milbus')
    t = sq(ac(OCT(size(1, 31)), det=f), BOOL())
    d['M2'] = ac(t, ch=[f] + [C(x) for x in names(t)])
    # terminators of lists
    d['N1'] = ac(SOF(ac(R(0, 250), enc='pos', sz=8), size(0, 9)), term=bits([255]))
    d['N2'] = ac(SOF(ac(R(0, 7), enc='pos', sz=4), size(2, 6)), term=[1, 1, 1, 1, 0, 1])
    d['N3'] = ac(SOF(sq(ac(R(0, 250), enc='pos', sz=8), ac(BOOL(), tv=bits([1]), fv=bits([0]))), size(0, 4)), term=bits([0xFE, 0xED]))
    return d




def kinds(d, name, names_, *nums, **p):
    """a named enumeration with the given item names"""
    d[name] = ac(ENUM([n if v is None else (n, v) for n, v in zip(names_, nums or [None] * len(names_))]), **p)
    return name


def achoices():
    d = {}
    # the alternative is told by an enumeration in front
    kinds(d, 'Kd1', ['aa', 'bb', 'cc'])
    kinds(d, 'Kd2', ['aa', 'bb', 'cc'], 5, 3, 9, enc='pos', sz=8, ev=1)
    kinds(d, 'Kd3', ['aa', 'bb', 'cc'], -5, 3, 200, enc='two', sz=16, le=1, ev=1)
    kinds(d, 'Kd4', ['aa', 'bb', 'cc'], enc='pos', sz=3)
    kinds(d, 'Kd5', ['aa', 'dd', 'bb', 'cc'], 1, 2, 4, 8, enc='pos', sz=8, ev=1)

    def alts(*ts):
        return CHOICE(*zip(['aa', 'bb', 'cc', 'ee', 'ff'], ts))
    i = 0
    for kd in ('Kd1', 'Kd2', 'Kd3', 'Kd4'):
        for ts in ((R(0, 10), BOOL(), OCT(size(0, 4))), (NULL(), sq(BOOL(), (R(0, 3), 'o')), STR(size(1, 5), frm(('a', 'z'))))):
            i += 1
            f = Fld(nm('f'), use(d, kd))
            t = SEQ(('xx', R(0, 3)), ('bd', ac(alts(*ts), det=f)))
            d['C%d' % i] = ac(t, ch=[[f, C('xx'), C('bd')], [C('xx'), f, C('bd')]][i % 2])
    f = Fld(nm('f'), ac(use(d, 'Kd1'), enc='pos', sz=8))
    d['C20'] = ac(SEQ(('bd', ac(alts(BOOL(), R(0, 7), R(0, 9)), det=f))), ch=[f, C('bd')])
    # two choices told by one field, a choice within a choice
    f = Fld(nm('f'), use(d, 'Kd2'))
    d['C21'] = ac(SEQ(('b1', ac(alts(BOOL(), R(0, 7), NULL()), det=f)), ('b2', ac(alts(R(0, 9), NULL(), OCT(size(2))), det=f))), ch=[f, C('b1'), C('b2')])
    f = Fld(nm('f'), use(d, 'Kd2'))
    d['C22'] = ac(SEQ(('b1', (ac(alts(BOOL(), R(0, 7), NULL()), det=f), 'o')[0]), ('b2', ac(alts(R(0, 9), NULL(), OCT(size(2))), det=f), 'o')), ch=[f, C('b1'), C('b2')])
    # passed as a parameter
    q = Fld('k', use(d, 'Kd2'))
    d['Chq'] = par(ac(alts(BOOL(), R(0, 7), OCT(size(0, 3))), det=q), q)
    f = Fld(nm('f'), use(d, 'Kd2'))
    d['C23'] = ac(SEQ(('xx', BOOL()), ('bd', use(d, 'Chq'))), ch=[f, C('xx'), C('bd', args=[f])])
    f, g = Fld(nm('f'), use(d, 'Kd2')), fb()
    d['C24'] = ac(SEQ(('xx', BOOL()), ('bd', use(d, 'Chq'), 'o')), ch=[f, g, C('xx'), C('bd', pw=g, args=[f])])
    q, q2 = Fld('k', use(d, 'Kd3')), Fld('n', INT())
    d['Chr'] = par(ac(SEQ(('xx', R(0, 9)), ('bd', ac(alts(BOOL(), ac(OCT(size(0, 8)), det=q2), R(0, 300)), det=q))), ch=[C('bd'), C('xx')]), q, q2)
    f, g = Fld(nm('f'), use(d, 'Kd3')), fi(8)
    d['C25'] = ac(SEQ(('bdy', use(d, 'Chr'))), ch=[g, f, C('bdy', args=[f, g])])
    # deep
    f = Fld(nm('f'), use(d, 'Kd2'))
    h = ac(SEQ(('vv', R(0, 3))), ch=[f, C('vv')])
    d['C26'] = SEQ(('hdr', h), ('bd', ac(alts(BOOL(), R(0, 7), OCT(size(0, 3))), det=at(f, 'hdr.' + f.name))))
    # three users, some of which may be absent
    for i, o in enumerate(((0, 1, 1), (1, 0, 1), (1, 1, 0), (1, 1, 1))):
        f = Fld(nm('f'), use(d, 'Kd1'))
        ts = [ac(alts(*x), det=f) for x in ((BOOL(), R(0, 7), NULL()), (R(0, 9), NULL(), OCT(size(2))), (NULL(), BOOL(), BOOL()))]
        d['D%d' % (i + 1)] = ac(SEQ(*[(n, t) + (('o',) if q else ()) for n, t, q in zip(('b1', 'b2', 'b3'), ts, o)]), ch=[f, C('b1'), C('b2'), C('b3')])
    # in a list
    f = Fld(nm('f'), use(d, 'Kd2'))
    d['C27'] = SOF(ac(SEQ(('bd', ac(alts(BOOL(), R(0, 7), OCT(size(0, 3))), det=f))), ch=[f, C('bd')]), size(0, 4))

    # present-when
    def pws(mk, vals, ts, more=None, al=None):
        f = mk()
        fs = [f] + ([more] if more else [])
        c = alts(*ts)
        c = ac(c, pw=[[(g, x) for g, x in zip(fs, v if isinstance(v, tuple) else (v,))] for v in vals])
        t = SEQ(('xx', R(0, 3)), ('bd', c))
        d['P%d' % (1 + len([n for n in d if n[0] == 'P']))] = ac(t, ch=fs + [C('xx'), C('bd')])
    ts = (R(0, 10), BOOL(), OCT(size(0, 4)))
    pws(lambda: fi(8), (1, 2, 3), ts)
    pws(lambda: fi(8), (200, 0, 17), ts)
    pws(lambda: fi(3), (7, 1, 4), ts)
    pws(lambda: fi(16, le=1), (1000, 2, 40000), ts)
    pws(lambda: fi(16, 'two'), (1000, 2, 1), ts)
    pws(lambda: fi(12, 'bcd'), (999, 2, 41), ts)
    pws(lambda: fi(24, 'asc'), (99, 2, 41), ts)
    pws(lambda: fi(64), (2 ** 40, 2, 2 ** 33 + 2), ts)
    pws(lambda: fi(32), (2 ** 32 - 1, 2, 2 ** 31), ts)
    pws(lambda: fi(8), ((1, 1), (1, 2), (2, 1)), ts, fi(16))
    pws(lambda: fi(8), ((17, 1), (20, 1), (20, 3)), (BOOL(), R(0, 3), NULL()), fi(5))
    d['Nm3'] = ac(STR(size(3)), asc=1)
    d['Nm0'] = ac(STR(size(1, 9)), asc=1, term=[0])
    d['Nmv'] = STR(size(1, 9), frm(('a', 'z')))
    for n, vs in (('Nm3', ('abc', 'abd', 'xyz')), ('Nm0', ('a', 'ab', 'ba')), ('Nm0', ('one', 'two', 'onetwo')), ('Nmv', ('p', 'pq', 'zzzzzz'))):
        pws(lambda: Fld(nm('f'), use(d, n)), vs, ts)
    # own index, properties inside
    d['O1'] = alts(ac(R(0, 10), enc='pos', sz=16), ac(BOOL(), tv=[1, 1], al=8), ac(STR(size(0, 5)), asc=1, term=[0]))
    d['O2'] = SOF(alts(ac(R(0, 10), enc='pos', sz=16), ac(BOOL(), tv=[1, 1]), NULL()), size(1, 5))
    d['O3'] = ac(alts(BOOL(), R(0, 9)), al=8)
    d['O4'] = sq(R(0, 1), ac(alts(BOOL(), R(0, 9)), al=16), R(0, 1))
    return {n: numbered(t) for n, t in d.items()}


def apresence():
    d = {}
    i = 0
    for mk in (lambda: fb(), lambda: fb(tv=bits([0xA5])), lambda: fb(fv=[0, 1, 1]), lambda: fb(al=8), lambda: fb(tv=[1, 0], fv=[1, 1])):
        for t1 in (R(0, 9), OCT(size(0, 3)), sq(BOOL(), (R(0, 3), 'o')), ac(R(0, 9), enc='pos', sz=16, le=1), ch(BOOL(), R(0, 9))):
            i += 1
            f = mk()
            t = SEQ(('aa', R(0, 1)), ('bb', t1, 'o'), ('cc', BOOL()), ('dd', R(0, 7), 'o'))
            d['A%d' % i] = ac(t, ch=[[f, C('aa'), C('bb', pw=f), C('cc'), C('dd')], [C('dd'), C('aa'), f, C('cc'), C('bb', pw=f)], [C('aa'), f, C('bb', pw=f), C('dd'), C('cc')]][i % 3])
    f, g = fb(), fb()
    d['B1'] = ac(SEQ(('aa', R(0, 1), 'o'), ('bb', R(0, 30), 'o'), ('cc', BOOL(), 'o')), ch=[f, g, C('aa', pw=g), C('bb', pw=f), C('cc')])
    f = fb()
    d['B2'] = ac(SEQ(('aa', R(0, 1), 'o'), ('bb', R(0, 30), 'o'), ('cc', BOOL(), 'o')), ch=[f, C('aa', pw=f), C('bb', pw=f), C('cc')])
    # the presence of a component and its length in fields
    f, g = fb(), fi(8)
    d['B3'] = ac(SEQ(('aa', ac(OCT(size(0, 5)), det=g), 'o'), ('bb', BOOL())), ch=[f, g, C('bb'), C('aa', pw=f)])
    g = fi(8)
    d['B4'] = ac(SEQ(('aa', ac(OCT(size(0, 5)), det=g), 'o'), ('bb', BOOL())), ch=[g, C('bb'), C('aa')])
    # with a default
    f = fb()
    d['B5'] = ac(SEQ(('aa', R(0, 9), ('d', 3)), ('bb', BOOL())), ch=[f, C('bb'), C('aa', pw=f)])
    # deep, parameters
    f = fb()
    h = ac(SEQ(('vv', R(0, 3))), ch=[f, C('vv')])
    t = SEQ(('hdr', h), ('bd', R(0, 300), 'o'))
    d['B6'] = ac(t, ch=[C('hdr'), C('bd', pw=at(f, 'hdr.' + f.name))])
    q = Fld('p', BOOL())
    d['Opq'] = par(ac(SEQ(('xx', R(0, 9), 'o'), ('yy', BOOL())), ch=[C('yy'), C('xx', pw=q)]), q)
    f = fb()
    d['B7'] = ac(SEQ(('mm', use(d, 'Opq')), ('nn', BOOL())), ch=[f, C('nn'), C('mm', args=[f])])
    f = fb(tv=[1, 1])
    d['B8'] = ac(SEQ(('mm', use(d, 'Opq')), ('nn', R(0, 99), 'o')), ch=[f, C('nn', pw=f), C('mm', args=[f])])
    # in lists
    f = fb()
    d['B9'] = SOF(ac(SEQ(('xx', R(0, 9), 'o'), ('yy', BOOL())), ch=[C('yy'), f, C('xx', pw=f)]), size(0, 4))
    # expressions
    F = lambda n: ('f', n)
    es = [('<', F('aa'), 10), ('==', F('aa'), 3), ('!=', F('aa'), 3), ('>=', F('aa'), 250), ('<=', F('aa'), 0), ('>', F('aa'), F('bb')),
          ('and', ('<', F('aa'), 10), ('==', ('%', F('aa'), 2), 0)), ('or', ('==', F('aa'), 7), ('>', F('bb'), 90)),
          ('==', ('+', F('aa'), F('bb')), 100), ('>', ('*', F('aa'), 2), F('bb')), ('<', ('-', F('aa'), 5), F('bb')),
          ('or', ('and', ('<', F('aa'), 10), ('==', ('%', F('aa'), 2), 0)), ('and', ('>=', F('aa'), 10), ('<=', F('aa'), 14)))]
    for j, e in enumerate(es):
        t = SEQ(('aa', R(0, 255)), ('bb', R(0, 100)), ('cc', R(0, 7), 'o'))
        d['E%d' % (j + 1)] = ac(t, ch=[C('aa'), C('bb'), C('cc', px=e)])
    # inserted constants and alignment
    d['F1'] = ac(SEQ(('aa', R(0, 3)), ('bb', BOOL())), ch=[fn(bits([0xEB, 0x90]), hex=1), C('bb'), fn([1]), C('aa'), fn([0, 0, 1])])
    d['F2'] = ac(SEQ(('aa', R(0, 3)), ('bb', BOOL(), 'o'), ('cc', OCT(size(1, 3)))), ch=[C('cc'), fn([1, 0], al=8), C('bb'), fn([0, 0, 0, 0, 0, 0, 0, 1], al=16), C('aa')])
    d['F3'] = ac(SEQ(('aa', ac(R(0, 3), al=8)), ('bb', ac(BOOL(), al=16)), ('cc', ac(OCT(size(1, 3)), al=32), 'o')), ch=[C('bb'), C('aa'), C('cc')])
    d['F4'] = SOF(ac(SEQ(('aa', R(0, 3)), ('bb', ac(BOOL(), al=8))), al=16), size(1, 4))
    d['F5'] = ac(SEQ(('aa', R(0, 3)), ('bb', R(0, 9)), ('cc', R(0, 300)), ('dd', BOOL())), ch=['dd', 'cc', 'bb', 'aa'])
    d['F6'] = ac(SEQ(('aa', R(0, 3), 'o'), ('bb', R(0, 9), 'o'), ('cc', R(0, 300)), ('dd', BOOL(), ('d', 1))), ch=['dd', 'cc', 'bb', 'aa'])
    return d



# ------------------------------------------------------------- random ones
def rleaf(r):
    az = frm(('a', 'z'))
    w = r.choice([3, 5, 8, 12, 16, 24, 32, 40, 64])
    al = dict(al=r.choice([8, 16, 32])) if r.random() < .15 else {}
    le = dict(le=r.randrange(2)) if w in (16, 32, 64) and r.random() < .5 else {}
    m = r.randrange(14)
    if m == 0:
        return ac(R(0, r.choice([1, 7, 100, 2 ** w - 1]) if w > 8 else 2 ** w - 1), enc='pos', sz=w, **al, **le)
    if m == 1:
        h = r.choice([3, 2 ** (w - 1)])
        return ac(R(-h, h - 1), enc='two', sz=w, **al, **le)
    if m == 2:
        n = r.choice([1, 2, 4, 7])
        return ac(R(0, 10 ** n - 1), enc='bcd', sz=r.choice([4 * n, 4 * n + 8, 0]), **al)
    if m == 3:
        n = r.choice([1, 3, 6])
        return ac(R(r.choice([0, 1 - 10 ** n]), 10 ** n - 1), **(dict(enc='asc', sz=8 * n + 8) if r.random() < .5 else dict(enc='asc', sz=0, term=r.choice([[0], [13, 10], [255, 1, 254]]))), **al)
    if m == 4:
        return ac(BOOL(), **r.choice([{}, dict(tv=[1, 0, 1]), dict(fv=[0] * 8), dict(tv=bits([0xA5, 0xF0])), dict(tv=[1, 1], fv=[0, 1])]), **al)
    if m == 5:
        z = size(r.choice([0, 1]), r.choice([2, 7]))       # (a terminator may not belong to the alphabet)
        return ac(STR(z), **r.choice([{}, dict(asc=1)]), **al) if r.random() < .3 else ac(STR(z, az), **r.choice([{}, dict(asc=1), dict(asc=1, term=[0]), dict(asc=1, term=[1, 2])]), **al)
    if m == 6:
        return ac(OCT(size(0, r.choice([1, 5]))), **r.choice([{}, {}, dict(term=bits([0xEE, 0xBB]))]), **al)
    if m == 7:
        return ac(BITS(size(r.choice([0, 3]), r.choice([3, 11]))), **al)
    if m == 8:
        return ac(REAL(), enc=r.choice(['32', '64']), **(dict(le=r.randrange(2)) if r.random() < .5 else {}), **al)
    if m == 9:
        return ac(en(*[None] * r.choice([2, 3, 9])), **r.choice([{}, dict(enc='pos', sz=8), dict(enc='pos', sz=16, le=1), dict(ev=1, enc='pos', sz=4)]), **al)
    if m == 10:
        return ac(en(5, -3, 100), ev=1, **r.choice([{}, dict(enc='two', sz=8), dict(enc='two', sz=16, le=1)]), **al)
    if m == 11:
        return R(r.choice([0, -5]), r.choice([0, 5, 300]))
    if m == 12:
        return BOOL()
    return ac(R(0, 9), **al)


def rlen(r, hi):
    """a field that can hold the lengths 0..hi"""
    m = r.randrange(8)
    return (fi(16, le=1) if m == 0 else fi(8, 'bcd') if m == 1 and hi < 100 else fi(24, 'asc') if m == 2 and hi < 100 else fi(4) if m == 3 and hi < 16
            else fi(8, 'two') if m == 4 and hi < 128 else fi(32) if m == 5 else fi(8, al=8) if m == 6 else fi(8))


def rkind(r, d, n):
    v = r.choice([[None] * n, r.sample(range(1, 100), n)])
    return kinds(d, nm('Kq'), ['aa', 'bb', 'cc', 'dd'][:n], *v, **r.choice([{}, dict(enc='pos', sz=8), dict(enc='pos', sz=8, ev=1), dict(enc='pos', sz=16, le=1, ev=1)]))


def rseq(r, d, depth, outer):
    """a sequence with fields; outer: fields in scope as (kind, field, bound, path to write)"""
    n = r.choice([1, 2, 3, 4])
    comps, order, scope = [], [], []       # scope: what later components may refer to

    def field(kind, mk, bound=None, use_old=.35):
        old = [x for x in scope if x[0] == kind and x[2] == bound]
        if old and r.random() < use_old:
            x = r.choice(old)
            return x[1]
        f = mk()
        order.insert(r.randint(0, len(order)), f)
        scope.append((kind, f, bound))
        return f
    for _ in range(n):
        name, m, opt, pw, px = nm('c'), r.randrange(9 if depth else 5), 'm', None, None
        if m <= 1:
            t = rleaf(r)
        elif m == 2:
            hi = r.choice([2, 2, 5, 12])
            f = field('len', lambda: rlen(r, hi), hi)
            t = ac(r.choice([lambda: OCT(size(0, hi)), lambda: BITS(size(0, hi)), lambda: STR(size(0, hi), frm(('a', 'p'))), lambda: SOF(BOOL(), size(0, hi))])(), det=f)
            if t['k'] == 'str' and r.random() < .5:
                t = ac(t, asc=1)
        elif m == 3:
            q = r.choice([2, 3, 4])
            a = [rleaf(r) for _ in range(q)]
            if r.random() < .4:
                a[r.randrange(q)] = NULL()
            c = CHOICE(*zip(['aa', 'bb', 'cc', 'dd'], a))
            z = r.random()
            if z < .5:
                f = field('kind', lambda: Fld(nm('f'), use(d, rkind(r, d, q))), q)
                t = ac(c, det=f)
            elif z < .8:
                w = r.choice([3, 8, 16])
                vs = r.sample(range(2 ** w), q)
                f = field('pres', lambda: fi(w), None, 0)
                t = ac(c, pw=[[(f, v)] for v in vs])
            else:
                t = c
        elif m == 4:
            t = SOF(rleaf(r), size(r.choice([0, 1]), r.choice([2, 4])))
        elif m <= 6:
            t, inner = rseq(r, d, depth - 1, scope)
            for k, f, b in inner:           # fields within the component may be used by later ones
                if r.random() < .7:
                    g = at(getattr(f, 'same', f), name + '.' + f.path)
                    deep.append((k, g, b))
        elif m == 7:
            e, _ = rseq(r, d, depth - 1, [])
            hi = r.choice([2, 3])
            t = SOF(e, size(0, hi))
            if r.random() < .6:
                t = ac(t, det=field('len', lambda: rlen(r, hi), hi))
        else:
            t = SOF(rleaf(r), size(0, 3))
            t = ac(t, det=field('len', lambda: rlen(r, 3), 3))
        if r.random() < .35:
            opt = 'o'
            if r.random() < .6:
                pw = field('bool', lambda: fb(**r.choice([{}, dict(tv=[1, 1]), dict(tv=bits([0x5A])), dict(al=8)])))
        comps.append((name, t) + (('o',) if opt == 'o' else ()))
        order.append(C(name, pw=pw))
        if opt == 'm':
            scope += [x for x in deep]
        deep.clear()
    return ac(SEQ(*comps), ch=order), scope


deep = []


def arandoms(r, n):
    d = {}
    for i in range(n):
        t, _ = rseq(r, d, r.choice([1, 2, 2]), [])
        d['Rq%d' % (i + 1)] = t
    return {k: numbered(t) for k, t in d.items()}


CATALOGUE = ['aints', 'aleaf', 'asizes', 'achoices', 'apresence']
