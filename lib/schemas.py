"""The schemas the compiler is tried on: a catalogue of shapes plus random ones."""
from asn import *
from valgen import U_MAX, S_MIN, S_MAX
import random

_n = [0]


def nm(p):
    _n[0] += 1
    return '%s%d' % (p, _n[0])


def en(*a, con=()):
    """enumerated with fresh names; a: None or a number per item"""
    return ENUM([nm('en') if x is None else (nm('en'), x) for x in a], *con)


def sq(*a, con=(), set=False):
    return SEQ(*[(nm('c'),) + (x if isinstance(x, tuple) else (x,)) for x in a], con=con, set=set)


def ch(*a, con=(), tags=()):
    return CHOICE(*[(nm('x'), x) for x in a], con=con, tags=tags)


def ints():
    d = {}

    def add(*con):
        d['I%d' % (len(d) + 1)] = INT(*con)
    for w in list(range(0, 20)) + [23, 24, 25, 31, 32, 33, 39, 40, 47, 48, 55, 56, 62, 63]:
        add(rng(0, 2 ** w - 1))
    for lo, hi in [(0, 2 ** 16), (0, 2 ** 32), (1, 2 ** 32), (5, 5), (-5, -5), (-1, 0), (-128, 127), (-129, 127), (-32768, 32767), (-2 ** 31, 2 ** 31 - 1),
                   (-2 ** 31, 2 ** 31), (S_MIN, S_MAX), (S_MIN, 0), (S_MIN, -1), (0, U_MAX), (1, U_MAX), (2 ** 63, U_MAX), (0, S_MAX), (-1, S_MAX),
                   (1000, 1063), (1000, 1064), (-1000, -900), (2 ** 62, 2 ** 62 + 6), (-2 ** 40, -2 ** 40 + 300)]:
        add(rng(lo, hi))
    for lo, hi in [(None, None), (None, 7), (None, -1), (0, None), (1, None), (-1, None), (300, None), (-2 ** 33, None), (2 ** 40, None), (None, 2 ** 50), (S_MIN, None), (None, S_MAX)]:
        add(rng(lo, hi))
    add()
    add(Or(rng(1, 4), rng(10, 20)), rng(2, 15))
    add(Or(val(1), val(2), val(3), val(68719476736)))
    add(Ax(val(5)))
    add(Exc(rng(0, 100), Or(rng(20, 30), val(50))))
    add(rng(0, 10, 1, 1))
    add(rng(-10, 10, 1, 0))
    add(rng(0, None), rng(None, 50))
    add(And(rng(0, 50), rng(20, 70)))
    add(Or(rng(0, 10), rng(20, None)))
    add(Or(rng(None, -10), rng(20, 25)))
    add(rng(-100, 100), Or(rng(-3, 3), val(99)), rng(0, 99))
    add(Exc(And(rng(0, 255), rng(16, 300)), val(100)))
    add(Or(And(rng(0, 10), rng(5, 20)), rng(30, 40)))
    add(Ext(rng(0, 10)))
    add(Ext(rng(-5, 1000)))
    return d


def simple():
    d = {}
    d['B1'] = BOOL()
    d['N1'] = sq(NULL())
    d['R1'] = REAL()
    d['R2'] = REAL(rng(-1.5, 2.25, k='real'))
    d['R3'] = REAL(rng(0.5, None, 1, 0, k='real'))
    d['R4'] = REAL(rng(None, 1048576.0, 0, 1, k='real'))
    d['R5'] = REAL(Or(val(1.0, 'real'), rng(10.0, 20.0, k='real')))
    d['E1'] = en(None, None, None)
    d['E2'] = en(5, None, 0, None)
    d['E3'] = en(-3, 200, 7)
    d['E4'] = en(None)
    d['E5'] = en(*[None] * 17)
    d['E6'] = en(1000, 1, 100, 10)
    d['E7'] = en(None, 1, None, 0)
    e = en(*[None] * 6)
    d['E8'] = dict(e, con=[Or(val(1, 'e'), val(4, 'e'), val(5, 'e'))])
    d['Oi1'] = OID()
    d['Oi2'] = OID(rel=True)
    for lo, hi in [(0, 0), (1, 1), (2, 2), (3, 3), (0, 1), (0, 3), (1, 4), (0, 7), (0, 8), (0, 255), (0, 256), (4, 260), (7, 7)]:
        d['Oc%d-%d' % (lo, hi)] = OCT(size(lo, hi))
        d['Bs%d-%d' % (lo, hi)] = BITS(size(lo, hi))
    d['Oc8'] = OCT(size(Or(rng(1, 3), val(5))))
    d['Bs8'] = BITS(size(Or(rng(1, 3), val(9))))
    d['Oc9'] = OCT(size(1, 20), size(5, 30))
    d['Bs9'] = BITS(size(16, 16))
    d['Bs10'] = BITS(size(17, 17))
    d['Oc10'] = OCT(size(Exc(rng(0, 10), val(5))))
    return d


def names():
    """names that are parts of each other, or of what the generated code calls its own"""
    d = {}
    i = INT(rng(0, 200))
    own = ['a', 'ab', 'a-b', 'abc', 'ret', 'kind', 'u', 'arr', 'pVal', 'i1', 'val', 'err', 'pErrCode', 'bitStrm', 'nBits', 'x', 'xy', 'ok', 'tmp', 'value', 'size', 'length', 'nCount', 'i', 'cid', 'true1']
    d['Nm1'] = SEQ(*[(n, i, 'o') for n in own])
    d['Nm2'] = SEQ(*[(n, BOOL(), ('d', True)) for n in own[::-1]])
    d['Nm3'] = CHOICE(*[('z' + n, i) for n in own])
    d['Nm4'] = ENUM(['r', 're', 'red', 'r-e', 'none', 'false1', 'green', 'gree'])
    d['Nm5'] = ENUM([('k', 3), ('kk', 0), ('kkk', 300)])
    d['Nm6'] = SEQ(('a', SEQ(('a', SEQ(('a', i), ('ab', i, 'o')), 'o'), ('ab', i, 'o')), 'o'), ('ab', CHOICE(('q', i), ('qq', SEQ(('a', i)))), 'o'))
    d['Nm7'] = SOF(CHOICE(('b', SOF(BOOL(), size(0, 3))), ('bb', BOOL()), ('bbb', ENUM(['b4', 'b44']))), size(0, 4))
    return d


def strings():
    d = {}
    for lo, hi in [(0, 0), (1, 1), (0, 1), (1, 4), (0, 10), (5, 5), (0, 63), (0, 64), (2, 300)]:
        d['S%d-%d' % (lo, hi)] = STR(size(lo, hi))
        d['Nu%d-%d' % (lo, hi)] = STR(size(lo, hi), kind='num')
    al = [('A',), ('AB',), ('ABC',), ('ABCDE',), (('A', 'H'),), (('A', 'I'),), (('A', 'Z'),), (('a', 'z'), ' '), (('A', 'P'),), (('A', 'Q'),),
          (('A', 'Z'), ('a', 'f')), (('A', 'Z'), ('a', 'f'), '0'), (('0', '9'), 'xyz'), ('zyx',), (('A', 'Z'), ('a', 'z'), ('0', '9'), ' '), (('a', 'z'), ('A', 'Z'), ('0', '9'), ' .')]
    for i, a in enumerate(al):
        d['Fr%d' % (i + 1)] = STR(size(0, 6), frm(*a))
        d['Ff%d' % (i + 1)] = STR(frm(*a), size(3))
    d['Nf1'] = STR(size(0, 5), frm(('0', '7')), kind='num')
    d['Nf2'] = STR(size(1, 5), frm(('5', '9'), ' '), kind='num')
    d['Sa'] = STR(And(size(1, 5), frm(('A', 'D'))))
    d['Sb'] = STR(size(0, 8), frm(('A', 'Z')), frm(('M', 'T'), 'xyz'))
    d['Sc'] = STR(size(0, 8), {'o': 'from', 'a': Exc(rng(ord('a'), ord('z'), k='chr'), {'o': 'val', 'v': [ord('e'), ord('i')]})})
    return d


def wide():
    """alphabets of more than 64 characters whose codes fit the width: X.691 30.5.4"""
    d = {'W1': STR(size(1, 4), frm(('A', 'Z'), ('a', 'z'), ('0', '9'), (' ', '/'))),
         'W2': STR(size(0, 3), frm((' ', '~')))}
    for t in d.values():    # what asn1scc does instead: always the index
        t['alt'] = dict(t, ix=1)
    return d


def quirks():
    """shapes with which something is known to be wrong"""
    d = {}
    d['Vo'] = OCT(size(0, 20))
    d['Fo'] = use(d, 'Vo', size(3))
    d['Vl'] = SOF(R(0, 7), size(1, 5))
    d['Fl'] = use(d, 'Vl', size(2))
    d['Vb'] = BITS(size(0, 20))
    d['Fb'] = use(d, 'Vb', size(3))
    d['Fs'] = sq(use(d, 'Fo'), BOOL())
    return d


def composite():
    d = {}
    d['Q1'] = sq(R(0, 3), BOOL(), R(0, 255))
    d['Q2'] = sq((R(0, 3), 'o'), (BOOL(), 'o'), (R(0, 255), 'o'))
    d['Q3'] = sq(R(0, 7), (sq((R(0, 3), 'o'), BOOL()), 'o'), (R(-4, 3), 'o'))
    d['Q4'] = sq((R(0, 10), ('d', 3)), (BOOL(), ('d', True)), (STR(size(0, 3)), ('d', [97, 98])), (OCT(size(0, 2)), ('d', [0xAB])), (INT(), ('d', -7)))
    e = en(None, None, 7)
    d['Q5'] = sq((e, ('d', 2)), (BITS(size(0, 5)), ('d', [1, 0, 1])), (REAL(), ('d', 2.5)), (R(0, U_MAX), ('d', 2 ** 63)), (SOF(R(0, 9), size(0, 3)), ('d', [1, 2])))
    d['Q6'] = sq(NULL(), (NULL(), 'o'), (BOOL(), 'o'))
    d['Q7'] = SEQ()
    d['Q8'] = sq(*[(BOOL(), 'o') for _ in range(9)])
    d['Q9'] = sq(OCT(size(0, 3)), (OCT(size(2)), 'o'), BITS(size(0, 9)), STR(size(0, 4)), STR(size(2), frm('AB'), ))
    d['Q10'] = sq(INT(), (INT(rng(0, None)), 'o'), REAL(), (R(S_MIN, S_MAX), 'o'))
    d['C1'] = ch(R(0, 3), BOOL())
    d['C2'] = ch(R(5, 5), NULL(), sq(R(0, 3), (BOOL(), 'o')), OCT(size(0, 2)), REAL())
    d['C3'] = ch(BOOL())
    d['C4'] = ch(*[R(0, i) for i in range(1, 18)])
    d['C5'] = ch(ch(BOOL(), R(0, 7)), ch(NULL(), STR(size(0, 3))), sq((ch(BOOL(), NULL()), 'o')))
    d['L1'] = SOF(R(0, 100), size(1, 3))
    d['L2'] = SOF(BOOL(), size(0, 5))
    d['L3'] = SOF(SOF(R(0, 3), size(0, 2)), size(2))
    d['L4'] = SOF(sq(BOOL(), (R(0, 15), 'o')), size(0, 4))
    d['L5'] = SOF(ch(BOOL(), R(0, 15), SOF(BOOL(), size(0, 2))), size(1, 3))
    d['L6'] = SOF(R(0, 1), size(0, 300))
    d['L7'] = SOF(STR(size(0, 2), frm('xyz')), size(0, 3))
    d['L8'] = SOF(OCT(size(0, 2)), size(Or(val(1), rng(3, 4))))
    d['L9'] = SOF(BITS(size(1, 3)), size(3), set=True)
    d['L10'] = SOF(en(None, 9, 4), size(0, 4))
    d['L11'] = SOF(NULL(), size(0, 3))
    d['L12'] = SOF(REAL(rng(0.0, 1.0, k='real')), size(0, 2))
    d['T1'] = sq(R(0, 3), (BOOL(), 'o'), set=True)
    d['Id1'] = sq(OID(), (OID(rel=True), 'o'))
    # references and further constraints
    d['P1'] = INT(rng(0, 100))
    d['P2'] = use(d, 'P1', rng(10, 20))
    d['P3'] = STR(size(0, 10), frm(('A', 'Z')))
    d['P4'] = use(d, 'P3', size(2, 4))
    d['P5'] = use(d, 'P4', frm('ABCD'))
    d['P6'] = use(d, 'L1', size(2, 3))
    d['P7'] = sq(use(d, 'P1'), (use(d, 'P2'), 'o'), use(d, 'P1', rng(0, 1)), use(d, 'P5'), (use(d, 'Q1'), 'o'), use(d, 'C1'))
    d['P8'] = SOF(use(d, 'P1', rng(50, 60)), size(0, 3))
    d['P9'] = OCT(size(0, 20))
    d['P10'] = use(d, 'P9', size(3, 7))
    d['P11'] = sq(use(d, 'P10'), use(d, 'P9', size(0, 1)))
    d['P12'] = use(d, 'L1', elem(rng(5, 20)))
    d['P13'] = SOF(R(0, 100), And(size(0, 3), elem(Or(rng(5, 20), val(40)))))
    d['P14'] = ch(use(d, 'P1'), use(d, 'P6'), use(d, 'P7'))
    # WITH COMPONENTS
    d['V1'] = sq((R(0, 15), 'o'), R(0, 100), con=[Or(wcs((1, 'p', [rng(4, 12)])), wcs((1, 'a', []), (2, '', [val(7)])))])
    d['V2'] = sq((R(0, 15), 'o'), (R(0, 100), 'o'), (BOOL(), 'o'), con=[wcs((1, 'p', []), (3, 'a', []))])
    d['V3'] = use(d, 'Q2', wcs((2, 'p', []), (1, '', [rng(1, 2)])))
    d['V4'] = use(d, 'C2', wcs((2, 'a', []), (4, 'a', [])))
    d['V5'] = use(d, 'C1', wcs((1, 'p', [rng(1, 2)])))
    d['V6'] = use(d, 'Q3', wcs((2, '', [wcs((1, 'p', [rng(2, 3)]))])))
    # deeper
    d['Z1'] = sq(use(d, 'P7'), SOF(use(d, 'P14'), size(0, 2)), (ch(use(d, 'Q4'), use(d, 'L4')), 'o'))
    d['Z2'] = SOF(SOF(SOF(R(0, 1), size(1, 2)), size(0, 2)), size(1, 2))
    d['Z3'] = sq((sq((sq((sq((BOOL(), 'o')), 'o')), 'o')), 'o'))
    return d


def within():
    """WITH COMPONENTS and WITH COMPONENT inside unions, intersections and exceptions"""
    d = {}
    a, b, c = [(R(0, 15), 'o')], [R(0, 100)], [(R(0, 15), 'o')]
    w = lambda i, *con, p='': wcs((i, p, list(con)))
    d['B1'] = sq(*a, *b, *c, con=[Or(w(1, rng(1, 4)), w(3, rng(9, 12)))])
    d['B2'] = sq(*a, *b, *c, con=[Or(w(1, rng(1, 4)), w(2, rng(50, 60)), w(3, val(3), p='p'))])
    d['B3'] = sq(*a, *b, *c, con=[And(w(1, rng(1, 9)), w(3, rng(9, 12)))])
    d['B4'] = sq(*a, *b, *c, con=[Exc(w(1, rng(1, 9)), w(3, rng(3, 12)))])
    d['B5'] = sq(*a, *b, *c, con=[Exc(w(2, rng(1, 90)), w(2, rng(30, 40)))])
    d['B6'] = sq(*a, *b, *c, con=[Or(And(w(1, val(3)), w(2, val(5))), wcs((1, 'a', []), (3, 'p', [])))])
    d['B7'] = sq(*a, *c, con=[Or(wcs((1, 'p', []), (2, 'a', [])), wcs((1, 'a', []), (2, 'p', [])))])
    d['B8'] = sq(*a, *b, con=[w(1, rng(1, 9)), w(2, rng(1, 9))])
    d['Bc'] = ch(R(0, 15), BOOL(), R(0, 100), OCT(size(0, 4)))
    d['Bc']['con'] = [Or(w(1, rng(1, 9)), w(3, rng(50, 60)))]
    d['Bd'] = ch(R(0, 15), BOOL(), R(0, 100))
    d['Bd']['con'] = [Or(w(1, rng(1, 9), p='p'), w(3, rng(50, 60), p='p'))]
    d['Be'] = ch(R(0, 15), BOOL(), R(0, 100), OCT(size(0, 4)))
    d['Be']['con'] = [Exc(w(1, rng(1, 9)), w(3, rng(50, 60)))]
    d['Bl'] = SOF(R(0, 15), Or(And(size(1, 2), elem(rng(1, 3))), And(size(2, 3), elem(rng(10, 12)))))
    d['Bm'] = SOF(R(0, 15), Exc(size(1, 4), size(2)))
    d['Bn'] = SOF(R(0, 15), And(size(0, 4), Exc(elem(rng(1, 8)), elem(rng(3, 4)))))
    d['Bo'] = sq(sq((R(0, 7), 'o'), (BOOL(), 'o')), *a, con=[Or(wcs((1, '', [w(1, rng(1, 3))])), wcs((2, 'p', [])))])
    d['Bp'] = sq((SOF(R(0, 9), size(0, 3)), 'o'), *b, con=[Or(w(1, size(1), p='p'), w(1, elem(rng(0, 3)), p='p'), w(2, val(0)))])
    d['Bq'] = sq((OCT(size(0, 4)), 'o'), (STR(size(0, 4)), 'o'), (en(None, None, None), 'o'), con=[Or(w(1, size(2)), w(2, size(1, 2)))])
    return d


def tagged():
    """alternatives whose tags are not in textual order"""
    c = ch(R(0, 255), OCT(size(1)), BOOL(), STR(size(0, 2)), tags=(30, 7, 31, 2))
    d = {'G1': ch(R(0, 3), BOOL(), NULL(), tags=(2, 0, 1)), 'G2': sq(c, BOOL())}
    d['G1']['alt'] = dict(d['G1'], tags=[])
    d['G2']['alt'] = dict(d['G2'], comps=[dict(d['G2']['comps'][0], t=dict(c, tags=[])), d['G2']['comps'][1]])
    return d


def big():
    """sizes of 64K and more: fragmentation"""
    return {'K1': OCT(size(0, 70000)), 'K2': BITS(size(1, 140000)), 'K3': SOF(BOOL(), size(0, 70000)), 'K4': OCT(size(70000)),
            'K5': STR(size(0, 66000), frm('AB')), 'K6': BITS(size(66000)), 'K7': SOF(BOOL(), size(65536)), 'K8': OCT(size(0, 65535)), 'K9': OCT(size(0, 65536)),
            'K10': sq(BOOL(), OCT(size(0, 80000)), BOOL()), 'K11': STR(size(66000), frm(('a', 'h'))), 'K12': SOF(sq((BOOL(), 'o')), size(81920)), 'K13': OCT(size(65536))}


# ------------------------------------------------------------- random
def rcon_int(r):
    p = r.random()
    lo = r.choice([0, 1, -1, -128, r.randrange(-1000, 1000), r.getrandbits(r.randrange(1, 60)), -r.getrandbits(r.randrange(1, 60))])
    w = r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 255, 256, r.getrandbits(r.randrange(1, 60))])
    if p < .6:
        return [rng(lo, lo + w)]
    if p < .7:
        return [rng(lo, None)]
    if p < .75:
        return [rng(None, lo)]
    if p < .8:
        return []
    if p < .9:
        return [Or(rng(lo, lo + w), rng(lo + w + 2, lo + w + 2 + r.randrange(9)))]
    return [rng(lo, lo + w + 5), rng(lo + r.randrange(3), lo + w + 5 + r.randrange(9))]


def rsize(r, m=6):
    lo = r.randrange(m)
    p = r.random()
    return size(lo, lo) if p < .3 and lo else size(lo, lo + r.randrange(m) + (1 if lo == 0 else 0))


def rtype(r, d, named):
    if named and r.random() < .15:
        return use(named, r.choice(list(named)))
    p = r.random()
    if d <= 0 or p < .5:
        q = r.randrange(9)
        if q <= 1:
            return INT(*rcon_int(r))
        if q == 2:
            return BOOL()
        if q == 3:
            return en(*[r.choice([None, None, x * 3 - 4]) for x in range(r.randrange(1, 6))])
        if q == 4:
            return OCT(rsize(r))
        if q == 5:
            return BITS(rsize(r, 12))
        if q == 6:
            a = r.choice([None, (('A', 'Z'),), ('01',), (('a', 'k'),), ('abc', ('0', '9'))])
            return STR(rsize(r), *([frm(*a)] if a else []), kind='ia5')
        if q == 7:
            return r.choice([NULL(), REAL(), OID(), STR(rsize(r), kind='num')])
        return INT(*rcon_int(r))
    if p < .75:
        return sq(*[(rtype(r, d - 1, named),) + ((r.choice(['o', 'm', 'm']),)) for _ in range(r.randrange(1, 5))])
    if p < .88:
        return ch(*[rtype(r, d - 1, named) for _ in range(r.randrange(1, 5))])
    return SOF(rtype(r, d - 1, named), rsize(r, 3))


def randoms(r, n):
    d = {}
    for i in range(n):
        t = rtype(r, 3, d)
        while t['k'] == 'null':     # NULL itself has no validation function
            t = rtype(r, 3, d)
        d['Rn%d' % (i + 1)] = t
    return d
