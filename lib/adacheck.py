"""P13: the Ada run-time library against spec/RtTrace.tla (the same histories as the C one)."""
import glob, os, random, re, shutil, subprocess
import vf, rtgen as g, rtcheck as rc

HERE = os.path.join(vf.VERIF, 'harness', 'rt_ada')


def build(wd, opts=('-O1', '-gnata')):
    d = os.path.join(wd, 'ada%d' % abs(hash(tuple(opts)) % 10 ** 6))
    os.makedirs(d)
    rtl = os.path.join(vf.REPO, 'ADA_RTL2')
    for f in glob.glob(os.path.join(rtl, 'src', 'adaasn1rtl*.ad[bs]')):
        if 'xer' not in f and 'test_cases' not in f:
            shutil.copy(f, d)
    shutil.copy(os.path.join(rtl, 'boards', 'x86_board_config.ads'), os.path.join(d, 'board_config.ads'))
    vf.sh(['python3', os.path.join(HERE, 'gen.py'), os.path.join(d, 'rtada.adb')])
    p = subprocess.run(['gnatmake', '-q', '-j4', '-g', '-gnat2012', '-fstack-check', *opts, 'rtada.adb'], cwd=d, capture_output=True, text=True)
    if p.returncode:
        raise vf.Broken('the Ada run-time library does not build:\n' + (p.stdout + p.stderr)[-2000:])
    return os.path.join(d, 'rtada')


# what has no counterpart in the Ada library
NOENC = {'nonnegneg', 'octfrag', 'alen', 'abcdvar'}
NODEC = {'auascvar', 'asascvar'}


def word(x):
    return int.from_bytes(bytes(x), 'big')


def sword(x):
    v = word(x)
    return v - (1 << 64) if v >> 63 else v


def usable(o):
    """within the contracts written in the Ada specifications"""
    for e in (o.ev, o.dec.ev if o.dec is not None else {'k': ''}):
        op = e.get('op')
        if op in NOENC:
            return False
        n = e.get('n', 0)
        enc = 'v' in e and e.get('k') == 'enc'
        # the contracts leave out 64-bit wide fields written bit by bit
        if op in ('apos', 'atwo') and (n >= 64 or op == 'atwo' and n < 2):
            return False
        # at most 19 decimal digits
        if op == 'abcd' and n > 19 or op == 'auasc' and not 2 <= n <= 19 or op == 'asasc' and n > 20:
            return False
        if enc and op in ('abcd', 'abcdnul', 'auasc', 'auascvar', 'auascnul') and word(e['v']) >= 10 ** 19:
            return False
        if enc and op == 'asascvar' and abs(sword(e['v'])) >= 10 ** 18:
            return False
        if op == 'asascnul' and len(e['d']) > 9:
            return False
        if op in ('idxfix', 'idxext', 'idxint') and len(e['d2']) < 2:
            return False
        # how many digits zero has is left open
        if enc and op == 'abcdnul' and word(e['v']) == 0:
            return False
        # the single precision decoders refuse infinities
        if e.get('k') == 'enc' and op in ('f32be', 'f32le') and (e['d'][0] & 127, e['d'][1]) == (127, 128):
            return False
        if op == 'bits' and n == 0:
            return False
        # the two patterns of a BOOLEAN differ
        if op == 'tf' and e['d'] == e['d2']:
            return False
    return True


def only(gen):
    def f(r):
        for _ in range(60):
            o = gen(r)
            if usable(o):
                return o
        return g.g_bit(r)       # the boundary value asked for is outside the contracts
    return f


def g_benc(r):
    """boolean and null patterns"""
    n = r.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 33])
    p = g.patbits(r, n)
    inv = [x ^ 255 for x in p]
    if n % 8:
        inv[-1] &= (0xff << (8 - n % 8)) & 0xff
    v = r.randrange(2)
    m = r.randrange(4)
    ev = lambda d: {'k': 'enc', 'op': 'bits', 'd': d, 'n': n}
    if m == 0:
        d = p if v else inv
        dec = r.choice([g.D('pat', '%s %d' % (g.hb(p), n), d=p, n=n), g.D('tf', '%s %s %d' % (g.hb(p), g.hb(inv), n), d=p, d2=inv, n=n)])
        return g.Op('e ptrue %s %d %d' % (g.hb(p), n, v), ev(d), n, dec)
    if m == 1:
        # a false pattern: FALSE is the pattern, TRUE its complement
        d = inv if v else p
        dec = g.D('pat', '%s %d' % (g.hb(p), n), d=p, n=n)
        dec.line = 'd patf %s %d' % (g.hb(p), n)
        return g.Op('e pfalse %s %d %d' % (g.hb(p), n, v), ev(d), n, dec)
    if m == 2:
        q = g.patbits(r, n)
        return g.Op('e ptf %s %s %d %d' % (g.hb(p), g.hb(q), n, v), ev(p if v else q), n, g.D('tf', '%s %s %d' % (g.hb(p), g.hb(q), n), d=p, d2=q, n=n))
    w = r.choice([p, g.patbits(r, n)])
    dec = g.D('pat', '%s %d' % (g.hb(w), n), d=w, n=n)
    dec.line = 'd patn %s %d %d' % (g.hb(w), n, r.randrange(2))
    return g.Op('e pnull %s %d %d' % (g.hb(p), n, v), ev(p), n, dec)


def g_barr(r):
    o = g.g_bits(r)
    n, d = o.ev['n'], o.ev['d']
    dec = g.D('bits', '%d' % n, n=n)
    if r.random() < .6:
        dec.line = 'd barr %d' % n
    return g.Op('e barr %s %d' % (g.hb(d), n), o.ev, n, dec)


def g_bool(r):
    """BOOLEAN, and a NULL before a bit"""
    w, n = r.choice(['bool', 'null']), r.randrange(2)
    dec = g.D('bit', '')
    dec.line = 'd %s' % w
    return g.Op('e %s %d' % (w, n), {'k': 'enc', 'op': 'bit', 'n': n}, 1, dec)


STREAM = [only(x) for x in g.STREAM] + [only(g_barr)]
INTS = [only(x) for x in g.UPERINT] + [g.g_ucmax, g_bool]
STRS = [only(g.g_octstr), only(g.g_bitstr)]
ACN = [only(x) for x in g.ACNINT if x not in (g.g_abcdvar, g.g_auascvar, g.g_asascvar)]
REST = [only(x) for x in g.ACNREST] + [only(g_benc)] * 2
OTHER = g.OIDS + g.REALS
ALL = STREAM + INTS + STRS + ACN + REST + OTHER
ENCONLY = [only(g.g_auascvar), only(g.g_asascvar)]


def padded(ep, n=1200):
    """contract of the Ada decoders: the buffer has room for the longest encoding"""
    if not ep.dec:
        return ep
    ep.init = ep.init + [0] * n
    ep.lines[0] = 'D %s 0' % g.hb(ep.init)
    return ep


def limited(o):
    e = o.ev
    return e.get('max', 0) <= 1000


def hostile(r, gens, wire=None):
    while True:
        ep = padded(g.hostile(r, gens, wire=wire, wild=False))
        if all((e or {}).get('max', 0) <= 1000 for e in ep.evs) and not any(e and e['op'] in ('f32be', 'f32le') or (e or {}).get('op') in ('auascvar', 'asascvar') or e and not usable(g.Op('', e, 0, None)) for e in ep.evs):
            return ep


def histories(r, n):
    eps = []
    for _ in range(n):
        gens = r.choice([STREAM, INTS, STRS, ACN, ACN, REST, OTHER, ALL, ALL])
        if r.random() < .25:
            eps.append(hostile(r, gens))
        else:
            eps.append(g.roundtrip(r, gens, r.randrange(1, 8), tail=False))
    eps += [g.roundtrip(r, ENCONLY + STREAM, r.randrange(1, 5), readback=False) for _ in range(n // 20)]
    eps += [hostile(r, g.REALS, wire=g.real_wire(r)) for _ in range(n // 10)]
    return eps


def sweeps(r):
    out = []
    fix = lambda eps: [e for e in eps if not any((x or {}).get('op') in NOENC for x in e.evs) and all(usable(g.Op('', x, 0, g.Op('', x))) for x in e.evs if x and x['k'] == 'enc')]
    out += g.sweep_ints(r, INTS[-3:-1] + ACN) + g.sweep_ranges(r) + [padded(e, 40) for e in g.sweep_lenwire(r)]
    out += [padded(e, 40) for e in g.sweep_realwire(r)] + g.sweep_oids(r)
    for e in out:
        if e.evs and e.evs[-1] and e.evs[-1].get('k') == 'dec' and e.evs[-1].get('op') == 'byte' and e.meta == 'roundtrip':
            e.evs.pop()
            e.lines.pop()
    return out


def g_fn(r):
    while True:
        line, ev = g.g_fn(r)
        if ev['op'] in ('nbits', 'bsearch'):
            continue
        if ev['op'] == 'octeq' and (not ev['d'] or not ev['d2']) or ev['op'] == 'biteq' and (ev['n'] == 0 or ev['min'] == 0):
            continue
        return line, ev


def deferred(r):
    while True:
        ep = g.deferred(r)
        if all(e is None or e['k'] in ('init', 'patch', 'end') or usable(g.Op('', e, 0, g.Op('', e))) for e in ep.evs) and \
           not any(e and e['k'] == 'patch' and e['op'] == 'IA5' and len(e['d']) < e['n'] for e in ep.evs) and \
           not any(e and e['k'] in ('init', 'patch') and e['op'] in ('ConstSize', 'TwosComplement_ConstSize') and e['n'] >= 64 for e in ep.evs):
            return ep


def check(tier):
    chk = vf.Check('P13', tier)
    r = random.Random('P13/%s' % vf.SEED)
    n = 3000 if tier == 'quick' else 25000
    with vf.Scratch('P13') as wd:
        exe = build(wd)
        small, large = [exe, '1400'], [exe, '110000']
        for cmd, eps in ((large, histories(r, n)), (small, sweeps(r)), (large, [deferred(r) for _ in range(n // 4)])):
            rc.do(chk, cmd, eps)
        ep = []
        for _ in range(n // 40):
            e = g.Episode(dec=True, init=[])
            e.raw('D - 0', None)
            for _ in range(20):
                e.raw(*g_fn(r))
            ep.append(e)
        rc.do(chk, small, ep)
        fr = [e for e in rc.frags(r, tier, 1) if not any((x or {}).get('op') == 'octfrag' for x in e.evs)]
        rc.do(chk, large, fr, batch=20)
        if tier != 'quick':
            # as the generated project files compile it: contracts not checked
            exe2 = build(wd, ('-O2',))
            rc.do(chk, [exe2, '110000'], histories(random.Random(vf.SEED + 5), n // 2))
    return chk
