"""The checks on generated code (P20 ...): schemas -> compiler -> gcc -> driver -> TLC."""
import concurrent.futures as cf, os, random, re
import vf, asn, acn, e2e, e2eada, schemas, acnschemas, valgen, xercheck, rtcheck
from e2e import Schema, Ev, enc_ev, dec_ev, eq_ev

FILLS = [0, 0xff, 0xA5]


def catalogue(r, tier, big=True, nr=2):
    l = [Schema(n, getattr(schemas, n)()) for n in ('ints', 'simple', 'strings', 'composite', 'within', 'wide', 'quirks', 'names')]
    l.append(Schema('tagged', schemas.tagged(), 'IMPLICIT TAGS'))
    if big:
        l.append(Schema('big', schemas.big()))
    for i in range(nr if tier == 'quick' else 6 * nr):
        l.append(Schema('randoms%d' % (i + 1), schemas.randoms(r, 40)))
    return l


def acnschema(name, types, consts=(), **kw):
    txt = acn.text(types, name.capitalize(), consts)
    fin = acn.finish(types)
    return Schema(name, fin, acn=txt, codecs='A', names=[n for n in fin if not fin[n].get('params')], **kw)


def acatalogue(r, tier, keep=lambda types, drawn=False: types):
    l = [acnschema(n, keep(getattr(acnschemas, n)())) for n in acnschemas.CATALOGUE]
    return l + [acnschema('arandoms%d' % (i + 1), keep(acnschemas.arandoms(r, 40), True)) for i in range(2 if tier == 'quick' else 12)]


def values(sc, n, r, good, poor, cap=40):
    t = sc.types[n]
    if sc.name == 'big':
        q = 1 if t['k'] in ('sof', 'seq') else 3
        good, poor = max(q, good * q // 14), poor // 8
    sp = valgen.small_space(t, cap) or []
    return sp + [valgen.gen(t, r) for _ in range(good)] + [valgen.gen(t, r, .6) for _ in range(poor)]


def mutants(sc, out, r, c, k):
    """inputs derived from the encodings the driver produced: cut short, altered, filled with ones"""
    d = []
    for e in out:
        if e['k'] != 'E' or e.get('enc') != 1 or e.get('c') != c:
            continue
        n, b = sc.names[e['t'] - 1], e['b']
        if len(b) > 3000:
            if r.random() < .4:
                d.append(dec_ev(sc, c, n, b[:r.choice([0, 1, len(b) - 1, len(b) // 2])], r.choice(FILLS)))
            continue
        for q in sorted({0, len(b) - 1, len(b) // 2} if k > 1 else {r.randrange(len(b) + 1)}):
            if 0 <= q < len(b):
                d.append(dec_ev(sc, c, n, b[:q], r.choice(FILLS)))
        for _ in range(k):
            if b:
                m = list(b)
                for _ in range(r.choice([1, 1, 2, 4])):
                    m[r.randrange(min(len(m), 40))] ^= 1 << r.randrange(8)
                d.append(dec_ev(sc, c, n, m, r.choice(FILLS)))
        if b and r.random() < .3:
            m = list(b) + [r.getrandbits(8) for _ in range(r.choice([1, 30, 300]))]
            m[r.randrange(min(len(b), 6))] ^= 1 << r.randrange(8)
            d.append(dec_ev(sc, c, n, m, r.choice(FILLS)))
        if b and r.random() < .3:
            d.append(dec_ev(sc, c, n, [255] * min(len(b), 300)))
            d.append(dec_ev(sc, c, n, [r.getrandbits(8) for _ in range(min(len(b), 300))]))
    return d


def drive(chk, scs, mk, dll, wd, second=None, extra=(), cflags=()):
    """compile all schemas, run mk(schema, rng) (and second(schema, answers, rng)); returns jobs for TLC"""
    def one(a):
        i, sc = a
        r = random.Random('%s/%s/%d' % (vf.SEED, sc.name, i))
        exe, why = e2e.prepare(dll, wd, sc, extra, cflags)
        if not exe:
            return sc, None, why
        out = e2e.run(exe, mk(sc, r))
        if second:
            out += e2e.run(exe, second(sc, out, r))
        return sc, out, ''
    jobs = []
    with cf.ThreadPoolExecutor(6) as ex:
        for sc, out, why in ex.map(one, list(enumerate(scs))):
            if out is None:
                d = {'schema': sc.name, 'variant': getattr(sc, 'variant', ''), 'why': why, 'k': 'compile', 'files': sc.files()}
                chk.violation('%s: %s' % (sc.name, why), d)
            else:
                jobs.append((sc, out))
                chk.count('types', len(sc.names))
                for e in out[:2]:
                    chk.sample({'schema': sc.name, 'type': sc.names[e['t'] - 1], **{k: (v if len(str(v)) < 150 else '...') for k, v in e.items() if k != 't'}})
    return jobs


def generic(pid, tier, aspect, mk, second=None, scs=None, extra=(), cflags=()):
    chk = vf.Check(pid, tier)
    r = random.Random('%s/%s' % (vf.SEED, pid))
    with vf.Scratch(pid) as wd:
        dll = e2e.build_compiler(wd)
        jobs = drive(chk, scs or catalogue(r, tier), mk, dll, wd, second, extra, cflags)
        vf.log('driven: %d events' % sum(len(o) for _, o in jobs))
        e2e.validate(chk, jobs, aspect)
    return chk


def uper(tier):
    k = 1 if tier == 'quick' else 4

    def mk(sc, r):
        return [enc_ev(sc, 'U', n, v, r.choice(FILLS)) for n in sc.names for v in values(sc, n, r, 14 * k, 4 * k, 40 * k)]
    return generic('P20', tier, 'codec', mk, lambda sc, out, r: mutants(sc, out, r, 'U', k))


def valid(tier):
    k = 1 if tier == 'quick' else 4

    def mk(sc, r):
        return [enc_ev(sc, 'U', n, v, r.choice(FILLS)) for n in sc.names for v in values(sc, n, r, 6 * k, 30 * k, 100 * k)]
    return generic('P22', tier, 'valid', mk)


def sizes(tier):
    k = 1 if tier == 'quick' else 4

    def mk(sc, r):
        l = []
        for n in sc.names:
            c = sc.codecs[0]
            l.append(Ev('S%s %d 0' % (c, sc.names.index(n)), t=sc.names.index(n) + 1, c=c))
            l += [enc_ev(sc, c, n, v, r.choice(FILLS)) for v in values(sc, n, r, 10 * k, 0, 0) + valgen.largest(sc.types[n], r)]
        return l
    r = random.Random('%s/P23' % vf.SEED)
    return generic('P23', tier, 'size', mk, scs=catalogue(r, tier) + acatalogue(r, tier))


def equal(tier):
    k = 1 if tier == 'quick' else 4

    def mk(sc, r):
        l = []
        for n in sc.names:
            t = sc.types[n]
            if sc.name != 'within' and not (sc.name.startswith('random') and valgen.has(t, ('oid', 'roid'))):   # object identifiers start out empty, WITH COMPONENTS is disregarded: findings on record
                l += [Ev('I %d %x' % (sc.names.index(n), f), t=sc.names.index(n) + 1) for f in FILLS]
            m = (8 if sc.name != 'big' else 2) * k
            for _ in range(m):
                a = valgen.gen(t, r)
                l += [eq_ev(sc, n, a, a, r.choice(FILLS)), eq_ev(sc, n, a, valgen.gen(t, r), r.choice(FILLS))]
                for b in valgen.near(t, a, r, 2):
                    l.append(eq_ev(sc, n, a, b, r.choice(FILLS)))
            l += [enc_ev(sc, 'U', n, valgen.gen(t, r), r.choice(FILLS)) for _ in range(3 * k)]
        return l
    return generic('P24', tier, 'equal', mk)


def acncodec(tier):
    k = 1 if tier == 'quick' else 4

    def mk(sc, r):
        return [enc_ev(sc, 'A', n, v, r.choice(FILLS)) for n in sc.names for v in values(sc, n, r, 14 * k, 4 * k, 40 * k)]
    return generic('P21', tier, 'codec', mk, lambda sc, out, r: mutants(sc, out, r, 'A', k), acatalogue(random.Random('%s/P21' % vf.SEED), tier))


def xer_ev(sc, n, s, fill=0xA5):
    e = dec_ev(sc, 'X', n, s.encode('latin-1'), fill)
    e.f.update(tag=n)
    return e


def xer_texts(sc, out, r, k):
    """documents derived from those the encoders wrote"""
    d = []
    for e in out:
        if e['k'] != 'E' or e.get('enc') != 1:
            continue
        n, s = sc.names[e['t'] - 1], bytes(e['b']).decode('latin-1')
        if len(s) > 2500:
            continue
        for _ in range(k):
            m = s
            p = r.random()
            el = [(a.start(), a.end()) for a in re.finditer(r'<([^<>/\s]+)[^<>]*>[^<>]*</\1>|<[^<>/]+/>', s)]
            if p < .25:
                m = xercheck.markup(r, s)
            elif p < .45 and el:                # an element left out, twice, or swapped with another
                a, b = r.choice(el)
                c, f = r.choice(el)
                m = r.choice([s[:a] + s[b:], s[:b] + s[a:b] + s[b:], s[:a] + s[c:f] + s[b:]])
            elif p < .6 and s:
                q = r.randrange(len(s))
                m = s[:q] + r.choice(['', r.choice('<>/ &;"=aZ019-'), s[q:] and s[q] * 2]) + s[q + 1:]
            elif p < .7:
                m = s[:r.randrange(len(s) + 1)]
            elif p < .85:                       # other content
                q = [(a.start(), a.end()) for a in re.finditer(r'>[^<>]*</', s)]
                if q:
                    a, b = r.choice(q)
                    t = s[a + 1:b - 2]
                    t = r.choice([t * 2, t[:-1], t + '0', '', t + r.choice('0123456789abcF&-+.'), '-' + t, '18446744073709551616', '340', t + ' ', '\n' + t, t.lower(), '&lt;' + t, t + '&amp;'])
                    m = s[:a + 1] + t + s[b - 2:]
            elif el:                            # another name
                q = [(a.start(1), a.end(1)) for a in re.finditer(r'</?([^<>/\s]+)', s)]
                a, b = r.choice(q)
                m = s[:a] + r.choice([s[a:b - 1] or 'x', s[a:b] + 'x', 'true', 'false', s[slice(*r.choice(q))]]) + s[b:]
            d.append(xer_ev(sc, n, m, r.choice(FILLS)))
    return d


def xer(tier):
    k = 1 if tier == 'quick' else 4
    chk = vf.Check('P14', tier)
    r = random.Random('%s/P14' % vf.SEED)
    scs = catalogue(r, tier, False)
    for s in scs:
        s.codecs = 'X'

    def mk(sc, r):
        return [enc_ev(sc, 'X', n, v, r.choice(FILLS)) for n in sc.names for v in values(sc, n, r, 8 * k, 2 * k, 20 * k)]
    with vf.Scratch('P14') as wd:
        dll = e2e.build_compiler(wd)
        jobs = drive(chk, scs, mk, dll, wd, lambda sc, out, r: xer_texts(sc, out, r, k))
        for sc, out in jobs:
            for e in out:
                e['tag'] = sc.names[e['t'] - 1]
                if 'b' in e:
                    e['s'] = bytes(e.pop('b')).decode('latin-1')
        vf.log('driven: %d events' % sum(len(o) for _, o in jobs))
        e2e.validate(chk, jobs, module='XerE2eTrace')
    return chk


ADA = ('ints', 'simple', 'strings', 'composite', 'within', 'wide', 'names', 'tagged', 'randoms1',
       'aints', 'aleaf', 'asizes', 'apresence', 'achoices', 'arandoms1')


SURE = {'aints': [('I99', [0x18, 0x44, 0x67, 0x44, 0x07, 0x37, 0x09, 0x55, 0x16, 0x15, 0xF0])], 'apresence': [('E11', [0, 0, 0])]}   # shown on every run


def ada(tier):
    """octets from the encoders in C (and altered ones) through the generated Ada"""
    k = 1 if tier == 'quick' else 4
    chk = vf.Check('P26', tier)
    r = random.Random('%s/P26' % vf.SEED)
    scs = [s for s in catalogue(r, tier, False) + acatalogue(r, tier, e2eada.supported) if tier != 'quick' or s.name in ADA]
    for s in scs:
        for t in s.types.values() if s.acn else ():
            e2eada.indexed(t)
        s.name = {'tagged': 'tags'}.get(s.name, s.name)    # a reserved word of Ada

    def one(a):
        i, sc = a
        r = random.Random('%s/P26/%s/%d' % (vf.SEED, sc.name, i))
        sc.codecs = 'UA' if sc.acn else 'U'
        exe, why = e2e.prepare(dll, wd, sc, cflags=['-O0'], san=False)
        if not exe:
            return sc, None, why
        evs = [enc_ev(sc, c, n, v) for n in sc.names for v in values(sc, n, r, 5 * k, 0, 12 * k) for c in sc.codecs if not (c == 'U' and e2eada.skips(sc, n))]
        out = e2e.run(exe, evs)
        good = [e for e in out if e['k'] == 'E' and e.get('enc') == 1]
        evs = [] if sc.name == 'within' else [e2eada.init_ev(j) for j, n in enumerate(sc.names) if not (sc.name.startswith('random') and valgen.has(sc.types[n], ('oid', 'roid')))]
        for e in good:
            evs.append(e2eada.dec_ev(sc, e['c'], e['t'] - 1, e['b']))
        for c in sc.codecs:
            for e in mutants(sc, out, r, c, k):
                if r.random() < .7:
                    evs.append(e2eada.dec_ev(sc, c, e.f['t'] - 1, e.f['b']))
        for n, b in SURE.get(sc.name, ()):
            evs.append(e2eada.dec_ev(sc, 'A', sc.names.index(n), b))
        by = {}
        for e in good:
            if e['c'] == sc.codecs[0] or e2eada.skips(sc, sc.names[e['t'] - 1]):
                by.setdefault(e['t'], []).append(e['b'])
        for t, l in by.items():
            c = 'A' if e2eada.skips(sc, sc.names[t - 1]) else sc.codecs[0]
            for _ in range(min(len(l), 5 * k)):
                a = r.choice(l)
                evs += [e2eada.eq_ev(sc, c, t - 1, a, r.choice(l)), e2eada.eq_ev(sc, c, t - 1, a, a)]
        exe, why = e2eada.prepare(dll, wd, sc)
        if not exe:
            return sc, None, why
        return sc, e2eada.run(exe, evs), ''
    with vf.Scratch('P26') as wd:
        dll = e2e.build_compiler(wd)
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            for sc, out, why in ex.map(one, list(enumerate(scs))):
                if out is None:
                    chk.violation('%s: %s' % (sc.name, why), {'schema': sc.name, 'why': why, 'k': 'compile', 'files': sc.files()})
                    continue
                jobs.append((sc, out))
                chk.count('types', len(sc.names))
                for e in out[:2]:
                    chk.sample({'schema': sc.name, 'type': sc.names[e['t'] - 1], **{k: (v if len(str(v)) < 150 else '...') for k, v in e.items() if k != 't'}})
        vf.log('driven: %d events' % sum(len(o) for _, o in jobs))
        e2e.validate(chk, jobs, module='AdaTrace')
    return chk


# ------------------------------------------------- P25: word sizes and options that shape the generated code
VARIANTS = {   # options, compiler flags, schemas
    'wordSize4': (['-wordSize', '4'], ['-DWORD_SIZE=4'], ('ints', 'composite', 'aints', 'achoices')),
    'words44': (['-wordSize', '4', '-fpWordSize', '4'], ['-DWORD_SIZE=4', '-DFP_WORD_SIZE=4'], ('simple', 'aleaf')),
    'slim': (['-slim'], [], ('ints', 'simple', 'aints', 'apresence', 'asizes')),
    'eee': (['-eee'], [], ('simple', 'aleaf')),
    'ig': (['-ig'], [], ('composite',)),
    'es': (['-es'], [], ('apresence',)),
    'renamePolicy2': (['-renamePolicy', '2'], [], ('names',)),
}
NOTED = {'apresence': ('E11',), 'asizes': ('U4',)}    # findings on record for P21


def bounds(t):
    """the integers written in the constraints of a type"""
    for c in t['con']:
        st = [c]
        while st:
            x = st.pop()
            if x['o'] == 'val' and t['k'] == 'int':
                yield asn.un9(x['v'])
            if x['o'] == 'rng' and t['k'] == 'int':
                yield from (asn.un9(b) for b in (x['lo'], x['hi']) if b != [])
            st += [x[q] for q in 'ab' if isinstance(x.get(q), dict)] + (x['a'] if isinstance(x.get('a'), list) else [])
            for w in x.get('l', ()):
                st += w['c']


def word32(types, real=False):
    """the types a compiler told -wordSize 4 has to accept"""
    def ok(t):
        for x in e2eada.walk(t):
            if real and x.get('k') == 'real' and x.get('ap', {}).get('enc') == '64':
                return False    # refused: the value would not fit
            if x.get('k') not in ('int', 'enum'):
                continue
            if x.get('ap', {}).get('sz', 0) > 32:
                return False    # refused
            b = list(bounds(x)) if x['k'] == 'int' else asn.enumvals(x)
            if b and (min(b) < -(1 << 31) or max(b) > ((1 << 31) - 1 if min(b) < 0 else (1 << 32) - 1)):
                return False
        return True
    return e2eada.closed({n: t for n, t in types.items() if ok(t)})


def holds32(t, v, real):
    """the value fits the machine types of the variant"""
    k = t['k']
    if v is None:
        return True
    if k == 'int':
        return (0 <= v < (1 << 32)) if min(x[0] for x in asn.irange(t)) >= 0 else -(1 << 31) <= v < (1 << 31)
    if k == 'real':
        return not real or rtcheck.single({'op': 'real', 'v': asn.dbl(v)})
    if k in ('oid', 'roid'):
        return all(x < (1 << 32) for x in v)
    if k == 'sof':
        return all(holds32(t['t'], x, real) for x in v)
    if k == 'choice':
        return not v[0] or holds32(t['alts'][v[0] - 1], v[1], real)
    if k == 'seq':
        return all(holds32(c['t'], x, real) for c, x in zip(t['comps'], v))
    return True


def options(tier):
    k = 1 if tier == 'quick' else 4
    chk = vf.Check('P25', tier)
    r = random.Random('%s/P25' % vf.SEED)
    with vf.Scratch('P25') as wd:
        dll = e2e.build_compiler(wd)
        runs = []
        for v, (opts, cflags, names) in VARIANTS.items():
            w32, real = v.startswith('word'), v == 'words44'
            keep = (lambda types, drawn=False: word32(types, real)) if w32 else lambda types, drawn=False: types
            scs = [s for s in catalogue(r, tier, False) + acatalogue(r, tier, keep) if s.name in names]
            for s in scs:
                s.variant = v
                if w32 and not s.acn:
                    s.types = word32(s.types, real)
                    s.names = list(s.types)
                s.names = [n for n in s.names if n not in NOTED.get(s.name, ())]
            os.makedirs(os.path.join(wd, v))
            runs.append((v, opts, cflags, scs, w32, real))

        def one(a):
            v, opts, cflags, scs, w32, real = a

            def mk(sc, r):
                c = sc.codecs[0]
                return [enc_ev(sc, c, n, x, r.choice(FILLS)) for n in sc.names for x in values(sc, n, r, 4 * k, 2 * k, 8 * k) if not w32 or holds32(sc.types[n], x, real)]
            return drive(chk, scs, mk, dll, os.path.join(wd, v), lambda sc, out, r: mutants(sc, out, r, sc.codecs[0], k) if not w32 else [], opts, cflags)
        with cf.ThreadPoolExecutor(3) as ex:
            jobs = [j for l in ex.map(one, runs) for j in l]
        rtcheck.words(chk, r, wd, 400 * k * k)
        vf.log('driven: %d events' % sum(len(o) for _, o in jobs))
        e2e.validate(chk, jobs, 'codec')
    return chk


RUN = {'P25': options, 'P26': ada, 'P14': xer, 'P21': acncodec, 'P20': uper, 'P22': valid, 'P23': sizes, 'P24': equal}
