"""P01..P10: the C run-time library against spec/RtTrace.tla."""
import concurrent.futures as cf, json, os, random, re, struct
import vf, rtgen as g

WORKERS = 8


def build(wd, streaming=False, extra=()):
    exe = os.path.join(wd, 'rt' + ('s' if streaming else '') + str(abs(hash(tuple(extra))) % 10 ** 6))
    return vf.build_c(exe, os.path.join(vf.VERIF, 'harness', 'rt.c'), extra=list(extra) + (['-DASN1SCC_STREAMING'] if streaming else []))


def drive(exe, eps):
    """run the episodes on the driver, several processes in parallel"""
    k = max(1, min(WORKERS, len(eps) // 50 + 1))
    parts = [eps[i::k] for i in range(k)]

    def one(p):
        pr = vf.Proc(exe)
        try:
            return g.run(pr, p)
        finally:
            pr.close()
    with cf.ThreadPoolExecutor(k) as ex:
        res = list(ex.map(one, parts))
    out = [None] * len(eps)
    for i, r in enumerate(res):
        for j, t in enumerate(r):
            out[i + j * k] = t
    return out


def validate(chk, eps, traces, module='RtTrace', batch=6000, what='', cfg='SPECIFICATION Spec\nINVARIANT TypeOK\n', detail=None):
    """TLC decides every recorded history"""
    with vf.Scratch('tlc') as wd:
        for b in range(0, len(traces), batch):
            part = traces[b:b + batch]
            f = os.path.join(wd, 'trace.json')
            json.dump(part, open(f, 'w'))
            rc, txt, dist, gen = vf.tlc(module, cfg, wd, env={'TRACE_FILE': f})
            bad = re.findall(r'<<"BAD", (\d+), (\d+), "(.*?)">>', txt)
            if rc and not bad:
                raise vf.Broken('TLC failed on %s:\n%s' % (module, txt[-3000:]))
            need = sum(len(t['ev']) + 1 for t in part)
            if not bad and dist < need and not chk.known:
                raise vf.Broken('TLC explored %d states, %d expected (%s)\n%s' % (dist, need, module, txt[-1500:]))
            chk.states += dist
            chk.transitions += gen - len(part)
            chk.traces += len(part)
            for ep, i, why in bad:
                t = part[int(ep) - 1]
                e = t['ev'][int(i) - 1]
                src = eps[b + int(ep) - 1]
                d = {'op': e.get('op'), 'k': e['k'], 'why': why, 'crash': e.get('why', ''), 'meta': src.meta,
                     'event': {x: y for x, y in e.items() if x not in ('all',)}, 'init': t['init'][:400], 'script': src.lines[:200]}
                if detail:
                    d.update(detail(src, e))
                chk.violation('%s%s %s: %s %s' % (what, e['k'], e.get('op'), why, e.get('why', '')), d)


def do(chk, exe, eps, **kw):
    tr = drive(exe, eps)
    validate(chk, eps, tr, **kw)
    for e, t in list(zip(eps, tr))[:3]:
        chk.sample({'script': e.lines[:8], 'answer': [{k: v for k, v in x.items() if k in ('k', 'op', 'ok', 'p', 'v')} for x in t['ev'][:4]]})
    return tr


def histories(r, gens, n, maxops=7, hostile=.25):
    eps = []
    for _ in range(n):
        if r.random() < hostile:
            eps.append(g.hostile(r, gens))
        else:
            eps.append(g.roundtrip(r, gens, r.randrange(1, maxops + 1), exact=r.random() < .3))
    return eps


def mutated(r, exe, gens, n):
    """valid encodings, cut and corrupted, read back with the same calls"""
    base = []
    for _ in range(n):
        ops = [r.choice(gens)(r) for _ in range(r.randrange(1, 5))]
        ep = g.Episode()
        ep.cap = (g.bits_of(ops) + 7) // 8 + 8
        ep.raw('E %d -1 0' % ep.cap, None)
        for o in ops:
            ep.add(o)
        ep.raw('x', {'k': 'end', 'op': 'end'})
        base.append((ep, ops))
    tr = drive(exe, [b[0] for b in base])
    out = []
    for (ep, ops), t in zip(base, tr):
        if not t['ev'] or t['ev'][-1]['k'] != 'end':
            continue
        w = t['ev'][-1]['all']
        if len(w) > 4000:
            cuts = [r.randrange(len(w)) for _ in range(2)]
        else:
            cuts = sorted(set(range(len(w))) if len(w) <= 6 else set(r.randrange(len(w)) for _ in range(6)))
        vs = [w[:c] for c in cuts]
        for _ in range(3):
            m = list(w)
            for _ in range(r.choice([1, 1, 2, 4])):
                if m:
                    i = r.randrange(len(m))
                    m[i] = r.choice([m[i] ^ (1 << r.randrange(8)), 0, 255, 0x80, r.randrange(256)])
            vs.append(m[:r.randrange(len(m) + 1)] if r.random() < .3 else m)
        for v in vs:
            e2 = g.Episode(dec=True, init=v)
            e2.raw('D %s 0' % g.hb(v), None)
            for o in ops:
                e2.add(o.dec)
            e2.meta = 'mutated'
            out.append(e2)
    return out


GROUPS = {'P01': g.STREAM, 'P02': g.UPERINT, 'P03': g.REALS, 'P04': g.STRS, 'P05': g.OIDS, 'P06': g.ACNINT, 'P07': g.ACNREST}


def sweeps(pid, r, reps):
    out = []
    for _ in range(reps):
        out += {'P01': lambda: g.sweep_ints(r, [g.g_nonneg]),
                'P02': lambda: g.sweep_ints(r, [g.g_ucint]) + g.sweep_ranges(r) + g.sweep_lenwire(r, ('scint', 'scuint', 'ucint')),
                'P03': lambda: g.sweep_realwire(r),
                'P05': lambda: g.sweep_oids(r),
                'P06': lambda: g.sweep_ints(r, g.ACNINT) + g.sweep_lenwire(r, ('aposvar', 'atwovar'))}.get(pid, lambda: [])()
    return out


def frags(r, tier, octstr=.5):
    K = 16384
    ns = [K - 1, K, K + 1, K + 127, K + 128, 2 * K, 2 * K + 1, 3 * K, 3 * K + 5, 4 * K - 1, 4 * K, 4 * K + 1, 5 * K, 6 * K, 7 * K, 8 * K, 5 * K + 200]
    if tier == 'quick':
        return g.frag_episodes(r, [K, K + 1, 2 * K, 3 * K, 4 * K, 5 * K], exact=1, octstr=octstr) + g.frag_episodes(r, ns + [9 * K, 12 * K, 16 * K + 3], bits=True)
    return g.frag_episodes(r, ns * 2, octstr=octstr) + g.frag_episodes(r, ns * 3 + [9 * K, 12 * K, 16 * K + 3], bits=True)

# ------------------------------------------------- histories from spec/StreamModel.tla
WRITES = {'b0': 'bit', 'b1': 'bit', 'w3': 'bits', 'w13': 'bits', 'o': 'byte0', 'o3': 'octets', 'z11': 'zeros', 'f9': 'ones', 'al': 'align'}
DETS = {'rU8': ('U8', 8, (90, 201)), 'rC3': ('ConstSize', 3, (3, 6))}


def item(n):
    if n in ('b0', 'b1'):
        return g.E('bit', '%s 0' % n[1], 1, g.D('bit', ''), n=int(n[1]))
    if n in ('w3', 'w13'):
        d, k = ([0xa0], 3) if n == 'w3' else ([0x9d, 0x18], 13)
        return g.E('bits', '%s %d' % (g.hb(d), k), k, g.D('bits', '%d' % k, n=k), d=d, n=k)
    if n == 'o':
        return g.E('byte0', '165', 8, g.D('byte', ''), n=165)
    if n == 'o3':
        d = [1, 254, 128]
        return g.E('bits', '%s 24' % g.hb(d), 24, g.D('bits', '24', n=24), d=d, n=24)
    if n in ('z11', 'f9'):
        k = int(n[1:])
        op = g.E('zeros' if n == 'z11' else 'ones', '%d' % k, k, g.D('bits', '%d' % k, n=k), n=k)
        return op
    return g.E('align', '8', 7, g.D('align', '8', n=8), n=8)


def model(chk, names, chunk, depth, maxdets=0, dirty='0, 1'):
    """the design, explored exhaustively; returns the complete histories TLC found"""
    with vf.Scratch('model') as wd:
        cfg = 'SPECIFICATION Spec\nINVARIANTS Refines Held Back\nCONSTANTS Names = {%s}\nChunk = %d\nDepth = %d\nMaxDets = %d\nDirty = {%s}\n' % (
            ', '.join('"%s"' % n for n in names), chunk, depth, maxdets, dirty)
        rc, txt, dist, gen = vf.tlc('StreamModel', cfg, wd)
        if rc:
            raise vf.Broken('StreamModel: TLC failed\n' + txt[-3000:])
        chk.states += dist
        chk.transitions += gen
        hs = sorted(set(re.findall(r'<<"H", <<(.*?)>>>>', txt)))
        return [re.findall(r'"(\w+)"', h) for h in hs]


def replayed(h, chunk, fill):
    """one history of the model as calls of the library"""
    ep = g.Episode()
    ep.cap = 10 ** 8 if chunk else 4 * len(h) + 8
    ep.raw('E %d %d %d' % (ep.cap, fill, chunk), None)
    dets, reads = [], []
    for n in h:
        if n in DETS:
            kind, w, vals = DETS[n]
            dets.append((kind, w, vals))
            arg = ' %d' % w if kind == 'ConstSize' else ''
            ep.raw('i %s%s' % (kind, arg), {'k': 'init', 'op': kind, 'n': w})
            reads.append(g.D('bits', '%d' % w, n=w))
        elif n[0] == 'p':
            k = int(n[1])
            kind, w, vals = dets[k - 1]
            v = vals[n[2] == 'b']
            ev = {'k': 'patch', 'op': kind, 'id': k, 'n': w, 'v': g.W(v)}
            ep.raw('p %s %d%s %s' % (kind, k, ' %d' % w if kind == 'ConstSize' else '', g.hx(v)), ev)
        else:
            o = item(n)
            ep.add(o)
            reads.append(o.dec)
    if dets:
        ep.raw('x', {'k': 'end', 'op': 'end'})
    else:
        ep.raw('r %d' % chunk, {'k': 'rewind', 'op': 'rewind'})
        for o in reads:
            ep.add(o)
    ep.meta = 'model'
    return ep


def primitives(pid, tier):
    chk = vf.Check(pid, tier)
    r = random.Random('%s/%s' % (pid, vf.SEED))
    gens = GROUPS[pid]
    n = 4000 if tier == 'quick' else 60000
    if pid in ('P04', 'P05'):
        n = n * 2 // 3
    with vf.Scratch(pid) as wd:
        exe = build(wd)
        eps = histories(r, gens, n)
        # the same calls in the company of all others
        eps += [g.roundtrip(r, gens + [r.choice(g.ALL)], r.randrange(2, 10)) for _ in range(n // 4)]
        eps += sweeps(pid, r, 1 if tier == 'quick' else 4)
        do(chk, exe, eps)
        if pid == 'P01':
            hs = model(chk, list(WRITES), 0, 3 if tier == 'quick' else 4)
            do(chk, exe, [replayed(h, 0, f) for h in hs for f in (0, 255)])
        if pid == 'P04':
            do(chk, exe, frags(r, tier), batch=20)
        if pid in ('P01', 'P02', 'P05', 'P06'):
            fns(chk, r, exe, n // 2)
        if tier != 'quick':
            exe2 = build(wd, extra=['-O2', '-DNDEBUG'])
            do(chk, exe2, histories(random.Random(vf.SEED + 7), gens, n // 3))
    return chk


def fns(chk, r, exe, n):
    eps = []
    for _ in range(n // 20):
        ep = g.Episode(dec=True, init=[])
        ep.raw('D - 0', None)
        for _ in range(20):
            line, ev = g.g_fn(r)
            ep.raw(line, ev)
        ep.meta = 'fn'
        eps.append(ep)
    do(chk, exe, eps)


def patching(tier):
    chk = vf.Check('P08', tier)
    r = random.Random('P08/%s' % vf.SEED)
    n = 4000 if tier == 'quick' else 50000
    with vf.Scratch('P08') as wd:
        exe = build(wd)
        do(chk, exe, [g.deferred(r) for _ in range(n)])
        hs = model(chk, ['b1', 'w13', 'al'] + list(DETS) + ['p1a', 'p1b', 'p2a', 'p2b'], 0, 4 if tier == 'quick' else 6, maxdets=2)
        do(chk, exe, [replayed(h, 0, f) for h in hs for f in ((255,) if tier == 'quick' else (0, 255))])
    return chk


def robust(tier):
    chk = vf.Check('P09', tier)
    r = random.Random('P09/%s' % vf.SEED)
    n = 900 if tier == 'quick' else 16000
    with vf.Scratch('P09') as wd:
        exe = build(wd)
        gens = g.ALL
        eps = mutated(r, exe, [x for x in gens if x not in g.STRS] , n) + mutated(r, exe, g.STRS, n // 10)
        eps += [g.hostile(r, gens) for _ in range(2 * n)]
        eps += [g.hostile(r, g.REALS, wire=g.real_wire(r)) for _ in range(n // 2)]
        eps += g.sweep_lenwire(r)
        do(chk, exe, eps)
        # the same with assertions compiled out: refusal must not rest on assert()
        exe2 = build(wd, extra=['-DNDEBUG'])
        do(chk, exe2, eps[::4])
    return chk


def streaming(tier):
    chk = vf.Check('P10', tier)
    r = random.Random('P10/%s' % vf.SEED)
    n = 3000 if tier == 'quick' else 50000
    with vf.Scratch('P10') as wd:
        exe = build(wd, streaming=True)
        eps = []
        for _ in range(n):
            ch = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 64])
            gens = [x for x in g.ALL if x not in (g.g_bitsnul, g.g_pat, g.g_align, g.g_str)] + [g.g_align] * (ch % 4 == 0) + [g.g_str]
            ep = g.roundtrip(r, gens, r.randrange(1, 12), chunk=ch, tail=False)
            ep.cap = 10 ** 8
            eps.append(ep)
        do(chk, exe, eps)
        for ch in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4, 5):
            hs = model(chk, [n for n in WRITES if n not in ('b0', 'z11')] if tier == 'quick' else list(WRITES), ch, 3 if tier == 'quick' else 4)
            do(chk, exe, [replayed(h, ch, 0) for h in hs])
    return chk


# ------------------------------------------------- other machine words (WORD_SIZE, FP_WORD_SIZE)
WIDE = {'nonneg': 0, 'nonnegneg': 0, 'scint': 1, 'scuint': 0, 'ucint': 1, 'alen': 0, 'oid': 0, 'roid': 0}


def _word(w):
    return int.from_bytes(bytes(w), 'big')


def _signed(w):
    v = _word(w)
    return v - ((v >> 63) << 64)


def fits32(ev):
    op = ev['op']
    ws = [ev[k] for k in ('v', 'lo', 'hi') if isinstance(ev.get(k), list) and op != 'real'] + list(ev.get('arcs', []))
    if op not in g.NARROW and op not in WIDE:
        return True
    if op in ('cint', 'scint', 'ucint') or op.startswith('atwo') or op.startswith('asasc'):
        return all(-(1 << 31) <= _signed(w) < (1 << 31) for w in ws)
    return all(_word(w) < (1 << 32) for w in ws)


def single(ev):
    """the value is one of single precision"""
    if ev['op'] != 'real':
        return not ev['op'].startswith('f64')
    x = struct.unpack('>d', bytes(ev['v']))[0]
    if x != x or x in (float('inf'), -float('inf')):
        return True
    return abs(x) < 3.4e38 and struct.unpack('>d', struct.pack('>d', struct.unpack('>f', struct.pack('>f', x))[0]))[0] == x


def worded(gen, word, fp):
    """the same generator, restricted to what fits the words of this build"""
    def f(r):
        for _ in range(10000):
            o = gen(r)
            if word == 4 and not fits32(o.ev) or fp == 4 and not single(o.ev):
                continue
            d = o.dec.ev
            if word == 4 and (d['op'] in g.NARROW or d['op'] in WIDE):
                d['w'], d['ws'] = min(d.get('w', 64), 32), 4
            if fp == 4 and d['op'] == 'real':
                d['f32'] = 1
            return o
        raise vf.Broken('no value of %s fits' % gen.__name__)
    return f


def words(chk, r, wd, n):
    for word, fp in ((4, 8), (8, 4), (4, 4)):
        exe = build(wd, extra=['-DWORD_SIZE=%d' % word, '-DFP_WORD_SIZE=%d' % fp])
        gens = [worded(x, word, fp) for x in g.ALL]
        ints = [worded(x, word, fp) for x in g.UPERINT + g.ACNINT + [g.g_nonneg] + g.OIDS]
        reals = [worded(g.g_real, word, fp), worded(g.g_f, word, fp)]
        eps = histories(r, gens, n) + histories(r, ints, n) + histories(r, reals, n // 2)
        eps += [g.hostile(r, reals[:1], wire=g.real_wire(r)) for _ in range(n // 4)]
        do(chk, exe, eps, what='WORD_SIZE=%d FP_WORD_SIZE=%d: ' % (word, fp), detail=lambda s, e: {'word': word, 'fp': fp})
