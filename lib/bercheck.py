"""P11: the BER functions of the C run-time library against spec/BerTrace.tla."""
import concurrent.futures as cf, os, random
import vf, rtgen as g, rtcheck

SRC = ('asn1crt.c', 'asn1crt_encoding.c', 'asn1crt_encoding_ber.c')


class Ep:
    def __init__(self, first, init, cap, meta):
        self.lines, self.ev, self.init, self.cap, self.meta = [first], [None], init, cap, meta

    def add(self, op):
        self.lines.append(op[0])
        self.ev.append(op[1])


def tag(r):
    p = r.random()
    if p < .6:
        t = r.choice([0x02, 0x04, 0x30, 0x80, 0xA0, 0xBF, 0xFF, 0, 0x1E, r.randrange(256)])
    else:
        n = r.choice([2, 2, 3, 4, 5, 8])
        t = r.getrandbits(8 * n) | r.choice([0x1f, 0x3f, 0xbf]) << 8 * (n - 1)
    return t


def size(r):
    return r.choice([0, 1, 2, 7, 127, 128, 129, 255, 256, 257, r.randrange(0, 40), r.randrange(0, 40), r.choice([65535, 65536, 70000]) if r.random() < .05 else 3])


def enc_op(r):
    """(line, event, decode op)"""
    t = tag(r)
    o = r.choice(['tag', 'lens', 'lene', 'null', 'bool', 'int', 'int', 'int', 'real', 'str', 'oct', 'bits', 'bits'])
    ev = {'k': 'enc', 'op': o, 'tag': g.W(t)}
    dv = {'k': 'dec', 'op': o, 'tag': g.W(t)}
    ln = 'e %s %x' % (o, t)
    dl = 'd %s %x' % (o, t)
    if o == 'lens':
        dv['op'], dl = 'len', 'd len 0'
    elif o == 'lene':
        dv['op'], dl = 'eoc2', 'd eoc2 0'
    elif o == 'bool':
        ev['n'] = r.randrange(2)
        ln += ' %d' % ev['n']
    elif o == 'int':
        v = g.sword(r)
        ev['v'] = g.W(v)
        ln += ' %x' % (v & g.M64)
    elif o == 'real':
        v = g.dword(g.a_real(r))
        ev['v'] = g.W(v)
        ln += ' %x' % v
    elif o in ('str', 'oct'):
        n = size(r)
        d = g.B(r, n)
        mx = n + r.choice([0, 0, 0, 1, 5])
        ev['d'] = d
        dv['max'] = mx
        ln += ' %d %s' % (n, g.hb(d))
        dl += ' %d%s' % (mx, ' n' if o == 'oct' and r.random() < .2 else '')
    elif o == 'bits':
        n = r.choice([size(r), r.randrange(0, 40)])
        d = g.B(r, (n + 7) // 8)
        mx = n + r.choice([0, 0, 0, 1, 5, 8])
        ev.update(d=d, n=n)
        dv['max'] = mx
        ln += ' %d %s' % (n, g.hb(d))
        dl += ' %d%s' % (mx, ' n' if r.random() < .2 else '')
    return ln, ev, (dl, dv)


def looks(r, ops):
    """now and then a look ahead before a decoding step"""
    out = []
    for l, e in ops:
        if r.random() < .25:
            t = e['tag'] if r.random() < .6 else g.W(tag(r))
            out.append(('d look %x' % int.from_bytes(bytes(t), 'big'), {'k': 'look', 'op': 'look', 'tag': t}))
        if r.random() < .2:
            out.append(('d eoc 0', {'k': 'look', 'op': 'eoc'}))
        out.append((l, e))
    return out


def length(r, n):
    """a way to write a length"""
    p = r.random()
    if p < .5:
        return [n] if n < 128 else [128 + (n.bit_length() + 7) // 8] + list(n.to_bytes((n.bit_length() + 7) // 8, 'big'))
    if p < .75:
        k = r.choice([1, 2, 3, 4, 5, 8, 20, 126, 127])
        return [128 + k] + list(n.to_bytes(k, 'big')) if n < 256 ** k else [n & 127]
    if p < .8:
        return [128]
    if p < .9:
        k = r.choice([4, 4, 5, 8, 9])
        return [128 + k] + [r.choice([0, 0x7f, 0x80, 0xff, 1]) for _ in range(k)]
    return [r.randrange(256)]


def wire(r):
    """(octets a peer may send, decode op)"""
    t = tag(r)
    to = list(t.to_bytes(max(1, (t.bit_length() + 7) // 8), 'big'))
    if r.random() < .1:
        to[0] ^= 0x20
    if r.random() < .05:
        to[r.randrange(len(to))] ^= 1 << r.randrange(8)
    o = r.choice(['null', 'bool', 'int', 'int', 'real', 'str', 'oct', 'bits', 'bits', 'len', 'tag', 'eoc2'])
    dv = {'k': 'dec', 'op': o, 'tag': g.W(t)}
    dl = 'd %s %x' % (o, t)
    if o == 'len':
        return length(r, r.choice([0, 5, 127, 128, 255, 256, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1])), (dl, dv)
    if o == 'tag':
        return to, (dl, dv)
    if o == 'eoc2':
        return [r.choice([0, 0, 1]), r.choice([0, 0, 1, 128])], (dl, dv)
    c = []
    if o == 'null':
        c = [0] * r.choice([0, 0, 1])
    elif o == 'bool':
        c = [r.choice([0, 1, 2, 128, 255])] * r.choice([1, 1, 1, 0, 2])
    elif o == 'int':
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 8, 9, 10, 16])
        c = g.B(r, n) if r.random() < .6 else [r.choice([0, 255])] * (n - 1) + [r.randrange(256)] * (n > 0)
    elif o == 'real':
        c = g.real_wire(r)[1:] if r.random() < .8 else [r.choice([0x40, 0x41, 0x42, 0x43, 0x44, 0, 3, 0x83])] * r.choice([0, 1, 1, 2])
    else:
        n = size(r)
        c = g.B(r, n)
        if o == 'bits':
            c = [r.choice([0, 0, 1, 3, 7, 7, 8, 9, 255])] + c if r.random() < .95 else []
            mx = max(0, 8 * (len(c) - 1) + r.choice([0, 0, -1, -7, -8, 1, 8]))
        else:
            mx = max(0, n + r.choice([0, 0, 0, -1, 1, 10]))
        dv['max'] = mx
        dl += ' %d%s' % (mx, ' n' if o != 'str' and r.random() < .2 else '')
    w = to + length(r, len(c)) + c
    if r.random() < .15:
        w = w[:r.randrange(len(w) + 1)]
    return w, (dl, dv)


def run(pr, eps):
    out = []
    for ep in eps:
        ans = pr.episode(ep.lines)
        tr = {'dec': ep.lines[0][0] == 'D', 'init': ep.init, 'cap': ep.cap, 'ev': []}
        for a, e in zip(ans, ep.ev):
            if e is None:
                continue
            if a in ('crash', 'hang'):
                tr['ev'].append(dict(e, k=a, was=e['k'], why=pr.err))
                break
            w = a.split()
            e = dict(e, ok=w[0] == '1', err=int(w[1]), p=int(w[2]))
            if e['k'] == 'enc':
                e['out'] = list(bytes.fromhex(w[3])) if w[3] != '-' else []
            elif e['k'] == 'dec':
                if e['op'] in ('int', 'real'):
                    e['v'] = list(bytes.fromhex(w[3]))
                elif e['op'] in ('bool', 'len'):
                    e['v'] = int(w[3])
                elif e['op'] in ('str', 'oct', 'bits'):
                    e['n'] = int(w[3])
                    e['v'] = list(bytes.fromhex(w[4])) if w[4] != '-' else []
            tr['ev'].append(e)
            if not e['ok'] and e['k'] != 'look':
                break
        out.append(tr)
    return out


def drive(exe, eps):
    k = max(1, min(rtcheck.WORKERS, len(eps) // 50 + 1))
    parts = [eps[i::k] for i in range(k)]

    def one(p):
        pr = vf.Proc(exe)
        try:
            return run(pr, p)
        finally:
            pr.close()
    with cf.ThreadPoolExecutor(k) as ex:
        res = list(ex.map(one, parts))
    out = [None] * len(eps)
    for i, x in enumerate(res):
        for j, t in enumerate(x):
            out[i + j * k] = t
    return out


def check(tier):
    chk = vf.Check('P11', tier)
    n = 2500 if tier == 'quick' else 40000
    r = random.Random('%s/P11' % vf.SEED)
    with vf.Scratch('ber') as wd:
        exe = vf.build_c(os.path.join(wd, 'ber'), os.path.join(vf.VERIF, 'harness', 'bytes', 'ber.c'), srcs=SRC)
        for step in range(0, n, 20000):
            m = min(20000, n - step)
            eps, decs = [], []
            for _ in range(m):
                ops = [enc_op(r) for _ in range(r.randrange(1, 6))]
                need = sum(40 + len(o[1].get('d', [])) for o in ops)
                cap = need if r.random() < .5 else r.randrange(0, min(need, 120))
                ep = Ep('E %d' % cap, [], cap, 'enc')
                for l, e, _ in ops:
                    ep.add((l, e))
                eps.append(ep)
                decs.append([o[2] for o in ops])
            # every value of an octet and the lengths around the boundaries
            if step == 0:
                for v in list(range(-300, 300)) + [s * (2 ** k) + d for k in range(7, 64) for s in (1, -1) for d in (-1, 0, 1)]:
                    if -2 ** 63 <= v < 2 ** 63:
                        ep = Ep('E 12', [], 12, 'sweep')
                        ep.add(('e int 2 %x' % (v & g.M64), {'k': 'enc', 'op': 'int', 'tag': g.W(2), 'v': g.W(v)}))
                        eps.append(ep)
                        decs.append([('d int 2', {'k': 'dec', 'op': 'int', 'tag': g.W(2)})])
                for _ in range(60 if tier == 'quick' else 600):
                    o = enc_op(r)
                    if len(o[0]) < 100:
                        for cap in range(0, 50):
                            ep = Ep('E %d' % cap, [], cap, 'enc')
                            ep.add(o[:2])
                            eps.append(ep)
                            decs.append([o[2]])
            tr = drive(exe, eps)
            rtcheck.validate(chk, eps, tr, module='BerTrace', cfg='SPECIFICATION Spec\n')
            for e, t in list(zip(eps, tr))[:2]:
                chk.sample({'script': e.lines[:6], 'answer': [{k: v for k, v in x.items() if k in ('k', 'op', 'ok', 'p', 'out')} for x in t['ev'][:4]]})
            d2 = []
            for t, d in zip(tr, decs):          # what was written is read back, whole, cut and corrupted
                if not t['ev'] or t['ev'][-1]['k'] != 'enc' or not t['ev'][-1]['ok']:
                    continue
                w = t['ev'][-1]['out']
                if len(w) < 40 and r.random() < .06:
                    for q in range(len(w)):
                        ep = Ep('D ' + g.hb(w[:q]), w[:q], q, 'dec')
                        for o in d:
                            ep.add(o)
                        d2.append(ep)
                for v in range(3):
                    x = list(w)
                    if v == 1:
                        x = x[:r.randrange(len(x) + 1)]
                    if v == 2 and x:
                        for _ in range(r.choice([1, 1, 2])):
                            i = r.randrange(min(len(x), 60))
                            x[i] = r.choice([x[i] ^ 1 << r.randrange(8), 0, 255, 128, r.randrange(256)])
                    ep = Ep('D ' + g.hb(x), x, len(x), 'dec')
                    for o in looks(r, d):
                        ep.add(o)
                    d2.append(ep)
            for _ in range(2 * m):
                ws = [wire(r) for _ in range(r.choice([1, 1, 2, 3]))]
                x = [b for w, _ in ws for b in w]
                ep = Ep('D ' + g.hb(x), x, len(x), 'wire')
                for o in looks(r, [o for _, o in ws]):
                    ep.add(o)
                d2.append(ep)
            tr = drive(exe, d2)
            rtcheck.validate(chk, d2, tr, module='BerTrace', cfg='SPECIFICATION Spec\n')
    return chk
