"""P28: the checksum and length wrappers of the PUS-C components library."""
import glob, os, random, json, re
import vf

DIR = os.path.join(vf.REPO, 'PUSCScalaTest/asn1-pusc-lib-asn1CompilerTestInput/wrappers/c')
H = os.path.join(vf.VERIF, 'harness', 'pusc')


def crc(old, d):                    # only to make packets that are right; the specification judges
    for x in d:
        old ^= x << 8
        for _ in range(8):
            old = (old << 1 ^ (0x1021 if old & 0x8000 else 0)) & 0xffff
    return old


def iso(d):
    a = b = 0
    for x in d:
        a = (a + x) % 255
        b = (b + a) % 255
    return ((-a - b) % 255 or 255) << 8 | (b or 255)


def content(r, n):
    p = r.random()
    return [r.choice([0, 255])] * n if p < .25 else [r.choice([0, 255, 254, 1]) for _ in range(n)] if p < .4 else [r.randrange(256) for _ in range(n)]


def size(r):
    p = r.random()
    return r.randrange(0, 12) if p < .4 else r.choice([19, 20, 21, 39, 40, 41, 60, 255, 256, 257]) if p < .7 else r.randrange(12, 90) if p < .97 else r.choice([1000, 5000])


def history(r, k):
    """commands as (event, line)"""
    l = []
    hx = lambda d: ''.join('%02x' % x for x in d) or '-'
    for x in range(256):            # every table entry, from a few registers
        for o in (0, 0xffff, r.randrange(65536)):
            l.append(({'k': 'crc', 'old': o, 'in': [x]}, 'K %d %02x' % (o, x)))
    for n in list(range(0, 66)) + [255, 256, 257, 510, 511, 4000, 60000]:
        for d in ([0] * n, [255] * n, content(r, n)):
            l.append(({'k': 'iso', 'in': d}, 'I ' + hx(d)))
            l.append(({'k': 'crc', 'old': 65535, 'in': d}, 'K -1 ' + hx(d)))
    for _ in range(600 * k):
        d = content(r, size(r))
        o = r.randrange(65536)
        l.append(r.choice([({'k': 'crc', 'old': o, 'in': d}, 'K %d %s' % (o, hx(d))), ({'k': 'iso', 'in': d}, 'I ' + hx(d))]))
    for _ in range(1500 * k):
        n = size(r)
        d = content(r, n + r.choice([0, 0, 1, 5]))
        kind, nul = r.randrange(2), int(r.random() < .1)
        op = r.choice(['pu', 'pv', 'pv'])
        if op == 'pv' and n > 2 and r.random() < .8:
            c = crc(65535, d[:n - 2]) if kind else iso(d[:n - 2])
            d[n - 2:n] = c >> 8, c & 255
            if r.random() < .6:
                for _ in range(r.choice([1, 1, 2, 3])):
                    d[r.choice([r.randrange(n), n - 1, n - 2])] ^= 1 << r.randrange(8)
            elif r.random() < .3:
                d[r.choice([n - 2, n - 1])] ^= 255
        l.append(({'k': op, 'kind': ['iso', 'crc'][kind], 'in': d, 'n': n, 'e': 1 - nul}, '%s %d %d %d %s' % (op, kind, nul, n, hx(d))))
    for i in range(1200 * k):
        n = size(r) if i % 40 else r.choice([65535, 65536, 65537, 65543, 70000])
        d = content(r, n + r.choice([0, 0, 1, 5]))
        if len(d) < 6 and r.random() < .5:
            d += [7] * 6
        op = r.choice(['lu', 'lv', 'lv'])
        mx = r.choice([n, n - 1, n + 1, 65536, 65542, 7, 6, 100000]) % 2 ** 63
        if op == 'lv' and n > 6 and r.random() < .8:
            v = n - 7 + r.choice([0, 0, 0, 1, -1, 256, 65536])
            d[4:6] = v >> 8 & 255, v & 255
        bit = 0
        if op == 'lu' and n > 0 and r.random() < .2:
            bit = r.randrange(1, 8)
        nul = int(r.random() < .1)
        l.append(({'k': op, 'max': mx, 'in': d, 'n': n, 'e': 1 - nul}, '%s %d %d %d %d %s' % (op, mx, nul, n - (bit > 0), bit, hx(d))))
    for _ in range(200 * k):
        d = content(r, r.randrange(2, 20))
        at, v = r.randrange(len(d) - 1), r.choice([0, 1, 255, 256, 65535, r.randrange(65536)])
        l += [({'k': 'ue', 'at': at, 'v': v, 'in': d}, 'ue %d %d %s' % (at, v, hx(d))), ({'k': 'ud', 'at': at, 'in': d}, 'ud %d %s' % (at, hx(d)))]
    return l


def check(tier):
    chk = vf.Check('P28', tier)
    r = random.Random('%s/P28' % vf.SEED)
    with vf.Scratch('pusc') as wd:
        cfg = lambda s: 'SPECIFICATION Spec\nCONSTANTS %s\nINVARIANTS Intact Noticed NoticedIso Zero CrcTableOk\n' % s
        for s in ['N = 8 Octets = {0, 255}'] + (['N = 8 Octets = {0, 1, 255}'] if tier != 'quick' else []):
            rc, txt, dist, gen = vf.tlc('PuscModel', cfg(s.replace(' O', '\n O')), wd, workers=4, heap='3g')
            if rc:
                raise vf.Broken('the model of packets is wrong:\n' + txt[-2000:])
            chk.states += dist
            chk.transitions += gen
            chk.count('model states', dist)
        exe = vf.build_c(os.path.join(wd, 'pusc'), [os.path.join(H, 'pusc.c')] + sorted(f for f in glob.glob(DIR + '/*.c')), ['-I', H, '-I', DIR, '-fsanitize=undefined', '-fno-sanitize-recover=undefined'])
        l = history(r, 1 if tier == 'quick' else 12)
        r.shuffle(l)
        pr = vf.Proc(exe)
        codes = pr.episode(['Z -'])[0]
        if codes in ('crash', 'hang'):
            raise vf.Broken('driver: ' + pr.err)
        codes = dict(zip(('short', 'long', 'sum', 'len'), map(int, codes.split())))
        evs, q = [], 0
        while q < len(l):
            evs_b = l[q:q + 400]
            n = 0
            for (e, _), a in zip(evs_b, pr.episode([x for _, x in evs_b])):
                n += 1
                if a in ('crash', 'hang'):
                    evs.append(dict(e, k='crash', why=pr.err, was=e['k']))
                    break
                w = a.split()
                if e['k'] in ('crc', 'iso'):
                    e = dict(e, r=int(w[0]))
                elif e['k'] in ('ue', 'ud'):
                    e = dict(e, r=int(w[0]), out=unhex(w[1]))
                else:
                    e = dict(e, ret=int(w[0]), err=int(w[1]), out=unhex(w[2]), codes=codes)
                evs.append(e)
            q += max(n, 1)
        for p in range(0, len(evs), 4000):
            part = evs[p:p + 4000]
            f = os.path.join(wd, 'trace.json')
            json.dump(part, open(f, 'w'))
            rc, txt, dist, gen = vf.tlc('PuscTrace', 'INIT Init\nNEXT Next\n', wd, env={'TRACE_FILE': f}, workers=1, heap='3g')
            bad = re.findall(r'<<"BAD", (\d+), "(.*?)">>', txt)
            if dist < len(part) + 1:
                raise vf.Broken('TLC explored %d states, %d expected\n%s' % (dist, len(part) + 1, txt[-1500:]))
            chk.states += dist
            chk.transitions += gen
            chk.traces += len(part)
            for i, why in bad:
                e = part[int(i) - 1]
                chk.violation('%s of %d octets: %s %s' % (e.get('was', e['k']), len(e['in']), why, e.get('why', '')), {'k': e['k'], 'why': why, 'event': e})
        for e in evs[:6]:
            chk.sample({k: v if len(str(v)) < 100 else '...' for k, v in e.items()})
    return chk


def unhex(s):
    return [] if s == '-' else list(bytes.fromhex(s))
