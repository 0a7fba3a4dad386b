"""P12: the XER functions of the C run-time library against spec/XerTrace.tla."""
import concurrent.futures as cf, os, random
import vf, rtgen as g, rtcheck

SRC = ('asn1crt.c', 'asn1crt_encoding.c', 'asn1crt_encoding_xer.c')
WORD = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_+'


class Ep:
    def __init__(self, first, init, cap, ws, meta):
        self.lines, self.ev, self.init, self.cap, self.ws, self.meta = [first], [None], init, cap, ws, meta

    def add(self, op):
        self.lines.append(op[0])
        self.ev.append(op[1])


def lat(s):
    return s.encode('latin-1').hex() or '-'


def name(r):
    p = r.random()
    if p < .5:
        return r.choice(['a', 'b', 'INTEGER', 'T-1', 'my-seq', 'true', 'x.y', 'ab', 'a1', 'aa', 'lt'])
    n = r.choice([1, 2, 5, 20, 49, 50, 98, 99]) if p < .97 else 99
    return r.choice(WORD[:52]) + ''.join(r.choice(WORD) for _ in range(n - 1))


def tg(t):
    return t or '-'


def text(r, n):
    p = r.random()
    if p < .4:
        return ''.join(chr(r.randrange(32, 127)) for _ in range(n))
    if p < .6:
        return ''.join(r.choice('<>&;"\'/ltampgquo#= ') for _ in range(n))
    if p < .7:
        return ''.join(r.choice([' ', '\n', '\t', 'x', '<']) for _ in range(n))
    return ''.join(chr(r.choice([r.randrange(1, 11), r.randrange(12, 128), r.randrange(128, 256)])) for _ in range(n))


def size(r):
    return r.choice([0, 1, 2, 3, 7, 8, 9, 16, 17, r.randrange(40), 127, 128, 255, 256]) if r.random() < .99 else r.choice([1023, 1024, 1025, 2047, 2049])


def a_double(r):
    p = r.random()
    if p < .55:
        return g.dword(r.choice([0.0, -0.0, 1.0, -1.0, .1, .5, 1 / 3, 123456789., 1e15, 1e16, 1e17, 1e22, 1e23, 9007199254740993., r.uniform(-1, 1), r.uniform(-1e6, 1e6),
                                 r.getrandbits(53), r.randrange(-1000, 1000) / 8, r.random() * 10. ** r.randrange(-20, 20), float('inf'), float('-inf'), float('nan')]))
    if p < .95:
        return r.randrange(1023 - 60, 1023 + 60) << 52 | r.getrandbits(52) | r.getrandbits(1) << 63
    return r.choice([r.getrandbits(64), 1, 2, 0x7FEFFFFFFFFFFFFF, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FE << 52, r.getrandbits(50)])


def enc_op(r, first):
    """(line, event, decode op)"""
    t = name(r)
    o = r.choice(['null', 'int', 'int', 'pint', 'bool', 'enum', 'real', 'str', 'str', 'oct', 'bits', 'oid', 'start', 'end', 'comment'] + ['header'] * 4 * first)
    if o in ('bool', 'enum', 'start', 'end') and r.random() < .15:
        t = ''
    lv = r.choice([-1, 0, 1, 2, 5])
    ev = {'k': 'enc', 'op': o, 'tag': t, 'level': lv}
    dv = {'k': 'dec', 'op': o, 'tag': t, 'nul': False}
    ln = 'e %s %s %d' % (o, tg(t), lv)
    dl = 'd %s %s' % (o, tg(t))
    if o == 'int':
        v = g.sword(r)
        ev['v'] = g.W(v)
        ln += ' %x' % (v & g.M64)
    elif o == 'pint':
        v = g.uword(r)
        ev['v'] = g.W(v)
        ln += ' %x' % v
    elif o == 'bool':
        ev['n'] = r.randrange(2)
        ln += ' %d' % ev['n']
    elif o == 'enum':
        ev['s'] = name(r)
        ln += ' ' + ev['s']
    elif o == 'real':
        v = a_double(r)
        ev['v'] = g.W(v)
        ln += ' %x' % v
    elif o == 'str':
        s = text(r, size(r))
        ev['s'] = s
        ln += ' ' + lat(s)
        dv['max'] = len(s) + 1 + r.choice([0, 0, 0, 1, 7])
        dl += ' %d' % dv['max']
    elif o in ('oct', 'bits'):
        n = size(r)
        b = n if o == 'oct' else (n + 7) // 8
        d = g.B(r, b)
        ev['d'], ev['n'] = d, n
        ln += ' %d %s' % (n, g.hb(d))
        dv['nul'] = r.random() < .3
        dv['max'] = b + (r.choice([0, 0, 0, 1, 5]) if not dv['nul'] or r.random() < .2 else 0)
        dl += ' %d %d' % (dv['max'], dv['nul'])
    elif o == 'oid':
        a = [g.uword(r) if r.random() < .5 else r.randrange(50) for _ in range(r.choice([0, 1, 2, 3, 5, 19, 20]))]
        ev['a'] = [g.W(x) for x in a]
        ln += ' %d%s' % (len(a), ''.join(' %x' % x for x in a))
    elif o == 'start':
        at = [[name(r)[:49], name(r)] for _ in range(r.choice([0, 0, 0, 1, 2, 19, 20]))] if t else []
        ev['at'] = at
        ln += ' %d%s' % (len(at), ''.join(' %s %s' % tuple(x) for x in at))
        dv['nul'] = r.random() < .4
        dl += ' %d' % dv['nul']
    elif o == 'comment':
        s = text(r, r.choice([0, 1, 5, 20])).replace('-', '~') if r.random() < .8 else r.choice(['a-b', 'a->b', '-', '<x>'])
        if s.endswith('-') or '--' in s:
            s += '~'
        ev['s'] = s
        ln += ' ' + lat(s)
        dl = None
    elif o == 'header':
        s = r.choice(['', '<?xml version="1.0"?>', '<?a?>'])
        ev['s'] = s or '<?xml version="1.0" encoding="UTF-8"?>'
        ln += ' ' + lat(s)
        dl = None
    return ln, ev, (dl, dv) if dl else None


def looks(r, ops):
    """now and then a look ahead before a decoding step"""
    out = []
    for l, e in ops:
        if r.random() < .25:
            o = r.choice(['nextstart', 'nextend', 'nexttag'])
            t = (e['tag'] if r.random() < .7 else name(r)) or 'q'
            out.append(('d %s %s' % (o, t), {'k': 'look', 'op': o, 'tag': t}))
        out.append((l, e))
    return out


def number(r):
    p = r.random()
    s = str(r.choice([g.sword(r), g.uword(r), 2 ** 63, 2 ** 63 - 1, -2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 64 - 1, 10 ** 19, 10 ** 25, 0]))
    if p < .6:
        return s
    if p < .7:
        return r.choice(['+', '-', '', '0', '00', '-0']) + s.lstrip('-')
    if p < .8:
        return r.choice([' ', '\n', '']) + s + r.choice([' ', '\t\n', ''])
    i = r.randrange(len(s) + 1)
    return r.choice(['', '-', '0x10', s[:i] + r.choice(' x.e-+,') + s[i:], s + 'a', 'a' + s, s + '.0', '0' * 260 + s.lstrip('-')])


def decimal(r):
    p = r.random()
    if p < .15:
        return '%.*e' % (r.choice([0, 1, 5, 14, 15, 16, 17, 20, 30]), r.uniform(-1, 1) * 10. ** r.randrange(-30, 30))
    if p < .3:
        return '%.*f' % (r.choice([0, 1, 3, 10]), r.uniform(-1e4, 1e4))
    if p < .4:
        return repr(r.uniform(-1e6, 1e6))
    if p < .6:
        return r.choice(['0', '-0', '0.0', '1', '-1', '1.0E0', '1.0E+5', '1.E5', '.5', '5.', '1e400', '-1e400', '1e-400', '4.9e-324', '2.5e-324', '2.4e-324', '1.7976931348623157e308', '1.7976931348623159e308',
                         '9007199254740993', '9007199254740992.9999', '1' * 40, '0.' + '0' * 30 + '1', '1E5', '1e5', '-1.5E-7', '+1.5', '2.2250738585072014e-308', '2.2250738585072011e-308', '00012.50'])
    if p < .7:
        return r.choice(['', '-', 'e5', '1e', '1e+', '1.5.2', '1,5', '0x1p3', 'INF', 'nan', 'NaN', 'inf', '1 5', '--1', '1e5.0', 'PLUS-INFINITY', '1e5x', '.', 'E', '1d5'])
    # halfway between two doubles
    m = r.getrandbits(53) | 1 << 52
    return '%d%s' % (2 * m + 1, r.choice(['', '.0', 'e0', '.00000001', 'E+00']))


def markup(r, s):
    """white space and comments where XML allows or forbids them"""
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(len(s) + 1)
        j = [k for k, c in enumerate(s) if c in '<>/='] or [0]
        if r.random() < .6:
            i = r.choice(j) + r.randrange(2)
        s = s[:i] + r.choice([' ', '\n', '\t ', '<!-- c -->', '<!---->', '<?pi x?>', '\r\n', ' ', '<!-- > a="b" </x> -->', '<!--', '<!-- -']) + s[i:]
    return s


def wire(r):
    """(a text a peer may send, decode op)"""
    t = name(r)
    o = r.choice(['null', 'int', 'int', 'pint', 'bool', 'enum', 'real', 'real', 'str', 'oct', 'bits', 'oid', 'start', 'end'])
    dv = {'k': 'dec', 'op': o, 'tag': t, 'nul': False}
    dl = 'd %s %s' % (o, t)
    c = ''
    if o == 'null':
        c = r.choice(['', '', ' ', 'x'])
    elif o in ('int', 'pint'):
        c = number(r)
    elif o == 'bool':
        c = r.choice(['<true/>', '<false/>', '<true></true>', '<TRUE/>', 'true', '1', '', '<true>', '<true/><false/>', '<true />'])
    elif o == 'enum':
        c = r.choice(['<%s/>', '<%s></%s>', '%s', '<%s>x</%s>', '</%s>', '<%s/>x']).replace('%s', name(r))
    elif o == 'real':
        c = decimal(r) if r.random() < .85 else r.choice(['<PLUS-INFINITY/>', '<MINUS-INFINITY/>', '<NOT-A-NUMBER/>', '<PLUS-INFINITY></PLUS-INFINITY>', '<INFINITY/>', ' <PLUS-INFINITY/> ', '<PLUS-INFINITY/>1'])
    elif o == 'str':
        n = size(r)
        c = ''.join(r.choice(['a', 'b', ' ', '&lt;', '&gt;', '&amp;', '&quot;', '&apos;', ';', '"', '\n', 'lt;'] + ['&', '&#65;', '&LT;', '&lt', '>', '/'] * (r.random() < .1)) for _ in range(n))
        dv['max'] = max(1, n + r.choice([1, 1, 1, 0, 2, -1, 10]))
        dl += ' %d' % dv['max']
    elif o == 'oct':
        n = size(r)
        c = ''.join(r.choice('0123456789ABCDEFabcdef') for _ in range(2 * n))
        dv['nul'] = r.random() < .2
        dv['max'] = max(0, n + r.choice([0, 0, 0, 1, -1, 5]))
        dl += ' %d %d' % (dv['max'], dv['nul'])
    elif o == 'bits':
        n = size(r)
        c = ''.join(r.choice('01') for _ in range(n))
        dv['nul'] = r.random() < .2
        dv['max'] = max(0, (n + 7) // 8 + r.choice([0, 0, 0, 1, -1]))
        dl += ' %d %d' % (dv['max'], dv['nul'])
    elif o == 'oid':
        c = '.'.join(str(g.uword(r) if r.random() < .4 else r.randrange(200)) for _ in range(r.choice([0, 1, 2, 4, 19, 20, 21, 30])))
        if r.random() < .15:
            c = r.choice([c + '.', '.' + c, c.replace('.', '..', 1), c + '18446744073709551616', c + '.18446744073709551615', c + '.18446744073709551616', c.replace('.', ' . ', 1), c + 'x', '1 2.3', '-1.2'])
    if o in ('oct', 'bits') and r.random() < .25 and c:
        i = r.randrange(len(c))
        c = c[:i] + r.choice([' ', '\n', 'g', '2', 'G', '-', '.', '']) + c[i + r.randrange(2):]
    if o == 'start':
        s = '<%s%s>' % (t, ''.join(' %s="%s"' % (r.choice([name(r)[:49]] * 9 + [name(r)]), r.choice([name(r)] * 12 + ['', 'a b', 'x' * 130])) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 19, 20, 21]))))
        if r.random() < .15:
            s = s[:-1] + r.choice(['/>', ' >', ' />', '/', 'a>', 'a=b>', 'a="b>', '="b">', '"'])
        dv['nul'] = r.random() < .4
        dl += ' %d' % dv['nul']
    elif o == 'end':
        s = '</%s>' % t
    else:
        at = ' a="b"' if r.random() < .04 else ''
        s = '<%s%s>%s</%s>' % (t, at, c, t) if c or r.random() < .5 else '<%s%s/>' % (t, at)
    if r.random() < .08:
        u = r.choice([t + 'x', t[:-1], t.upper(), t + '-', t + t])
        s = s.replace(t, u, 1) if r.random() < .5 else u.join(s.rsplit(t, 1))
    if r.random() < .2:
        s = markup(r, s)
    if r.random() < .1:
        s = s[:r.randrange(len(s) + 1)]
    return s, (dl, dv)


def document(r, d=0):
    """a well-formed document with white space and comments in it"""
    def gap():
        out = ''
        for _ in range(r.choice([0, 0, 1, 2])):
            out += r.choice([' ', '\n  ', '\t', '<!-- c -->', '<!-- a->b <x> </y> -->', '<!-- - > -->', '<!---->', '<!-- > -->'])
        return out
    t = name(r)
    if d >= 4 or r.random() < .4:
        c = r.choice(['', 'x', '12', ' a b ', '   ', 'ABC-->'[:3], 'a-b', '&lt;', text(r, r.randrange(30)).replace('<', '(').replace('>', ')')])
        if r.random() < .2 and c:
            i = r.randrange(len(c) + 1)
            c = c[:i] + '<!-- in->side -->' + c[i:]
        s = '<%s>%s</%s>' % (t, c, t) if r.random() < .8 else '<%s/>' % t
    else:
        s = '<%s%s>' % (t, ' k="v"' if r.random() < .2 else '') + gap() + gap().join(document(r, d + 1) for _ in range(r.randrange(1, 4))) + gap() + '</%s>' % t
    if d == 0:
        s = r.choice(['', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n']) + gap() + s + gap()
    return s


def run(pr, eps):
    out = []
    for ep in eps:
        ans = pr.episode(ep.lines)
        tr = {'init': ep.init, 'cap': ep.cap, 'ws': ep.ws, 'ev': []}
        for a, e in zip(ans, ep.ev):
            if e is None:
                continue
            if a in ('crash', 'hang'):
                tr['ev'].append(dict(e, k=a, was=e['k'], why=pr.err))
                break
            w = a.split()
            e = dict(e, ok=w[0] == '1', err=int(w[1]), p=int(w[2]))
            octets = lambda x: bytes.fromhex(x) if x != '-' else b''
            if e['k'] in ('enc', 'load'):
                e['out'] = octets(w[3]).decode('latin-1')
            elif e['op'] in ('int', 'pint', 'real'):
                e['v'] = list(bytes.fromhex(w[3]))
            elif e['op'] == 'bool':
                e['v'] = int(w[3])
            elif e['op'] in ('enum', 'str', 'nexttag'):
                e['v'] = octets(w[3]).decode('latin-1')
            elif e['op'] in ('oct', 'bits'):
                e['n'] = int(w[3])
                e['v'] = list(octets(w[4]))
            elif e['op'] == 'oid':
                e['v'] = [list(bytes.fromhex(x)) for x in w[3:]]
            elif e['op'] == 'start':
                e['v'] = [[w[i], w[i + 1]] for i in range(3, len(w), 2)]
            tr['ev'].append(e)
            if not e['ok'] and e['k'] != 'look':
                break
        out.append(tr)
    return out


def drive(exe, eps):
    k = max(1, min(rtcheck.WORKERS, len(eps) // 50 + 1))
    parts = [eps[i::k] for i in range(k)]

    def one(p):
        pr = vf.Proc(exe, cwd=os.path.dirname(exe))
        try:
            return run(pr, p)
        finally:
            pr.close()
    with cf.ThreadPoolExecutor(k) as ex:
        res = list(ex.map(one, parts))
    out = [None] * len(eps)
    for i, x in enumerate(res):
        for j, t in enumerate(x):
            out[i + j * k] = t
    return out


def check(tier):
    chk = vf.Check('P12', tier)
    n = 1500 if tier == 'quick' else 24000
    r = random.Random('%s/P12' % vf.SEED)
    with vf.Scratch('xer') as wd:
        exe = vf.build_c(os.path.join(wd, 'xer'), os.path.join(vf.VERIF, 'harness', 'bytes', 'xer.c'), srcs=SRC)
        for step in range(0, n, 8000):
            m = min(8000, n - step)
            eps, decs = [], []
            for _ in range(m):
                ops = [enc_op(r, i == 0) for i in range(r.randrange(1, 6))]
                need = sum(60 + 2 * len(o[1]['tag']) + len(str(o[1].get('s', ''))) * 5 + sum(8 + len(x) + len(y) for x, y in o[1].get('at', [])) + 22 * len(o[1].get('a', [])) +
                           (o[1]['n'] if o[1]['op'] == 'bits' else 2 * len(o[1].get('d', []))) for o in ops)
                cap = need if r.random() < .7 else r.randrange(1, min(need, 300))
                ws = r.random() < .3
                ep = Ep('E %d %d' % (cap, ws), '', cap, ws, 'enc')
                for l, e, _ in ops:
                    ep.add((l, e))
                eps.append(ep)
                decs.append([o[2] for o in ops if o[2]])
            if step == 0:                       # buffers of every size
                for _ in range(40 if tier == 'quick' else 400):
                    o = enc_op(r, True)
                    if len(o[0]) > 150 or o[1]['op'] == 'header':
                        continue
                    for cap in range(1, 90):
                        ep = Ep('E %d 1' % cap, '', cap, True, 'enc')
                        ep.add(o[:2])
                        eps.append(ep)
                        decs.append([o[2]] if o[2] else [])
            tr = drive(exe, eps)
            rtcheck.validate(chk, eps, tr, module='XerTrace', cfg='SPECIFICATION Spec\n')
            for e, t in list(zip(eps, tr))[:2]:
                chk.sample({'script': e.lines[:6], 'answer': [{k: v for k, v in x.items() if k in ('k', 'op', 'ok', 'p', 'out')} for x in t['ev'][:4]]})
            d2 = []
            for t, d in zip(tr, decs):          # what was written is read back, whole, marked up, cut and corrupted
                if not t['ev'] or t['ev'][-1]['k'] != 'enc' or not t['ev'][-1]['ok']:
                    continue
                w = t['ev'][-1]['out']
                if len(w) < 60 and r.random() < .06:
                    for q in range(len(w)):     # cut at every place
                        ep = Ep('D ' + lat(w[:q]), w[:q], q, False, 'dec')
                        for o in d:
                            ep.add(o)
                        d2.append(ep)
                for v in range(4):
                    x = w
                    if v == 1:
                        x = x[:r.randrange(len(x) + 1)]
                    if v == 2:
                        x = markup(r, x)
                    if v == 3 and x:
                        for _ in range(r.choice([1, 1, 2])):
                            i = r.randrange(len(x))
                            x = x[:i] + r.choice(['<', '>', '/', '"', '=', ' ', 'a', '0', '&', '-', '!', '?', '\xe9', x[i] + x[i], '']) + x[i + 1:]
                    ep = Ep('D ' + lat(x), x, len(x), False, 'dec')
                    for o in looks(r, d):
                        ep.add(o)
                    d2.append(ep)
            for _ in range(3 * m):
                ws = [wire(r) for _ in range(r.choice([1, 1, 2, 3]))]
                x = ''.join(w for w, _ in ws)
                ep = Ep('D ' + lat(x), x, len(x), False, 'wire')
                for o in looks(r, [o for _, o in ws]):
                    ep.add(o)
                d2.append(ep)
            for _ in range(m // 4):
                s = document(r)
                cap = len(s) + 1 if r.random() < .8 else r.randrange(1, len(s) + 1)
                ep = Ep('E %d 0' % cap, '', cap, False, 'load')
                ep.add(('L %d %s' % (cap, lat(s)), {'k': 'load', 'op': 'load', 's': s}))
                d2.append(ep)
            tr = drive(exe, d2)
            rtcheck.validate(chk, d2, tr, module='XerTrace', cfg='SPECIFICATION Spec\n')
    return chk
