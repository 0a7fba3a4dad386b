"""ACN: what a schema designer lays down next to the types - the text for the compiler and the records spec/Acn.tla reads."""
import copy
from asn import *


class Fld:
    """a field inserted by ACN, or a parameter. path: how others name it"""

    def __init__(self, name, t, path=None):
        self.name, self.t, self.path = name, t, path or name


class C:
    """a component in a list of fields: the field that says it is there, or an expression; arguments"""

    def __init__(self, name, pw=None, px=None, args=()):
        self.name, self.pw, self.px, self.args = name, pw, px, list(args)


def ac(t, **p):
    """t with properties. al, enc, sz, le, term, mf, ev, vals, tv, fv, pat, asc, det, ch, pw, own (properties of a reference)"""
    t = dict(t)
    t['ap'] = dict(t.get('ap', {}), **p)
    if 'ref' in t:
        t['xap'] = dict(t.get('xap', {}), **p)
    return t


def par(t, *flds):
    t = dict(t)
    t['params'] = list(flds)
    return t


# ------------------------------------------------------------- text
AL = {8: 'byte', 16: 'word', 32: 'dword'}
ENCS = {'pos': 'pos-int', 'two': 'twos-complement', 'asc': 'ASCII', 'bcd': 'BCD', '32': 'IEEE754-1985-32', '64': 'IEEE754-1985-64'}


def bs(b):
    return "'%s'B" % ''.join(map(str, b))


def xs(t):
    return [''.join('%02X' % x for x in t)]


def props(t, p):
    k, l = t['k'], []
    if p.get('al'):
        l.append('align-to-next ' + AL[p['al']])
    if k in ('int', 'enum', 'real'):
        if p.get('enc'):
            l.append('encoding ' + ENCS[p['enc']])
            if k != 'real':
                l.append('size ' + (p.get('sztxt') or ('null-terminated' if not p['sz'] else str(p['sz']))))
        if p.get('term'):
            l.append("termination-pattern '%s'H" % bytes(p['term']).hex().upper())
        if p.get('le') is not None:
            l.append('endianness ' + ('little' if p['le'] else 'big'))
        if p.get('mf'):
            l.append('mapping-function ' + p['mf'])
        if p.get('ev'):
            l.append('encode-values')
    if k == 'bool':
        if 'tv' in p:
            l.append('true-value ' + bs(p['tv']))
        if 'fv' in p:
            l.append('false-value ' + bs(p['fv']))
    if k == 'null' and 'pat' in p:
        l.append('pattern ' + ("'%s'H" % hexbits(p['pat']) if p.get('hex') else bs(p['pat'])))
    if k == 'str' and p.get('asc'):
        l.append('encoding ASCII')
    if k in ('str', 'oct', 'bits', 'sof'):
        if p.get('det'):
            l.append('size ' + p['det'].path)
        if p.get('szfix'):
            l.append('size %d' % p['szfix'])
        if 'term' in p:
            l.append('size null-terminated')
            if k == 'str':
                if p['term'] != [0] or p.get('showterm'):
                    l.append("termination-pattern '%s'H" % bytes(p['term']).hex().upper())
            else:
                l.append('termination-pattern ' + (("'%s'H" % hexbits(p['term'])) if len(p['term']) % 8 == 0 else bs(p['term'])))
    if k == 'choice' and p.get('det'):
        l.append('determinant ' + p['det'].path)
    return l


def hexbits(b):
    return '%0*X' % (len(b) // 4, int(''.join(map(str, b)), 2))


def ex(e):
    if isinstance(e, tuple):
        if e[0] == 'f':
            return e[1]
        if e[0] == '!':
            return '!(%s)' % ex(e[1])
        return '(%s %s %s)' % (ex(e[1]), e[0], ex(e[2]))
    return str(e)


def lits(v):
    return '"%s"' % v if isinstance(v, str) else str(v)


def spec(t, extra=(), ind=1):
    """[properties] {children} where a type is used"""
    ref = 'ref' in t
    p = t.get('xap', {}) if ref else t.get('ap', {})
    s = '[%s]' % ', '.join(list(extra) + props(t, p))
    if ref:
        return s
    pad = '\n' + '  ' * ind
    l = []
    if t['k'] == 'seq' and (p.get('ch') or any(interesting(c['t']) for c in t['comps'])):
        for c in children(t):
            if isinstance(c, Fld):
                l.append('%s %s %s' % (c.name, ftype(c.t), spec(c.t, ind=ind + 1)))
                continue
            m = comp(t, c.name)
            e = ['present-when ' + c.pw.path] if c.pw else ['present-when ' + ex(c.px)] if c.px is not None else []
            l.append('%s%s %s' % (c.name, ' <%s>' % ', '.join(f.path for f in c.args) if c.args else '', spec(m['t'], e, ind + 1)))
    elif t['k'] == 'choice' and (p.get('pw') or any(interesting(a) for a in t['alts']) or p.get('altargs')):
        for i, (n, a) in enumerate(zip(t['names'], t['alts'])):
            e = ['present-when ' + ' '.join('%s==%s' % (f.path, lits(v)) for f, v in p['pw'][i])] if p.get('pw') else []
            ar = p.get('altargs', {}).get(n, [])
            l.append('%s%s %s' % (n, ' <%s>' % ', '.join(f.path for f in ar) if ar else '', spec(a, e, ind + 1)))
    elif t['k'] == 'sof' and (interesting(t['t']) or p.get('elargs')):
        ar = p.get('elargs', [])
        l.append('%s%s' % ('<%s> ' % ', '.join(f.path for f in ar) if ar else '', spec(t['t'], ind=ind + 1)))
    elif t['k'] == 'enum' and p.get('vals'):
        l = ['%s [%d]' % (n, v) for n, v in zip(t['names'], p['vals'])]
    if l:
        s += ' {' + pad + (',' + pad).join(l) + '\n' + '  ' * (ind - 1) + '}'
    return s


def interesting(t):
    if 'ref' in t:
        return bool(t.get('xap'))
    if t.get('ap'):
        return True
    if t['k'] == 'seq':
        return any(interesting(c['t']) for c in t['comps'])
    if t['k'] == 'choice':
        return any(interesting(a) for a in t['alts'])
    return t['k'] == 'sof' and interesting(t['t'])


def ftype(t):
    return t['ref'] if 'ref' in t else {'int': 'INTEGER', 'bool': 'BOOLEAN', 'null': 'NULL'}[t['k']]


def comp(t, n):
    return next(c for c in t['comps'] if c['n'] == n)


def children(t):
    """the fields in wire order"""
    l = t.get('ap', {}).get('ch')
    if l is None:
        return [C(c['n']) for c in t['comps']]
    return [C(c) if isinstance(c, str) else c for c in l]


def text(types, name, consts=()):
    l = ['%s DEFINITIONS ::= BEGIN' % name] + ['CONSTANT %s ::= %s' % c for c in consts]
    for n, t in types.items():
        if 'acntxt' in t:
            l.append(t['acntxt'])
            continue
        ps = t.get('params', [])
        l.append('%s%s %s' % (n, ' <%s>' % ', '.join('%s:%s' % (ftype(f.t), f.name) for f in ps) if ps else '', spec(t)))
    return '\n'.join(l + ['END', ''])


# ------------------------------------------------------------- records
def fin(t, num, cnt):
    """the type with its records; num: the numbers of the fields in scope"""
    t = dict(t)
    p, k = t.get('ap', {}), t['k']
    r = {'al': p.get('al', 0)}
    of = lambda f: num[id(getattr(f, 'same', f))] if f else 0
    if k in ('int', 'enum'):
        r.update(enc=p.get('enc', ''), sz=p.get('sz', 0), le=p.get('le') or 0, term=p.get('term', [0]), mf='milbus' if p.get('mf') else '', sg=0)
        if k == 'enum':
            r.update(ev=p.get('ev', 0), vals=[w9(v) for v in p.get('vals', [])])
    elif k == 'real':
        r.update(enc=p.get('enc', ''), le=p.get('le') or 0)
    elif k == 'bool':
        r.update(tv=p.get('tv', []), fv=p.get('fv', []))
    elif k == 'null':
        r.update(pat=p.get('pat', []))
    elif k in ('str', 'oct', 'bits', 'sof'):
        term = p.get('term', [])
        r.update(det=of(p.get('det')), term=bits(term) if k == 'str' else term)
        if k == 'str':
            r['asc'] = p.get('asc', 0)
        if k == 'sof':
            n2 = dict(num)
            for f, g in zip(t['t'].get('params', []), p.get('elargs', [])):
                n2[id(f)] = num[id(getattr(g, 'same', g))]
            t['t'] = fin(t['t'], n2, cnt)
    elif k == 'choice':
        d = p.get('det')
        r.update(det=of(d), em=[d.t['names'].index(n) + 1 for n in t['names']] if d else [],
                 pw=[[[of(f), [ord(x) for x in v] if isinstance(v, str) else w9(v)] for f, v in l] for l in p.get('pw', [])])
        l = []
        for n, a in zip(t['names'], t['alts']):
            n2 = dict(num)
            for f, g in zip(a.get('params', []), p.get('altargs', {}).get(n, [])):
                n2[id(f)] = num[id(getattr(g, 'same', g))]
            l.append(fin(a, n2, cnt))
        t['alts'] = l
    elif k == 'seq':
        ch, comps = [], [dict(c) for c in t['comps']]
        for c in children(t):
            if isinstance(c, Fld):
                cnt[0] += 1
                d = cnt[0]
                ft = fin(c.t, num, cnt)
                if ft['k'] == 'int' and ft['acn']['enc'] == 'asc':      # ASCII fields inserted by ACN carry a sign
                    ft['acn']['sg'] = 1
                ch.append({'c': 0, 'd': d, 't': spec_type(ft), 'pw': 0, 'px': []})
                num[id(c)] = d
                continue
            i = next(j for j, m in enumerate(comps) if m['n'] == c.name)
            n2 = num
            if c.args:
                for f, g in zip(comps[i]['t']['params'], c.args):
                    n2[id(f)] = num[id(getattr(g, 'same', g))]
            comps[i]['t'] = fin(comps[i]['t'], n2, cnt)
            ch.append({'c': i + 1, 'd': 0, 't': 0, 'pw': of(c.pw), 'px': [] if c.px is None else [exj(t, c.px)]})
        t['comps'] = comps
        r['ch'] = ch
    t['acn'] = r
    return t


def exj(t, e):
    if isinstance(e, tuple):
        if e[0] == 'f':
            return {'o': 'f', 'i': 1 + [c['n'] for c in t['comps']].index(e[1])}
        if e[0] == '!':
            return {'o': '!', 'a': exj(t, e[1])}
        return {'o': e[0], 'a': exj(t, e[1]), 'b': exj(t, e[2])}
    return {'o': 'n', 'n': e}


def bits(octets):
    return [(x >> (7 - i)) & 1 for x in octets for i in range(8)]


def finish(types):
    """types as driven: those without parameters, with records"""
    return {n: (t if t.get('params') else fin(t, {}, [0])) for n, t in types.items()}
