"""Schemas: type records (as spec/Asn1.tla reads them), their ASN.1 text, the C
that moves values in and out of the generated structures, and values."""
import struct

K16 = 16384


def w8(n):
    return list((n & (2 ** 64 - 1)).to_bytes(8, 'big'))


def w9(n):
    return list((n & (2 ** 72 - 1)).to_bytes(9, 'big'))


def un9(b):
    return int.from_bytes(bytes(b), 'big', signed=True)


def dbl(x):
    return list(struct.pack('>d', x))


def undbl(b):
    return struct.unpack('>d', bytes(b))[0]


# ------------------------------------------------------------- constraints
def val(x, k='int'):
    return {'o': 'val', 'v': cv(x, k)}


def cv(x, k):
    if x is None:
        return []
    return w9(x) if k == 'int' else dbl(x) if k == 'real' else [x] if k == 'chr' else x


def rng(lo, hi, xl=0, xh=0, k='int'):
    return {'o': 'rng', 'lo': cv(lo, k), 'hi': cv(hi, k), 'xl': xl, 'xh': xh}


def op(o, a, b):
    return {'o': o, 'a': a, 'b': b}


def Or(*l):
    r = l[0]
    for x in l[1:]:
        r = op('or', r, x)
    return r


def And(a, b):
    return op('and', a, b)


def Exc(a, b):
    return op('exc', a, b)


def Ax(a):
    return {'o': 'ax', 'a': a}


def Ext(a):
    return {'o': 'ext', 'a': a}


def size(lo, hi=None):
    if isinstance(lo, dict):
        return {'o': 'size', 'a': lo}
    return {'o': 'size', 'a': val(lo) if hi is None or hi == lo else rng(lo, hi)}


def frm(*parts):
    """parts: strings (each character) or (lo, hi) pairs"""
    l = [{'o': 'val', 'v': [ord(c) for c in p]} if isinstance(p, str) else rng(ord(p[0]), ord(p[1]), k='chr') for p in parts]
    return {'o': 'from', 'a': Or(*l)}


def elem(*cs):
    return {'o': 'elem', 'a': list(cs)}


def wcs(*l):
    """(component index, presence 'p'/'a'/'', [constraints])"""
    return {'o': 'wcs', 'l': [{'i': i, 'p': p, 'c': list(c)} for i, p, c in l]}


# ------------------------------------------------------------- types
def INT(*con):
    return {'k': 'int', 'con': list(con)}


def R(lo, hi):
    return INT(rng(lo, hi))


def BOOL():
    return {'k': 'bool', 'con': []}


def NULL():
    return {'k': 'null', 'con': []}


def REAL(*con):
    return {'k': 'real', 'con': list(con)}


def ENUM(items, *con):
    """items: names or (name, number)"""
    return {'k': 'enum', 'items': [[] if isinstance(i, str) else [i[1]] for i in items],
            'names': [i if isinstance(i, str) else i[0] for i in items], 'con': list(con)}


def OCT(*con):
    return {'k': 'oct', 'con': list(con)}


def BITS(*con):
    return {'k': 'bits', 'con': list(con)}


def STR(*con, kind='ia5'):
    return {'k': 'str', 'kind': kind, 'con': list(con)}


def SEQ(*comps, con=(), set=False):
    """(name, type[, 'o' | ('d', default)])"""
    l = []
    for c in comps:
        o = c[2] if len(c) > 2 else 'm'
        e = {'n': c[0], 't': c[1], 'o': o if isinstance(o, str) else 'd'}
        if e['o'] == 'd':
            e['pd'] = o[1]
            e['d'] = vj(c[1], o[1])
        l.append(e)
    return {'k': 'seq', 'comps': l, 'con': list(con), 'set': set}


def CHOICE(*alts, con=(), tags=()):
    return {'k': 'choice', 'alts': [a[1] for a in alts], 'names': [a[0] for a in alts], 'con': list(con), 'tags': list(tags)}


def SOF(t, *con, set=False):
    return {'k': 'sof', 't': t, 'con': list(con), 'set': set}


def OID(rel=False):
    return {'k': 'roid' if rel else 'oid', 'con': []}


def use(schema, name, *con):
    """a reference to a named type of the schema, further constrained"""
    t = dict(schema[name])
    t['ref'] = name
    t['xcon'] = list(con)
    t['con'] = t['con'] + list(con)
    t['owncon'] = []
    return t


def spec_type(t):
    """what TLC gets"""
    r = {'k': t['k'], 'con': t['con']}
    if t['k'] == 'enum':
        r['items'] = t['items']
        r['names'] = t['names']
    if t['k'] == 'str':
        r['kind'] = t['kind']
        r['ix'] = t.get('ix', 0)
    if t['k'] == 'seq':
        r['comps'] = [dict(t=spec_type(c['t']), n=c.get('n', ''), o=c['o'], d=c.get('d', 0), **({'ai': c['ai']} if 'ai' in c else {})) for c in t['comps']]
    if t['k'] == 'choice':
        r['alts'] = [spec_type(a) for a in t['alts']]
        r['tags'] = t['tags']
        r['names'] = t.get('names', [])
    if t['k'] == 'sof':
        r['t'] = spec_type(t['t'])
    if 'acn' in t:
        r['acn'] = t['acn']
    return r


# ------------------------------------------------------------- values: python form -> TLC form
def vj(t, v):
    k = t['k']
    if k == 'int':
        return w9(v)
    if k == 'real':
        return dbl(v)
    if k == 'bool':
        return int(v)
    if k == 'null':
        return 0
    if k in ('oid', 'roid'):
        return [w8(x) for x in v]
    if k == 'sof':
        return [vj(t['t'], x) for x in v]
    if k == 'choice':
        return [v[0], vj(t['alts'][v[0] - 1], v[1]) if v[0] else 0]
    if k == 'seq':
        r = []
        for c, x in zip(t['comps'], v):
            if c['o'] == 'm':
                r.append([vj(c['t'], x)])
            elif c['o'] == 'o':
                r.append([] if x is None else [vj(c['t'], x)])
            else:
                r.append([0, c['d']] if x is None else [1, vj(c['t'], x)])
        return r
    return v


def toks(t, v, out=None):
    """the driver's input"""
    o = [] if out is None else out
    k = t['k']
    if k == 'int':
        o.append('%x' % (v & (2 ** 64 - 1)))
    elif k == 'real':
        o.append(bytes(dbl(v)).hex())
    elif k == 'bool':
        o.append('%x' % int(v))
    elif k == 'null':
        pass
    elif k == 'enum':
        o.append('%x' % v)
    elif k == 'oct':
        o.append('%x' % len(v))
        o.extend('%x' % x for x in v)
    elif k == 'bits':
        o.append('%x' % len(v))
        b = list(v) + [0] * (-len(v) % 8)
        o.extend('%x' % int(''.join(map(str, b[i:i + 8])), 2) for i in range(0, len(b), 8))
    elif k == 'str':
        o.append('%x' % len(v))
        o.extend('%x' % x for x in v)
    elif k in ('oid', 'roid'):
        o.append('%x' % len(v))
        o.extend('%x' % x for x in v)
    elif k == 'sof':
        o.append('%x' % len(v))
        for x in v:
            toks(t['t'], x, o)
    elif k == 'choice':
        o.append('%x' % v[0])
        if v[0]:
            toks(t['alts'][v[0] - 1], v[1], o)
    else:
        for c, x in zip(t['comps'], v):
            if c['o'] != 'm':
                o.append('0' if x is None else '1')
                if x is None:
                    continue
            toks(c['t'], x, o)
    return o


# ------------------------------------------------------------- bounds, for storage and for choosing values
INF = 1 << 70


def ivs(c, k='int'):
    o = c['o']
    if o == 'val':
        x = un9(c['v'])
        return [(x, x)]
    if o == 'rng':
        return [(-INF if c['lo'] == [] else un9(c['lo']) + c['xl'], INF if c['hi'] == [] else un9(c['hi']) - c['xh'])]
    if o == 'or':
        return ivs(c['a']) + ivs(c['b'])
    if o == 'and':
        return meet(ivs(c['a']), ivs(c['b']))
    if o in ('exc', 'ext'):
        return ivs(c['a'])
    return [(-INF, INF)]


def meet(a, b):
    return [(max(x[0], y[0]), min(x[1], y[1])) for x in a for y in b if max(x[0], y[0]) <= min(x[1], y[1])]


def sizeivs(c):
    o = c['o']
    if o == 'size':
        return ivs(c['a'])
    if o == 'or':
        return sizeivs(c['a']) + sizeivs(c['b'])
    if o == 'and':
        return meet(sizeivs(c['a']), sizeivs(c['b']))
    if o == 'exc':
        return sizeivs(c['a'])
    return [(-INF, INF)]


def irange(t):
    r = [(-INF, INF)]
    for c in t['con']:
        r = meet(r, ivs(c))
    return r


def srange(t):
    r = [(0, INF)]
    for c in t['con']:
        r = meet(r, sizeivs(c))
    return min(x[0] for x in r), max(x[1] for x in r)


def alpha(c):
    o = c['o']
    if o == 'val':
        return set(c['v'])
    if o == 'rng':
        return set(range(c['lo'][0] + c['xl'], c['hi'][0] + 1 - c['xh']))
    if o == 'or':
        return alpha(c['a']) | alpha(c['b'])
    if o == 'and':
        return alpha(c['a']) & alpha(c['b'])
    if o == 'exc':
        return alpha(c['a']) - alpha(c['b'])
    return set(range(128)) - alpha(c['a'])


def letters(t):
    s = set([32] + list(range(48, 58))) if t['kind'] == 'num' else set(range(1, 128))

    def f(c):
        if c['o'] == 'from':
            return alpha(c['a'])
        if c['o'] == 'and':
            return f(c['a']) & f(c['b'])
        if c['o'] == 'or':
            return f(c['a']) | f(c['b'])
        if c['o'] == 'exc':
            return f(c['a'])
        return set(range(128))
    for c in t['con']:
        s &= f(c)
    return sorted(s)


# ------------------------------------------------------------- ASN.1 text
def num(n):
    return str(n)


def realtxt(x):
    """an exact decimal"""
    from decimal import Decimal
    d = format(Decimal(x), 'f')
    return d if '.' in d else d + '.0'


def strtxt(cs):
    return '"%s"' % ''.join(chr(c) for c in cs).replace('"', '""')


def lit(t, v):
    k = t['k']
    if k == 'int':
        return num(v)
    if k == 'real':
        return realtxt(v)
    if k == 'bool':
        return 'TRUE' if v else 'FALSE'
    if k == 'null':
        return 'NULL'
    if k == 'enum':
        return t['names'][v - 1]
    if k == 'oct':
        return "'%s'H" % bytes(v).hex().upper()
    if k == 'bits':
        return "'%s'B" % ''.join(map(str, v))
    if k == 'str':
        return strtxt(v)
    if k == 'sof':
        return '{%s}' % ', '.join(lit(t['t'], x) for x in v)
    if k == 'choice':
        return '%s : %s' % (t['names'][v[0] - 1], lit(t['alts'][v[0] - 1], v[1]))
    if k == 'oid':
        return '{%s}' % ' '.join(map(str, v))
    if k == 'seq':
        return '{%s}' % ', '.join('%s %s' % (c['n'], lit(c['t'], x)) for c, x in zip(t['comps'], v) if x is not None)
    raise ValueError(k)


def ctxt(c, t):
    """constraint text, without the outer parentheses"""
    o, k = c['o'], t['k']
    if o == 'val':
        if k == 'int':
            return num(un9(c['v']))
        if k == 'chr':
            return strtxt(c['v'])
        if k == 'real':
            return realtxt(undbl(c['v']))
        return lit(t, c['v'])
    if o == 'rng':
        f = (lambda b: num(un9(b))) if k == 'int' else (lambda b: strtxt(b)) if k == 'chr' else (lambda b: realtxt(undbl(b)))
        return '%s%s..%s%s' % ('MIN' if c['lo'] == [] else f(c['lo']), '<' if c['xl'] else '', '<' if c['xh'] else '', 'MAX' if c['hi'] == [] else f(c['hi']))
    if o == 'or':
        return '%s | %s' % (ctxt(c['a'], t), ctxt(c['b'], t))
    par = lambda x: '(%s)' % ctxt(x, t) if x['o'] in ('or', 'and', 'exc', 'ax') else ctxt(x, t)
    if o == 'and':
        return '%s ^ %s' % (par(c['a']), par(c['b']))
    if o == 'exc':
        return '%s EXCEPT %s' % (par(c['a']), par(c['b']))
    if o == 'ax':
        return 'ALL EXCEPT %s' % par(c['a'])
    if o == 'ext':
        return '%s, ...' % ctxt(c['a'], t)
    if o == 'size':
        return 'SIZE(%s)' % ctxt(c['a'], INT())
    if o == 'from':
        return 'FROM(%s)' % ctxt(c['a'], {'k': 'chr'})
    if o == 'elem':
        return 'WITH COMPONENT %s' % ''.join('(%s)' % ctxt(x, t['t']) for x in c['a'])
    l = []
    for e in c['l']:
        n, ct = (t['comps'][e['i'] - 1]['n'], t['comps'][e['i'] - 1]['t']) if k == 'seq' else (t['names'][e['i'] - 1], t['alts'][e['i'] - 1])
        l.append(n + ''.join(' (%s)' % ctxt(x, ct) for x in e['c']) + {'p': ' PRESENT', 'a': ' ABSENT', '': ''}[e['p']])
    return 'WITH COMPONENTS {%s}' % ', '.join(['...'] + l)


def cons(t, l):
    return ''.join(' (%s)' % ctxt(c, t) for c in l)


def ttxt(t, ind=1):
    """the type as written where it is used"""
    if 'ref' in t:
        return t['ref'] + cons(t, t['xcon'])
    k, c = t['k'], t['con']
    pad = '  ' * ind
    if k == 'enum':
        return 'ENUMERATED { %s }' % ', '.join(n + ('(%d)' % i[0] if i else '') for n, i in zip(t['names'], t['items'])) + cons(t, c)
    if k == 'seq':
        l = []
        for m in t['comps']:
            l.append(pad + '%s %s%s' % (m['n'], ttxt(m['t'], ind + 1), {'m': '', 'o': ' OPTIONAL', 'd': ' DEFAULT ' + lit(m['t'], m['pd']) if m['o'] == 'd' else ''}[m['o']]))
        return '%s {\n%s\n%s}' % ('SET' if t['set'] else 'SEQUENCE', ',\n'.join(l), '  ' * (ind - 1)) + cons(t, c)
    if k == 'choice':
        l = [pad + '%s %s%s' % (n, '[%d] ' % t['tags'][i] if t['tags'] else '', ttxt(a, ind + 1)) for i, (n, a) in enumerate(zip(t['names'], t['alts']))]
        return 'CHOICE {\n%s\n%s}' % (',\n'.join(l), '  ' * (ind - 1)) + cons(t, c)
    if k == 'sof':
        return '%s%s OF %s' % ('SET' if t['set'] else 'SEQUENCE', cons(t, c), ttxt(t['t'], ind))
    n = {'int': 'INTEGER', 'bool': 'BOOLEAN', 'null': 'NULL', 'real': 'REAL', 'oct': 'OCTET STRING', 'bits': 'BIT STRING',
         'str': 'NumericString' if t.get('kind') == 'num' else 'IA5String', 'oid': 'OBJECT IDENTIFIER', 'roid': 'RELATIVE-OID'}[k]
    return n + cons(t, c)


def module(types, name='M', tagging='AUTOMATIC TAGS'):
    return '%s DEFINITIONS %s ::= BEGIN\n%s\nEND\n' % (name, tagging, '\n'.join('%s ::= %s' % (n, ttxt(t)) for n, t in types.items()))


# ------------------------------------------------------------- C that moves values
def crd(t, p, d, o):
    """C statements reading a value from tokens into the lvalue p"""
    k = t['k']
    i = 'i%d' % d
    if k in ('int', 'bool'):
        o.append('%s = (__typeof__(%s))nx();' % (p, p))
    elif k == 'null':
        o.append('%s = 0;' % p)
    elif k == 'real':
        o.append('%s = (__typeof__(%s))nxd();' % (p, p))
    elif k == 'enum':
        o.append('{ static const int E[]={%s}; unsigned k=nx(); %s = (__typeof__(%s))(k>=1&&k<=%d?E[k-1]:987654); }' % (','.join(enumc(t)), p, p, len(t['names'])))
    elif k in ('oct', 'bits'):
        lo, hi = srange(t)
        n = 'nx()'
        o.append('{ long n%d=%s;' % (d, n))
        if lo != hi:
            o.append('%s.nCount = n%d;' % (p, d))
        if k == 'bits':
            o.append('n%d=(n%d+7)/8;' % (d, d))
        o.append('for(long %s=0;%s<n%d;%s++){unsigned x=nx(); if(%s<(long)sizeof(%s.arr)) %s.arr[%s]=x;} }' % (i, i, d, i, i, p, p, i))
    elif k == 'str':
        o.append('{ long n%d=nx(); for(long %s=0;%s<n%d;%s++){unsigned x=nx(); if(%s<(long)sizeof(STR_%s)-1) %s[%s]=x;} %s[n%d<(long)sizeof(STR_%s)?n%d:(long)sizeof(STR_%s)-1]=0; }'
                 .replace('STR_%s', '%s') % (d, i, i, d, i, i, szof(p), p, i, p, d, szof(p), d, szof(p)))
    elif k in ('oid', 'roid'):
        o.append('{ long n%d=nx(); %s.nCount=n%d; for(long %s=0;%s<n%d;%s++){u64 x=nx(); if(%s<20) %s.values[%s]=x;} }' % (d, p, d, i, i, d, i, i, p, i))
    elif k == 'sof':
        lo, hi = srange(t)
        o.append('{ long n%d=nx();' % d)
        if lo != hi:
            o.append('%s.nCount = n%d;' % (p, d))
        o.append('for(long %s=0;%s<n%d && %s<(long)(sizeof(%s.arr)/sizeof(%s.arr[0]));%s++){' % (i, i, d, i, p, p, i))
        crd(t['t'], '%s.arr[%s]' % (p, i), d + 1, o)
        o.append('} }')
    elif k == 'choice':
        o.append('{ unsigned k=nx(); switch(k){')
        for j, (n, a) in enumerate(zip(t['names'], t['alts'])):
            o.append('case %d: %s.kind=%s;' % (j + 1, p, kindc(t, n)))
            crd(a, '%s.u.%s' % (p, cid(n)), d + 1, o)
            o.append('break;')
        o.append('default: %s.kind=(__typeof__(%s.kind))0; } }' % (p, p))
    else:
        for c in t['comps']:
            m = cid(c['n'])
            if c['o'] != 'm':
                o.append('if((%s.exist.%s=nx())){' % (p, m))
            crd(c['t'], '%s.%s' % (p, m), d + 1, o)
            if c['o'] != 'm':
                o.append('}')


def szof(p):
    return '(%s)' % p


def cid(n):
    return n.replace('-', '_')


def kindc(t, n):
    return str(t['names'].index(n) + 1) if t.get('num') else cid(n) + '_PRESENT'


def enumc(t):
    return [str(i) for i in enumvals(t)] if t.get('num') else [cid(n) for n in t['names']]


def enumvals(t):
    used, l, n = {i[0] for i in t['items'] if i}, [], 0
    for i in t['items']:
        if not i:
            while n in used:
                n += 1
            used.add(n)
        l.append(i[0] if i else n)
    return l


def numbered(t):
    """the type, driven without the names of enumerators (schemas that use a name twice: the compiler renames them)"""
    t = dict(t)
    if t['k'] in ('enum', 'choice'):
        t['num'] = 1
    if t['k'] == 'choice':
        t['alts'] = [numbered(a) for a in t['alts']]
    elif t['k'] == 'seq':
        t['comps'] = [dict(c, t=numbered(c['t'])) for c in t['comps']]
    elif t['k'] == 'sof':
        t['t'] = numbered(t['t'])
    return t


def cpr(t, p, d, o):
    """C statements printing the value as JSON"""
    k = t['k']
    i = 'i%d' % d
    if k == 'int':
        o.append('p9((%s)<0,(u64)(%s));' % (p, p))
    elif k == 'bool':
        o.append('printf("%%d",(int)(%s));' % p)
    elif k == 'null':
        o.append('printf("0");')
    elif k == 'real':
        o.append('pd((double)(%s));' % p)
    elif k == 'enum':
        o.append('{ static const int E[]={%s}; int k=0; for(int q=0;q<%d;q++) if((int)%s==E[q]) k=q+1; printf("%%d",k); }' % (','.join(enumc(t)), len(t['names']), p))
    elif k in ('oct', 'bits'):
        lo, hi = srange(t)
        o.append('p%s(%s.arr,%s,sizeof(%s.arr));' % ('b' if k == 'bits' else 'o', p, lo if lo == hi else '%s.nCount' % p, p))
    elif k == 'str':
        o.append('ps(%s,sizeof(%s));' % (p, szof(p)))
    elif k in ('oid', 'roid'):
        o.append('poid(&%s);' % p)
    elif k == 'sof':
        lo, hi = srange(t)
        o.append('putchar(\'[\'); for(long %s=0;%s<(long)%s && %s<(long)(sizeof(%s.arr)/sizeof(%s.arr[0]));%s++){ if(%s) putchar(\',\');' % (
            i, i, lo if lo == hi else '%s.nCount' % p, i, p, p, i, i))
        cpr(t['t'], '%s.arr[%s]' % (p, i), d + 1, o)
        o.append('} putchar(\']\');')
    elif k == 'choice':
        o.append('switch(%s.kind){' % p)
        for j, (n, a) in enumerate(zip(t['names'], t['alts'])):
            o.append('case %s: printf("[%d,");' % (kindc(t, n), j + 1))
            cpr(a, '%s.u.%s' % (p, cid(n)), d + 1, o)
            o.append('putchar(\']\'); break;')
        o.append('default: printf("[0,0]"); }')
    else:
        o.append('putchar(\'[\');')
        for j, c in enumerate(t['comps']):
            m = cid(c['n'])
            if j:
                o.append('putchar(\',\');')
            if c['o'] == 'm':
                o.append('putchar(\'[\');')
                cpr(c['t'], '%s.%s' % (p, m), d + 1, o)
                o.append('putchar(\']\');')
            elif c['o'] == 'o':
                o.append('if(%s.exist.%s){ putchar(\'[\');' % (p, m))
                cpr(c['t'], '%s.%s' % (p, m), d + 1, o)
                o.append('putchar(\']\'); } else printf("[]");')
            else:
                o.append('printf("[%%d,",(int)%s.exist.%s);' % (p, m))
                cpr(c['t'], '%s.%s' % (p, m), d + 1, o)
                o.append('putchar(\']\');')
        o.append('putchar(\']\');')
