"""Generated Ada code: decode octets, validate, encode again; judged with spec/AdaTrace.tla."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess
import vf, asn, acn, e2e

HEAD = os.path.join(vf.VERIF, 'harness', 'ada', 'head.adb')


def driver(sc):
    U, A = 'U' in sc.codecs, 'A' in sc.codecs
    o = [open(HEAD).read().replace('@UNIT@', sc.name.capitalize())]
    cs = ''
    for i, n in enumerate(sc.names):
        T = sc.name.capitalize() + '.' + asn.cid(n)
        show = ''
        nou = skips(sc, n)
        if U and not nou:
            show += 'declare S : %s_uPER_Stream; R : ASN1_RESULT; begin %s_Encode (V, S, R); Show (S, "U", R); end;\n' % (T, T)
        if A:
            show += 'declare S : %s_ACN_Stream; R : ASN1_RESULT; begin %s_ACN_Encode (V, S, R); Show (S, "A", R); end;\n' % (T, T)
        val = 'V_%d (V)' % i
        chk = 'declare R : constant ASN1_RESULT := %s_IsConstraintValid (V); begin Put (",""valid"":" & Bit (R.Success) & ",""verr"":" & Bit (R.ErrorCode /= 0)); end;' % T
        o.append('procedure W_%d (V : %s) is begin %s Put (",""outs"":["); %s Put ("]"); end W_%d;' % (i, T, chk, show, i))
        for c, sub, dec in [('U', 'uPER', '_Decode')] * U + [('A', 'ACN', '_ACN_Decode')] * A:
            o.append('''procedure D%s_%d is S : %s_%s_Stream; V : %s; R : ASN1_RESULT; begin Fill (S); %s%s (V, S, R);
 Put ("{""k"":""T"",""cap"":" & Img (S.Buffer'Length) & ",""dec"":" & Bit (R.Success) & ",""err"":" & Bit (R.ErrorCode /= 0));
 if R.Success then Put (",""p"":" & Img (S.Current_Bit_Pos)); W_%d (V); end if; Put ("}"); end D%s_%d;''' % (c, i, T, sub, T, T, dec, i, c, i))
            cs += 'if Cmd = "D%s" and K = %d then D%s_%d; end if;\n' % (c, i, c, i)
        q = ('U', 'uPER', '_Decode') if U and not nou else ('A', 'ACN', '_ACN_Decode')
        o.append('''procedure Q_%d is S : %s_%s_Stream; V, W : %s; R, R2 : ASN1_RESULT; begin Fill (S); %s%s (V, S, R); Fill (S); %s%s (W, S, R2);
 Put ("{""k"":""Q"",""cap"":" & Img (S.Buffer'Length) & ",""dec"":" & Bit (R.Success and R2.Success));
 if R.Success and R2.Success then Put (",""eq"":" & Bit (%s_Equal (V, W)) & ",""eqr"":" & Bit (%s_Equal (W, V))); end if; Put ("}"); end Q_%d;''' % (
            i, T, q[1], T, T, q[2], T, q[2], T, T, i))
        o.append('procedure I_%d is V : constant %s := %s_Init; begin Put ("{""k"":""I"",""dec"":1"); W_%d (V); Put ("}"); end I_%d;' % (i, T, T, i, i))
        cs += 'if Cmd = "Q" and K = %d then Q_%d; end if;\nif Cmd = "I" and K = %d then I_%d; end if;\n' % (i, i, i, i)
    o.append('''begin
   dummy := alarm (300);
   while not End_Of_File loop
      Line := To_Unbounded_String (Get_Line); Pos := 1; Out_S := Null_Unbounded_String;
      begin
         declare Cmd : constant String := Tok; K : constant Integer := Integer'Value (Tok); begin
%s
         end;
      exception
         when X : others => Out_S := To_Unbounded_String ("{""k"":""exception"",""why"":""" & Ada.Exceptions.Exception_Name (X) & " " & Clean (Ada.Exceptions.Exception_Message (X)) & """}");
      end;
      Put_Line (To_String (Out_S)); Flush;
   end loop;
end drv;
''' % cs)
    return '\n'.join(o)


def prepare(dll, wd, sc, extra=()):
    d = os.path.join(wd, sc.name + '-ada')
    os.makedirs(d, exist_ok=True)
    rc, txt, out = e2e.compile_schema(dll, d, sc.files(), ['-Ada', '-equal'] + [e2e.OPTS[c] for c in sc.codecs] + list(extra))
    if rc:
        return None, 'the compiler refused the schema: ' + txt.strip()[:600]
    open(os.path.join(out, 'drv.adb'), 'w').write(driver(sc))
    p = vf.sh(['gnatmake', '-q', '-g', '-O0', '-gnat2012', '-fstack-check', 'drv.adb'], cwd=out, timeout=600)
    if p.returncode:
        return None, 'the generated Ada does not compile: ' + p.stdout.strip()[:800]
    return os.path.join(out, 'drv'), ''


def hx(b):
    return ''.join('%02x' % x for x in b) or '00'


def dec_ev(sc, c, i, b):
    return e2e.Ev('D%s %d %s' % (c, i, hx(b)), t=i + 1, c=c, b=list(b))


def eq_ev(sc, c, i, b, d):
    return e2e.Ev('Q %d %s %s' % (i, hx(b), hx(d)), t=i + 1, c=c, b=list(b), d=list(d))


def init_ev(i):
    return e2e.Ev('I %d' % i, t=i + 1)


def run(exe, evs):
    """the octets are padded to the size of the buffer the generated code uses"""
    out = e2e.run(exe, evs)
    for e in out:
        for k in ('b', 'd'):
            if k in e and 'cap' in e:
                e[k] = (e[k] + [0] * e['cap'])[:e['cap']]
    return out


def walk(t):
    """the type, and everything in it"""
    if isinstance(t, dict):
        yield t
        t = list(t.values())
    elif hasattr(t, '__dict__'):
        t = list(vars(t).values())
    if isinstance(t, (list, tuple)):
        for x in t:
            if isinstance(x, (dict, list, tuple)) or hasattr(x, '__dict__'):
                yield from walk(x)


def beyond(t):
    """what generated Ada code cannot do (it does not compile, see DESIGN.md): mapping functions, inserted unsigned ASCII integers"""
    for x in walk(t):
        if x.get('ap', {}).get('mf'):
            return True
    for x in walk(t):
        for v in x.values():
            for f in v if isinstance(v, (list, tuple)) else [v]:
                if isinstance(f, acn.Fld) and isinstance(f.t, dict) and f.t.get('k') == 'int' and f.t.get('ap', {}).get('enc') == 'asc':
                    return True
                # a size that the type of its field does not allow, though its encoding does: nothing says it is an encoding
                if isinstance(f, acn.Fld) and isinstance(f.t, dict) and f.t.get('ref') in ('Len9', 'Len5') and f.t.get('xap'):
                    return True
    return False


def reordered(t):
    """the ACN grammar lists the components in another order; the uPER codec then does too (a known finding)"""
    for x in walk(t):
        if x.get('k') == 'seq' and 'ap' in x and [getattr(c, 'name', c) for c in x['ap'].get('ch', ()) if not isinstance(c, acn.Fld) and hasattr(c, 'name') or isinstance(c, str)] not in ([], [c['n'] for c in x['comps']]):
            return True
    return False


REORDERED = ('A1', 'Y1')    # of these, uPER is looked at all the same


def indexed(t):
    """of characters not all of which have codes, uPER encodes the index (a known finding, see the schema 'wide')"""
    for x in walk(t):
        if x.get('k') == 'str' and x.get('ap', {}).get('asc') and any(c['o'] == 'from' for c in x['con']):
            x['ix'] = 1


def skips(sc, n):
    return bool(sc.acn) and 'A' in sc.codecs and n not in REORDERED and reordered(sc.types[n])


def zero(t):
    """null-terminated BCD: zero is a known finding"""
    for x in walk(t):
        for v in x.values():
            for f in v if isinstance(v, (list, tuple)) else [v]:
                p = f.t.get('ap', {}) if isinstance(f, acn.Fld) and isinstance(f.t, dict) else f.get('ap', {}) if isinstance(f, dict) else {}
                if p.get('enc') == 'bcd' and not p.get('sz'):
                    return True
    return t.get('ap', {}).get('enc') == 'bcd' and not t['ap'].get('sz')


def supported(types, drawn=False):
    return closed({n: t for n, t in types.items() if not beyond(t) and not (drawn and zero(t))})


def closed(types):
    """without the types that refer to others no longer there"""
    while True:
        l = {n: t for n, t in types.items() if all(x['ref'] in types for x in walk(t) if isinstance(x.get('ref'), str))}
        if len(l) == len(types):
            return l
        types = l
