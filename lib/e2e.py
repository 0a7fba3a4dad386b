"""Building the compiler, compiling generated schemas with it, driving the
generated code, and handing what it did to TLC."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, time
import vf, asn

DENV = {'DOTNET_CLI_TELEMETRY_OPTOUT': '1', 'DOTNET_NOLOGO': '1', 'DOTNET_SKIP_FIRST_TIME_EXPERIENCE': '1',
        'MSBUILDDISABLENODEREUSE': '1', 'DOTNET_CLI_USE_MSBUILD_SERVER': '0', 'DOTNET_TieredPGO': '0'}
SKIP = {'.git', 'v4Tests', 'v4Tests-32', 'PUSCScalaTest', 'regression', 'Backup', 'bugs', 'acnv2', 'github-issues',
        'mantis', 'Docs', 'Tests', 'DockerHub', 'lsp', 'Asn1sccWs', 'details-docs', 'packages', '_build', 'Daemon', 'LangServer'}


def build_compiler(wd):
    """the compiler from /repo's working tree, with stand-ins for the two packages that cannot be fetched"""
    if os.environ.get('VERIF_COMPILER'):
        return os.environ['VERIF_COMPILER']
    r = os.path.join(wd, 'cc')
    shutil.copytree(vf.REPO, r, symlinks=True, ignore=lambda d, n: [x for x in n if (x in SKIP and d == vf.REPO) or x in ('bin', 'obj')])
    sh = os.path.join(vf.VERIF, 'shim')
    for d, f in (('fstk', 'FsToolkit.fs'), ('argu', 'Argu.fs')):
        q = os.path.join(r, 'shim', d)
        os.makedirs(q)
        shutil.copy(os.path.join(sh, f), q)
    proj = open(os.path.join(sh, 'FsToolkit.ErrorHandling.fsproj')).read()
    open(os.path.join(r, 'shim/fstk/FsToolkit.ErrorHandling.fsproj'), 'w').write(proj)
    open(os.path.join(r, 'shim/argu/Argu.fsproj'), 'w').write(proj.replace('FsToolkit.fs', 'Argu.fs'))
    for f, pk, ref in (('FrontEndAst/FrontEndAst.fsproj', 'FsToolkit.ErrorHandling', '..\\shim\\fstk\\FsToolkit.ErrorHandling.fsproj'),
                       ('asn1scc/asn1scc.fsproj', 'Argu', '..\\shim\\argu\\Argu.fsproj')):
        p = os.path.join(r, f)
        s = open(p).read()
        s2 = re.sub(r'<PackageReference\s+Include="%s"[^>]*?/>' % re.escape(pk), lambda m: '<ProjectReference Include="%s" />' % ref, s)
        open(p, 'w').write(s2)
    t = time.time()
    p = vf.sh(['dotnet', 'build', 'asn1scc/asn1scc.fsproj', '-nologo', '-v:q', '-clp:ErrorsOnly', '-nodeReuse:false', '-p:NuGetAudit=false',
               '-p:RuntimeIdentifiers=', '-p:UseSharedCompilation=false', '-p:RestoreSources=/usr/lib/dotnet/library-packs',
               '-p:GenerateDocumentationFile=false', '-p:ParallelCompilation=true', '-p:DebugType=none', '-p:SatelliteResourceLanguages=en'],
              cwd=r, env=dict(DENV, HOME=wd, TMPDIR=wd, DOTNET_gcServer='1'), timeout=600)
    dll = [os.path.join(d, 'asn1scc.dll') for d, _, fs in os.walk(os.path.join(r, 'asn1scc', 'bin')) if 'asn1scc.dll' in fs]
    if p.returncode or not dll:
        raise vf.Broken('the compiler does not build:\n' + p.stdout[-3000:])
    vf.log('compiler built in %.0f s' % (time.time() - t))
    return dll[0]


def compile_schema(dll, d, files, opts):
    """run the compiler; returns (rc, output, outdir)"""
    os.makedirs(os.path.join(d, 'out'), exist_ok=True)
    for n, txt in files.items():
        open(os.path.join(d, n), 'w').write(txt)
    names = sorted(files, key=lambda n: (n.endswith('.acn'), n))
    try:
        p = vf.sh(['dotnet', dll] + opts + ['-o', 'out'] + names, cwd=d, env=dict(DENV, HOME=d, TMPDIR=d), timeout=240)
    except subprocess.TimeoutExpired:
        return 124, 'the compiler did not finish in 240 s', os.path.join(d, 'out')
    return p.returncode, p.stdout, os.path.join(d, 'out')


class Schema:
    """a module of named types; tagging text; acn text (or None)"""

    def __init__(self, name, types, tagging='AUTOMATIC TAGS', acn=None, codecs='U', names=None):
        self.name, self.types, self.tagging, self.acn, self.codecs = name, types, tagging, acn, codecs
        self.names = names or list(types)

    def files(self):
        f = {self.name + '.asn1': asn.module(self.types, self.name.capitalize(), self.tagging)}
        if self.acn is not None:
            f[self.name + '.acn'] = self.acn
        return f

    def driver(self):
        o = ['#include "%s.h"' % self.name, '#include "e2e.h"']
        if 'X' in self.codecs:
            o.insert(1, '#include "asn1crt_encoding_xer.h"')
        tab = []
        for i, n in enumerate(self.names):
            t = self.types[n]
            T = asn.cid(n)
            A = 'PA' if t['k'] == 'str' else 'PV'
            b = []
            asn.crd(t, '(*v)', 0, b)
            o.append('static void rd_%s(%s*v){ %s }' % (T, T, '\n'.join(b)))
            b = []
            asn.cpr(t, '(*v)', 0, b)
            o.append('static void pr_%s(%s*v){ %s }' % (T, T, '\n'.join(b)))
            o.append('MISC(%s,%s)' % (T, A))
            tab += ['{"Q",%d,Q_%s}' % (i, T), '{"I",%d,I_%s}' % (i, T)]
            for c in self.codecs:
                m = {'U': '', 'A': '_ACN', 'X': '_XER'}[c]
                nm = '%s_%s' % (c, T)
                if c == 'X':
                    o.append('FLOWX(%s,%s,%s_XER_Encode,%s_XER_Decode,%s_REQUIRED_BYTES_FOR_XER_ENCODING,%s)' % (T, A, T, T, T, nm))
                    tab += ['{"EX",%d,%s_E}' % (i, nm), '{"DX",%d,%s_D}' % (i, nm)]
                    continue
                o.append('#define %s_BYTES %s_REQUIRED_BYTES_FOR%s_ENCODING\n#define %s_BITS %s_REQUIRED_BITS_FOR%s_ENCODING' % (nm, T, m, nm, T, m))
                o.append('FLOW(%s,%s,%s%s_Encode,%s%s_Decode,%s_BYTES,%s)\nSIZES(%s)' % (T, A, T, m, T, m, nm, nm, nm))
                tab += ['{"E%s",%d,%s_E}' % (c, i, nm), '{"D%s",%d,%s_D}' % (c, i, nm), '{"S%s",%d,%s_S}' % (c, i, nm)]
        o.append('static const ent tab[]={%s};\nint main(void){ return drive(tab,sizeof tab/sizeof tab[0]); }' % ',\n'.join(tab))
        return '\n'.join(o) + '\n'


OPTS = {'U': '-uPER', 'A': '-ACN', 'X': '-XER'}


def prepare(dll, wd, sc, extra=(), cflags=(), san=True):
    """compile one schema and its driver; returns (exe or None, problem)"""
    d = os.path.join(wd, sc.name)
    os.makedirs(d, exist_ok=True)
    rc, txt, out = compile_schema(dll, d, sc.files(), ['-c', '-equal'] + [OPTS[c] for c in sc.codecs] + list(extra))
    if rc:
        return None, 'the compiler refused the schema: ' + txt.strip()[:600]
    open(os.path.join(d, 'drv.c'), 'w').write(sc.driver())
    srcs = [f for f in os.listdir(out) if f.endswith('.c') and f not in ('mainprogram.c', 'testsuite.c') and not f.endswith('_auto_tcs.c')]
    gen = [f for f in srcs if not f.startswith('asn1crt')]
    flags = ['-g', '-O1', '-w', '-Werror=implicit-function-declaration', '-fno-omit-frame-pointer', '-I', out, '-I', os.path.join(vf.VERIF, 'harness')] + (['-fsanitize=address'] if san else []) + list(cflags)
    cmds = [['gcc'] + flags + ['-c', '-o', os.path.join(d, os.path.basename(f) + '.o'), f] for f in [os.path.join(out, x) for x in srcs] + [os.path.join(d, 'drv.c')]]
    for c in cmds:
        p = vf.sh(c, timeout=300)
        if p.returncode:
            return None, 'the generated C does not compile: ' + p.stdout.strip()[:800]
    exe = os.path.join(d, 'drv')
    p = vf.sh(['gcc'] + flags + ['-o', exe] + [c[-2] for c in cmds] + ['-lm'], timeout=300)
    if p.returncode:
        return None, 'the generated C does not link: ' + p.stdout.strip()[:800]
    return exe, ''


class Ev:
    """a command for the driver and what TLC is told about it besides the answer"""
    __slots__ = ('line', 'f')

    def __init__(self, line, **f):
        self.line, self.f = line, f


def enc_ev(sc, c, name, v, fill=0xA5):
    i = sc.names.index(name)
    t = sc.types[name]
    return Ev('E%s %d %x %s' % (c, i, fill, ' '.join(asn.toks(t, v))), t=i + 1, c=c, v=asn.vj(t, v))


def dec_ev(sc, c, name, data, fill=0xA5):
    i = sc.names.index(name)
    return Ev('D%s %d %x %x %s' % (c, i, fill, len(data), ' '.join('%x' % x for x in data)), t=i + 1, c=c, b=list(data))


def eq_ev(sc, name, a, b, fill=0xA5):
    i = sc.names.index(name)
    t = sc.types[name]
    return Ev('Q %d %x %s %s' % (i, fill, ' '.join(asn.toks(t, a)), ' '.join(asn.toks(t, b))), t=i + 1, v=asn.vj(t, a), w=asn.vj(t, b))


def run(exe, evs):
    """answers merged with what was asked"""
    pr = vf.Proc(exe)
    out = []
    i = 0
    try:
        while i < len(evs):
            part = evs[i:i + 400]
            res = pr.episode([e.line for e in part])
            for e, r in zip(part, res):
                if r in ('crash', 'hang'):
                    out.append(dict(e.f, k=r, why=pr.err))
                else:
                    a = json.loads(r)
                    out.append(dict(e.f, **{x: y for x, y in a.items() if x not in e.f or x == 'b'}) if a['k'] != 'D' else dict(a, **e.f))
            i += len(res)
    finally:
        pr.close()
    return out


CFG = 'SPECIFICATION Spec\nINVARIANT TypeOK\n'


def validate(chk, jobs, aspect='all', module='E2eTrace'):
    """jobs: [(schema, events)] -> TLC; violations into chk. Long traces are split."""
    parts = []
    for sc, evs in jobs:
        n = max(1, round(sum(len(json.dumps(e)) for e in evs) / 1500000))
        for q in range(n):
            if evs[q::n]:
                parts.append((sc, evs[q::n]))

    def one(job):
        sc, evs = job
        with vf.Scratch('e2e') as wd:
            f = os.path.join(wd, 'trace.json')
            json.dump({'chars': ''.join(map(chr, range(1, 128))), 'types': [asn.spec_type(sc.types[n]) for n in sc.names],
                       'alt': [[asn.spec_type(sc.types[n]['alt'])] if 'alt' in sc.types[n] else [] for n in sc.names], 'ev': evs}, open(f, 'w'))
            rc, txt, dist, gen = vf.tlc(module, CFG, wd, env={'TRACE_FILE': f, 'ASPECT': aspect}, workers=2, heap='3g')
            bad = re.findall(r'<<"BAD", (\d+), "(.*?)">>', txt)
            if rc and not bad:
                raise vf.Broken('TLC failed on %s:\n%s' % (sc.name, txt[-3000:]))
            if dist < len(evs):
                raise vf.Broken('TLC explored %d states, %d expected (%s)\n%s' % (dist, len(evs), sc.name, txt[-1500:]))
            return sc, evs, dist, gen, bad
    with cf.ThreadPoolExecutor(5) as ex:
        for sc, evs, dist, gen, bad in ex.map(one, parts):
            chk.states += dist
            chk.transitions += gen
            chk.traces += len(evs)
            for i, why in bad:
                e = evs[int(i) - 1]
                n = sc.names[e['t'] - 1]
                alt = why.startswith('ALT ')
                d = {'schema': sc.name, 'variant': getattr(sc, 'variant', ''), 'type': n, 'asn1': asn.ttxt(sc.types[n]), 'why': why[4:] if alt else why, 'alt': int(alt), 'k': e['k'], 'c': e.get('c', ''),
                     'event': {k: v for k, v in e.items() if k != 't'}}
                if sc.acn:
                    d['acn'] = sc.acn
                chk.violation('%s%s.%s (%s): %s %s' % (d['variant'] and d['variant'] + ': ', sc.name, n, re.sub(r'\s+', ' ', d['asn1'])[:120], d['why'], e.get('why', '')), d)
