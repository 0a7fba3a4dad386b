"""Shared plumbing of the checks: scratch space, builds from /repo's working
tree, running TLC, evidence and verdict lines."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
OUT = os.path.join(VERIF, 'out')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CRT = os.path.join(REPO, 'asn1crt')
_t0 = time.time()


def log(*a):
    print('[%6.1f]' % (time.time() - _t0), *a, file=sys.stderr, flush=True)


class Scratch:
    def __init__(self, tag):
        self.path = tempfile.mkdtemp(prefix='vf-%s-' % tag, dir='/tmp')

    def __enter__(self):
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def sh(cmd, timeout=600, cwd=None, env=None, inp=None, check=False):
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, input=inp, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if check and p.returncode:
        raise Broken('command failed (%s): %s\n%s' % (p.returncode, cmd, p.stdout[-3000:]))
    return p


class Broken(Exception):
    """the check could not do its work (exit 2)"""


RT_SRC = ['asn1crt.c', 'asn1crt_encoding.c', 'asn1crt_encoding_uper.c', 'asn1crt_encoding_acn.c']
RT_ALL = RT_SRC + ['asn1crt_encoding_ber.c', 'asn1crt_encoding_xer.c']


def build_c(out, harness, extra=(), srcs=RT_SRC, cc='gcc', san=True, opt='-O1'):
    cmd = [cc, '-g', opt, '-w', '-fno-omit-frame-pointer'] + (['-fsanitize=address'] if san else []) + list(extra) + \
          ['-I', CRT, '-o', out] + ([harness] if isinstance(harness, str) else list(harness)) + \
          [os.path.join(CRT, s) for s in srcs] + ['-lm']
    p = sh(cmd, timeout=300)
    if p.returncode:
        raise Broken('C build failed:\n' + p.stdout[-4000:])
    return out


ASAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1'}


class Proc:
    """line-in / line-out driver process; restarts after a crash"""

    def __init__(self, exe, env=None, cwd=None):
        self.exe = exe if isinstance(exe, list) else [exe]
        self.env = dict(os.environ, **ASAN_ENV, **(env or {}))
        self.cwd = cwd
        self.p = None
        self.err = ''

    def _start(self):
        self.errf = tempfile.TemporaryFile('w+', errors='replace')
        self.p = subprocess.Popen(self.exe, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf,
                                  text=True, env=self.env, cwd=self.cwd, bufsize=1 << 20)

    def episode(self, lines):
        """send all lines, read one answer per line; None from the line that killed it on"""
        if self.p is None or self.p.poll() is not None:
            self._start()
        import threading
        data = '\n'.join(lines) + '\n'
        p = self.p

        def feed():
            try:
                p.stdin.write(data)
                p.stdin.flush()
            except (BrokenPipeError, ValueError):
                pass
        th = threading.Thread(target=feed)
        th.start()
        res = []
        for _ in lines:
            l = p.stdout.readline()
            if not l.endswith('\n') or l == 'HANG\n':
                kind = 'hang' if l == 'HANG\n' else 'crash'
                p.wait()
                self.errf.seek(0)
                err = self.errf.read()
                if p.returncode == 97:
                    raise Broken('driver: ' + err[-500:])
                m = re.search(r'ERROR: AddressSanitizer: .*|Assertion .* failed|raised .*|runtime error: .*', err)
                self.err = (m.group(0) if m else 'exit %s' % p.returncode)[:300]
                fr = re.findall(r'#\d+ 0x\w+ in (\w+) ', err)
                if fr:
                    self.err += ' in ' + '<'.join([f for f in fr if not f.startswith('__')][:3])
                self.p = None
                th.join()
                res.append(kind)
                return res
            res.append(l)
        th.join()
        return res

    def close(self):
        if self.p and self.p.poll() is None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.wait()
        self.p = None


def tlc(module, cfg, wd, env=None, workers=8, timeout=800, extra=(), heap='8g'):
    """run TLC on spec/<module>.tla with the given config text; returns (ok, text, states, transitions)"""
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), wd)
    cf = os.path.join(wd, module + '_%d.cfg' % random.randrange(10**9))
    open(cf, 'w').write(cfg)
    md = tempfile.mkdtemp(prefix='tlc', dir=wd)
    e = dict(os.environ, **(env or {}))
    jar = '/opt/veriftools/tla/tla2tools.jar'
    cm = [os.path.join('/opt/veriftools/tla', f) for f in os.listdir('/opt/veriftools/tla') if f.endswith('.jar')] if os.path.isdir('/opt/veriftools/tla') else [jar]
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss512m', '-Djava.io.tmpdir=' + md, '-cp', ':'.join(cm), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', md, '-deadlock', '-noGenerateSpecTE', '-config', cf] + list(extra) + \
          [os.path.join(wd, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise Broken('TLC timed out on ' + module)
    txt = p.stdout
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', txt.replace(',', '').replace('generated ', 'generated, ')) or \
        re.findall(r'(\d+) states generated.*?(\d+) distinct', txt)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    shutil.rmtree(md, ignore_errors=True)
    return p.returncode, txt, dist, gen


# ---------------------------------------------------------------- verdicts
class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.viol = []          # (what, detail dict)
        self.known_hit = {}
        self.known = load_known(pid)
        os.makedirs(OUT, exist_ok=True)

    def sample(self, s, cap=12):
        if len(self.samples) < cap:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:600])

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, what, detail):
        """detail: dict identifying the call site / input; compared with the known findings"""
        for k in self.known:
            if all(match(detail.get(f), v) for f, v in k['match'].items()):
                self.known_hit.setdefault(k['id'], (k, what))
                return False
        self.viol.append((what, detail))
        return True

    def finish(self, level='model_checking', method=''):
        ok = not self.viol
        for kid, (k, what) in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = {'states': max(self.states, 1), 'transitions': max(self.transitions, 1),
               'traces_validated_against_impl': self.traces, 'samples': self.samples or ['(none)']}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': SEED, 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 2), 'verdict': 'held' if ok else 'violated',
              'known_findings_seen': sorted(self.known_hit)}
        if method:
            ev['method'] = method
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if not ok:
            rp = os.path.join(OUT, '%s-violation.json' % self.pid)
            json.dump([{'what': w, 'detail': d} for w, d in self.viol[:200]], open(rp, 'w'), indent=1, default=str)
            for w, d in self.viol[:8]:
                print('  ' + w[:400])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.stdout.flush()
            return 1
        print('property %s held: %d states, %d traces validated (%.1fs)' % (self.pid, self.states, self.traces, time.time() - self.t0))
        sys.stdout.flush()
        return 0


def match(x, pat):
    if isinstance(pat, dict):
        if 'min' in pat:
            return x is not None and x >= pat['min'] and ('max' not in pat or x <= pat['max'])
        if 're' in pat:
            return x is not None and re.search(pat['re'], str(x)) is not None
        if 'in' in pat:
            return x in pat['in']
    return x == pat


def load_known(pid):
    f = os.path.join(VERIF, 'known-findings.jsonl')
    r = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get('kind') == 'finding' and k['property'] == pid:
                    r.append(k)
    return r
