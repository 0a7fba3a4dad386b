#!/usr/bin/env python3
"""Offline sanity check of the toolchain the checks use; nothing is built here
(each check builds what it needs from /repo's working tree)."""
import os, sys, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('out', 'evidence'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
for t in ('gcc', 'java', 'python3'):
    if not shutil.which(t):
        sys.exit('missing tool: ' + t)
w = tempfile.mkdtemp()
try:
    for f in os.listdir(os.path.join(V, 'spec')):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(V, 'spec', f), w)
    for f in sorted(os.listdir(w)):
        p = subprocess.run(['java', '-cp', ':'.join('/opt/veriftools/tla/' + j for j in os.listdir('/opt/veriftools/tla') if j.endswith('.jar')),
                            'tla2sany.SANY', f], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or 'Semantic errors' in p.stdout:
            sys.exit('specification %s does not parse:\n%s' % (f, p.stdout))
        print('parsed', f)
finally:
    shutil.rmtree(w)
