#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, stmt, over, text, why, files, mech, technique=None, note=None, level='model_checking', state=(), observe=(), na=None):
    d = {'id': id, 'title': title, 'statement': stmt, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    P.append((d, technique, note, level, na))


ENC, UPER, ACN = 'asn1crt/asn1crt_encoding.c', 'asn1crt/asn1crt_encoding_uper.c', 'asn1crt/asn1crt_encoding_acn.c'
SUITES = 'The 17 committed suites call it through a fixed set of generated types with one value each, into a fresh buffer'
TV = 'TLA+ wire-format specification; TLC validates histories recorded from the real library (RtTrace.tla)'
NOTE = ('Every recorded call of every explored history is a step of the specification, as decided by TLC. Trusted: TLC, the driver '
        'harness/rt.c (it only forwards calls and reports), gcc. Sampled over histories, with boundary-biased values; not a proof.')

exec(open(os.path.join(V, 'tools', 'props_rt.py')).read())
for f in ('props_more.py', 'props_e2e.py'):
    q = os.path.join(V, 'tools', f)
    if os.path.exists(q):
        exec(open(q).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d, *_ in P:
            assert len(d['title']) <= 80, d['id']
            f.write(json.dumps(d) + '\n')
    m = {'version': 1,
         'setup_cmd': 'python3 /verif/tools/setup.py',
         'checks': [{'property': d['id'], 'quick_cmd': 'python3 /verif/check.py %s quick' % d['id'],
                     'thorough_cmd': 'python3 /verif/check.py %s thorough' % d['id'],
                     'technique': t, 'level': l, 'level_note': n} for d, t, n, l, na in P if not na],
         'not_applicable': [{'property': d['id'], 'reason': na} for d, t, n, l, na in P if na],
         'notes': 'No hooks in /repo were needed: the runtime is driven through its public API and the compiler through its command line.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
