#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both.
P(id, title, statement, over, quantifier text, why tests can't, files, mechanism [(name, where)], claim note)
A property is claimed when harness/<id>.cpp exists; otherwise its `na` reason goes to not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PS = []
def P(id, title, st, over, q, why, files, mech, na=None, note='', state=None, observe=None):
    PS.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, na=na, note=note, state=state, observe=observe))
I = ['inputs']
exec(open(V + '/tools/proplist.py').read())
def main():
    out = []
    for p in PS:
        assert len(p['title']) <= 80, p['id']
        a = {'files': ['src/' + f for f in p['files'].split()], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']: a['observe_at'] = p['observe']
        a['hook_needed'] = None
        for f in a['files']: assert os.path.exists('/repo/' + f), f
        out.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['st'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'], 'anchors': a}))
    open(V + '/properties.jsonl', 'w').write('\n'.join(out) + '\n')
    checks = []; na = []
    for p in PS:
        if os.path.exists(V + '/harness/%s.cpp' % p['id']) and not p['na']:
            b = [l.split('@bounds', 1)[1].strip() for l in open(V + '/harness/%s.cpp' % p['id']) if l.startswith('// @bounds')]
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
              'technique': 'symbolic execution of the compiled LLVM bitcode of the real functions, every branch and assertion decided by SAT/SMT (bit-blasting + MiniSat, Z3)',
              'level': 'model_checking',
              'level_note': 'Bounded: ' + ' | '.join(b) + '. ' + (p['note'] + ' ' if p['note'] else '') + 'Trusted: the instrumentation pass and runtime (engine/), its libc/iostream models, clang -O1 lowering, MiniSat/Z3; counterexamples are replayed in an independent g++ ASAN build before they are reported.'})
        else: na.append({'property': p['id'], 'reason': p['na'] or 'no check has been built for it yet'})
    json.dump({'version': 1, 'setup_cmd': 'python3 check.py --tools', 'checks': checks, 'not_applicable': na,
               'notes': 'Engine, driver and bounds are described in DESIGN.md; known findings in known_findings.jsonl.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(PS), 'properties', len(checks), 'checks', len(na), 'not applicable')
main()
