"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (id, title, statement, over, quantifier text, why, files, mechanism, claim)

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), level='proof',
         technique='', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, state=state, level=level,
                  technique=technique, note=note, na=na))

CT = ('contract-based deductive verification of the real C code: verification conditions generated on every run '
      'by symbolic execution of the current sources with loop summaries (unbounded), discharged by exact algebra and z3')
CN = ('Every contract is proved for all values, all numbers of elements and quadrature points; numbers of element nodes and '
      'space dimensions are enumerated. Floating point is treated as exact real arithmetic; float64 overflow and rounding are not covered. '
      'Trusted: the generator in /verif/engine, pycparser, gcc -E, z3, the libm functions as uninterpreted symbols.')
PT = ('contract-based deductive verification of the real Python code: verification conditions generated on every run by '
      'executing the current source over symbolic reals/integers, all paths explored, discharged by exact algebra and z3')
PN = ('Values are symbolic and unbounded, every feasible path is an obligation; array shapes are enumerated as stated in the evidence (bounded in size, labelled). '
      'Floating point is treated as exact real arithmetic. Trusted: the generator in /verif/engine, the numpy stand-in it uses, z3.')

exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'],
                                  mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                  state=[dict(name=n, meaning=m) for n, m in p['state']],
                                  observe_at=p['observe'], hook_needed=None))
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in P:
        if p['na'] or not os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')):
            na.append(dict(property=p['id'], reason=p['na'] or 'No check built yet.'))
            continue
        checks.append(dict(property=p['id'], quick_cmd='bin/check %s' % p['id'],
                           thorough_cmd='bin/check %s --tier thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique=p['technique'], level=p['level'], level_note=p['note']))
    m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
             hooks=dict(guard='SFEPY_VERIF', enable='no hooks are needed: the checks read the unchanged sources'),
             notes='See DESIGN.md. Every check regenerates its verification conditions from the current /repo sources.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(P), 'properties', len(checks), 'claimed')
main()
