"""Write /verif/seeded/<id>/ from a spec file (python): PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).

   mkseed.py ID SPEC.py   -- the patch is made in a scratch copy of /repo's tracked files.
"""
import sys, os, subprocess, json, tempfile, shutil
sid, spec = sys.argv[1:3]
ns = {}
exec(open(spec).read(), ns)
VV = os.environ.get('VV', '/verif'); REPO = os.environ.get('VERIF_REPO', '/repo')
d = VV + '/seeded/' + sid
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix='mkseed_', dir='/tmp')
try:
    diff = ''
    byf = {}
    for f, old, new in ns['EDITS']:
        byf.setdefault(f, []).append((old, new))
    for f, eds in byf.items():
        s0 = s = subprocess.check_output(['git', '-C', REPO, 'show', 'HEAD:' + f], text=True)
        for old, new in eds:
            assert s.count(old) == 1, (f, old, s.count(old))
            s = s.replace(old, new)
        a = os.path.join(t, 'a', f); b = os.path.join(t, 'b', f)
        for p, x in ((a, s0), (b, s)):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').write(x)
        r = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, a, b], capture_output=True, text=True)
        diff += 'diff --git a/%s b/%s\n' % (f, f) + r.stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(ns['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
        'export HOME="$(mktemp -d)"\ntrap \'rm -rf "$HOME"\' EXIT\n'
        'PYTHONPATH="$PWD" /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(d + '/meta.json', 'w'), indent=1)
finally:
    shutil.rmtree(t)
subprocess.check_call(['git', '-C', REPO, 'apply', '--check', d + '/patch.diff'])
r = subprocess.run(['bash', d + '/demo.sh'], cwd=REPO, capture_output=True, text=True)
print(sid, 'demo on the unchanged tree:', r.returncode, r.stdout[-300:], r.stderr[-800:])
