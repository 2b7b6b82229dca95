"""dev tool: seed.py ID FILE  - reads a python expression list of (old,new) edits and demo from stdin JSON-ish file.

usage: seed.py spec.py   where spec.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO
creates /verif/seeded/<ID>, validates in a scratch copy, and prints whether the check catches it."""
import json, os, shutil, subprocess, sys, tempfile, difflib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(spec):
    ns = {}
    exec(open(spec).read(), ns)
    sid = ns['ID']
    d = '%s/seeded/%s' % (V, sid)
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as T:
        R = T + '/repo'
        subprocess.run(['cp', '-a', '/repo', R], check=True)
        for f, old, new in ns['EDITS']:
            s = open(R + '/' + f).read()
            assert s.count(old) == 1, (sid, f, old, s.count(old))
            open(R + '/' + f, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        for f in ('env.py', 'bases.json.gz', 'demo.sh'):
            if f == 'demo.sh' or 'env' in ns['DEMO']:
                shutil.copy(V + '/tools/seedkit/' + f, d)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(ns['DEMO'])
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(d + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=R, capture_output=True, text=True)
        print(sid, 'demo clean rc', a.returncode, 'patched rc', b.returncode)
        if a.returncode or not b.returncode:
            print(a.stdout[-1500:], a.stderr[-1500:], b.stdout[-500:], b.stderr[-500:])
        if any(x in diff for x in ('wcxf/', 'util/qcd', 'eos')):
            os.makedirs(T + '/h')
            open(T + '/h/wilson_partial.py', 'w').write(open('/opt/vp/harness/wilson_partial.py').read().replace('/repo', R))
            open(T + '/t.sh', 'w').write(open('/opt/vp/test.sh').read().replace('/repo', R).replace('/opt/vp/harness', T + '/h'))
            t = subprocess.run('bash %s/t.sh %s/o.json >/dev/null 2>&1; cat %s/o.json' % (T, T, T), shell=True,
                               capture_output=True, text=True)
            try:
                print('  tests passed', len(json.loads(t.stdout)['passed']))
            except Exception:
                print('  tests?', t.stdout[-300:])
        for pid in ns.get('CHECK', [ns['PROP']]):
            c = subprocess.run(['python3', 'check.py', pid], cwd=V, capture_output=True, text=True,
                               env=dict(os.environ, WILSON_REPO=R))
            print('  check', pid, 'rc', c.returncode, c.stdout[:400].replace('\n', ' | ')[:400])


for s in sys.argv[1:]:
    run(s)
