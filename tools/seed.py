"""python3 tools/seed.py SPEC.py...: each SPEC defines id, prop, edits=[(file, old, new)...], needs, breaks, demo (python source).
Confirms in a scratch copy of /repo that the stable tests pass and the demo tells the trees apart, then writes seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, MPLBACKEND='agg', SDL_VIDEODRIVER='dummy', SDL_AUDIODRIVER='dummy', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD='1')
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
export MPLBACKEND=agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD=1 PYTHONPATH="$PWD"
timeout 200 /opt/venv/bin/python "$D/demo.py"
'''


def run(spec):
    g = {}
    exec(open(spec).read(), g)
    base = tempfile.mkdtemp(prefix='seed_')
    repo = os.path.join(base, 'r')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        out = os.path.join(HERE, 'seeded', g['id'])
        d = os.path.join(base, 'd')
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(g['demo'].lstrip())
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        r = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, env=ENV, capture_output=True, text=True)
        if r.returncode:
            return 'demo fails on the clean tree: ' + (r.stdout + r.stderr)[-600:]
        for f, old, new in g['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit matches %d times in %s' % (s.count(old), f)
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['bash', d + '/demo.sh'], cwd=repo, env=ENV, capture_output=True, text=True)
        if not r.returncode:
            return 'demo passes with the patch'
        fail = (r.stdout + r.stderr).strip().splitlines()[-1:]
        subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-n', '6', '-o',
                        'junit_family=xunit2', '--junitxml=' + base + '/j.xml', 'tests'], cwd=repo, env=ENV, capture_output=True)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', base + '/o.json', 'junit:' + base + '/j.xml'], capture_output=True)
        bad = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(base + '/o.json'))['passed'])
        if bad:
            return 'tests fail: ' + ', '.join(sorted(bad))[:300]
        subprocess.run(['git', 'clean', '-fdq'], cwd=repo)
        diff = subprocess.run(['git', 'diff'], cwd=repo, capture_output=True, text=True).stdout
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        # verdict of the check on the patched copy
        r = subprocess.run(['python3', os.path.join(HERE, 'check.py'), g['prop']], env=dict(os.environ, SA_REPO=repo, SA_EVIDENCE=base), capture_output=True, text=True)
        return 'OK  (%s) check rc=%d %s' % (fail, r.returncode, [x for x in r.stdout.splitlines() if x.startswith('VIOL')][:2])
    finally:
        shutil.rmtree(base, ignore_errors=True)


for s in sys.argv[1:]:
    print(os.path.basename(s), run(s), flush=True)
