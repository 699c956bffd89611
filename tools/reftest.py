"""Behaviour-preserving rewrites (tools/refactors/*.py) on which every check has to stay quiet.
python3 tools/reftest.py [-p PROP,PROP] [name-substring ...]"""
import ast, os, sys, subprocess, tempfile, shutil, glob, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
REFS = []


def ref(name, *edits):
    """edits: (file below mushroom_rl, old, new)."""
    REFS.append((name, edits))


def fn(f, qual, text):
    """Edit replacing a whole function (decorators kept) by the given text, indented as in the text."""
    src = open(os.path.join(REPO, 'mushroom_rl', f)).read()
    body = ast.parse(src).body
    for part in qual.split('.'):
        node = [x for x in body if isinstance(x, (ast.ClassDef, ast.FunctionDef)) and x.name == part][-1]
        body = node.body
    lines = src.split('\n')
    return (f, '\n'.join(lines[node.lineno - 1:node.end_lineno]) + '\n', text.strip('\n') + '\n')


for p in sorted(glob.glob(os.path.join(HERE, 'tools', 'refactors', '*.py'))):
    exec(compile(open(p).read(), p, 'exec'))

args = sys.argv[1:]
props = None
full = '--full' in args  # every check on every rewrite, not only the checks anchored in the edited files
args = [a for a in args if a != '--full']
if args[:1] == ['-p']:
    props = args[1].split(',')
    args = args[2:]
ALL = [c['property'] for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']]
base = {}


def run(prop, d):
    o = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), prop, '--no-write', '--repo', d], capture_output=True, text=True)
    t = [l for l in o.stdout.splitlines() if 'obligations' in l]
    und = int(t[0].split(' undecided')[0].split()[-1]) if t else -1
    return o.returncode, und, o.stdout + o.stderr


def main():
    root = tempfile.mkdtemp(prefix='reft')
    alarms = 0
    try:
        with ThreadPoolExecutor(8) as ex:
            jobs = []
            anch = {}
            for l in open(os.path.join(HERE, 'properties.jsonl')):
                q = json.loads(l)
                anch[q['id']] = q['anchors']['files']
            todo = []
            for name, edits in REFS:
                if args and not any(a in name for a in args):
                    continue
                d = os.path.join(root, '%d-%s' % (len(todo), name))
                shutil.copytree(REPO + '/mushroom_rl', d + '/mushroom_rl', ignore=shutil.ignore_patterns('__pycache__', '*.pyc', '*.xml', '*.stl', '*.STL'))
                for f, old, new in edits:
                    p = os.path.join(d, 'mushroom_rl', f)
                    s = open(p).read()
                    if old not in s:
                        print('STALE', name, f, old[:50]); continue
                    s = s.replace(old, new, 1)
                    compile(s, p, 'exec')
                    open(p, 'w').write(s)
                todo.append((name, d, {'mushroom_rl/' + e[0] for e in edits}))
            bl = dict(zip(props or ALL, ex.map(lambda q: run(q, REPO), props or ALL)))
            near = lambda q, fs: full or any(f == a or f.startswith(a.rstrip('/') + '/') for f in fs for a in anch[q])
            for name, d, fs in todo:
                for q in props or [q for q in ALL if near(q, fs)]:
                    jobs.append((name, q, ex.submit(run, q, d)))
            last = None
            res = {}
            for name, q, j in jobs:
                rc, und, txt = j.result()
                if rc != 0:
                    alarms += 1
                    print('ALARM' if rc == 1 else 'NOANSWER', name, q, '\n     '.join(l[:400] for l in txt.splitlines() if not l.startswith('KNOWN'))[:1500], flush=True)
                elif und > bl[q][1]:
                    res.setdefault(name, []).append('%s+%d' % (q, und - bl[q][1]))
            for n, _, _ in todo:
                print(n, 'undecided:', ' '.join(res.get(n, ['-'])))
    finally:
        shutil.rmtree(root)
    print('alarms', alarms)


main()
