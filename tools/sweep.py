"""run checks against every planted bug on a scratch copy: sweep.py [--all] [id ...]  (developer tool)"""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/sweep_wt'
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
man = json.load(open(H + '/MANIFEST.json'))
allc = [c['property'] for c in man['checks']]
args = [a for a in sys.argv[1:] if not a.startswith('--')]
if not os.path.isdir(WT):
    sh('cp -a /repo %s' % WT)
sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', cwd=WT)
env = dict(os.environ, VERIF_REPO=WT, VERIF_EVIDENCE='/tmp/sweep_ev')
for b in sorted(os.listdir(H + '/seeded')):
    if args and b not in args:
        continue
    d = H + '/seeded/' + b
    m = json.load(open(d + '/meta.json'))
    sh('git checkout -q -- .', cwd=WT)
    r = sh('git apply %s/patch.diff' % d, cwd=WT)
    if r.returncode:
        print(b, 'PATCH DOES NOT APPLY', r.stderr); continue
    todo = allc if '--all' in sys.argv else [m['property']]
    ps = [(c, subprocess.Popen(['python3', H + '/check.py', c, '--tier', 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)) for c in todo if c in allc]
    out = []
    for c, p in ps:
        o, e = p.communicate()
        if p.returncode:
            out.append(c if p.returncode == 1 else '%s(rc %d: %s)' % (c, p.returncode, e[-200:]))
    print('%-28s %s %s caught by %s' % (b, m['property'], 'CAUGHT' if m['property'] in out else 'MISSED', ' '.join(out)), flush=True)
sh('git checkout -q -- .', cwd=WT)
