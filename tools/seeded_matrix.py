"""Runs the check of every planted bug against a scratch copy of /repo with the bug applied; writes tools/seeded.json and
the table of DESIGN.md. seeded_matrix.py [--table] [ID...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, 'tools', 'seeded.json')
res = json.load(open(out)) if os.path.exists(out) else {}
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.path.basename(d) for d in glob.glob(V + '/seeded/*'))
for i in ids if '--table' not in sys.argv else []:
    d = os.path.join(V, 'seeded', i)
    c = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='seeded-', dir='/tmp')
    try:
        subprocess.check_call(['cp', '-a', '/repo', t + '/repo'])
        subprocess.check_call(['git', '-C', t + '/repo', 'apply', d + '/patch.diff'])
        r = subprocess.run([V + '/bin/check', c], env=dict(os.environ, SIM_REPO=t + '/repo'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = [l for l in r.stdout.splitlines() if l.startswith('violation:')]
        run = [l for l in r.stdout.splitlines() if l.startswith('seed=')]
        res[i] = {'property': c, 'rc': r.returncode, 'run': run[0].split('run=')[1] if run else None, 'what': o[0][11:] if o else r.stdout[-200:]}
        print(i, res[i], flush=True)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    json.dump(res, open(out, 'w'), indent=1, sort_keys=True)
res = {k: v for k, v in res.items() if os.path.exists(os.path.join(V, 'seeded', k))}
json.dump(res, open(out, 'w'), indent=1, sort_keys=True)
rows = ['| planted bug | breaks | caught by its check | needs |', '|---|---|---|---|']
for i in sorted(res):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    r = res[i]
    rows.append('| %s | %s | %s | %s |' % (i, r['property'], ('yes (run %s): %s' % (r['run'], r['what'].split(':')[0])) if r['rc'] == 1 else 'no', m['needs'].replace('|', '/')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeded table -->', '<!-- end of the table -->'
t = a + '\n' + '\n'.join(rows) + '\n' + b
if '@TABLE@' in s:
    s = s.replace('@TABLE@', t)
else:
    s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
open(p, 'w').write(s)
