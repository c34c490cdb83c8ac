"""developer tool: run each seeded change's property check against it, in a scratch copy (VC_REPO).  runseeds.py [id...]"""
import os, sys, subprocess, json, tempfile, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, 'seeded')))
for i in ids:
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    w = tempfile.mkdtemp(prefix='rs_')
    subprocess.check_call(['cp', '-a', '/repo', w + '/repo'])
    subprocess.check_call(['git', '-C', w + '/repo', 'apply', os.path.join(V, 'seeded', i, 'patch.diff')])
    e = dict(os.environ, VC_REPO=w + '/repo', VC_EVID=w + '/ev')
    p = subprocess.run(['python3-vt', os.path.join(V, 'check.py'), m['property']], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    o = p.stdout.decode()
    vio = [l for l in o.split('\n') if l.startswith('VIOLATION')]
    hs = [re.sub(r' +', ' ', l)[:90] for l in o.split('\n') if 'violated' in l]
    print(i, m['property'], 'rc', p.returncode, 'CAUGHT' if p.returncode == 1 and vio else 'MISSED', '(no input)' if vio and all('no-failing' in x for x in vio) else '', hs[:3], re.findall(r'total (\d+)s', o), o[-300:] if p.returncode not in (0, 1) else '', flush=True)
    subprocess.check_call(['rm', '-rf', w])
