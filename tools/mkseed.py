"""developer tool: mkseed.py spec.py  -- spec defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo (C++ text), srcs)].
Writes seeded/<id>/ after confirming that the demo passes on /repo and fails with the patch."""
import os, sys, subprocess, json, shutil, tempfile, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns['SEEDS']:
        if only and s['id'] not in only: continue
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix='seed_')
        r = os.path.join(w, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', r])
        subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(r, f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print(s['id'], 'EDIT matches', n, 'times', f); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if ok:
            diff = subprocess.check_output(['git', '-C', r, 'diff']).decode()
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            open(os.path.join(d, 'demo.cpp'), 'w').write(s['demo'])
            sh = '''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property holds on the demonstrated input
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
pids=()
for f in "$D/demo.cpp" %s; do
  o="$T/$(echo "$f" | tr '/' '_').o"
  clang++ -std=c++14 -O1 -w -DNDEBUG -fno-pie -I"$PWD" -isystem /usr/include/eigen3 -c "$f" -o "$o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || { echo "compile failed"; exit 2; }; done
clang++ -no-pie "$T"/*.o -Wl,--unresolved-symbols=ignore-in-object-files -o "$T/demo" || { echo "link failed"; exit 2; }
timeout 60 "$T/demo"
''' % s['srcs']
            p = os.path.join(d, 'demo.sh')
            open(p, 'w').write(sh); os.chmod(p, 0o755)
            json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            a = subprocess.run(['bash', p], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            b = subprocess.run(['bash', p], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            print(s['id'], 'unchanged rc', a.returncode, 'patched rc', b.returncode, '' if (a.returncode == 0 and b.returncode == 1) else 'PROBLEM ' + a.stdout.decode()[-600:] + b.stdout.decode()[-600:])
        subprocess.check_call(['rm', '-rf', w])
main()
