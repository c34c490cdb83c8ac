"""Which repository sources a contract file needs: the transitive closure of undefined symbols over the repository's translation units."""
import os
import re
import subprocess
from . import build

DIRS = ['scisim', 'ball2d', 'rigidbody2d', 'rigidbody3d', 'ball2dutils', 'rigidbody2dutils', 'rigidbody3dutils']
SKIP = re.compile(r'HDF5File\.cpp|ImpactSolution\.cpp|Ipopt|[Ss]obogus|/bogus/|StateOutput\.cpp|SceneParser|qt4|QL/')

def all_sources():
    out = []
    for d in DIRS:
        for r, _, fs in sorted(os.walk(os.path.join(build.REPO, d))):
            for f in sorted(fs):
                if f.endswith('.cpp'):
                    p = os.path.relpath(os.path.join(r, f), build.REPO)
                    if not SKIP.search(p):
                        out.append(p)
    return out

def sources_of(contract):
    """'// SRC: a.cpp b.cpp' lines in the contract file, plus every repository unit whose header is included (directly or transitively)"""
    seen = set()
    srcs = []
    included = set()
    work = [contract]
    have = set(all_sources())
    while work:
        p = work.pop()
        if p in seen or not os.path.exists(p):
            continue
        seen.add(p)
        txt = open(p, errors='replace').read()
        for m in re.finditer(r'^// SRC: (.*)$', txt, re.M):
            for f in m.group(1).split():
                if f not in srcs:
                    srcs.append(f)
        for m in re.finditer(r'^\s*#include\s+"([^"]+)"', txt, re.M):
            h = m.group(1)
            for base in (os.path.dirname(p), build.CON, build.REPO):
                q = os.path.normpath(os.path.join(base, h))
                if os.path.exists(q):
                    work.append(q)
                    if q.startswith(build.REPO + '/') and q.endswith('.cpp'):
                        included.add(os.path.relpath(q, build.REPO))
                    if q.startswith(build.REPO + '/') and q.endswith('.h'):
                        c = os.path.relpath(q[:-2] + '.cpp', build.REPO)
                        if c in have and c not in srcs:
                            srcs.append(c)
                            work.append(q[:-2] + '.cpp')
                    break
    return [f for f in srcs if f not in included]
