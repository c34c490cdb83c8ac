"""developer tool: run one contract file symbolically.  tools/try.py contract.cpp [harness...] [--bound N] [--dirs a,b]"""
import sys, time, glob, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, ir, symex, prove
from vc.symex import Engine
import traceback
def main():
    a = sys.argv[1:]
    bound = None
    if '--bound' in a:
        k = a.index('--bound'); bound = int(a[k+1]); del a[k:k+2]
    srcs = None
    if '--src' in a:
        k = a.index('--src'); srcs = a[k+1].split(','); del a[k:k+2]
    verbose = '-v' in a
    if verbose: a.remove('-v')
    con = os.path.abspath(a[0])
    from vc import plan
    if srcs is None:
        srcs = plan.sources_of(con)
    t0 = time.time()
    bc = build.sym_module(con, srcs)
    print('build', round(time.time()-t0, 1), bc)
    import re, json
    opts = {m.group(1): json.loads(m.group(2)) for m in re.finditer(r'^// OPT (\S+) (.*)$', open(con).read(), re.M)}
    names = a[1:] or build.harness_names(con)
    for n in names:
        t0 = time.time()
        mod = ir.Module(bc)
        pr = prove.Prover()
        eng = Engine(mod, pr, dict(opts, bound=bound))
        err = None
        try:
            eng.run('vch_' + n, time.time() + float(os.environ.get("VC_SECS","300")))
        except symex.Unsupported as e:
            err = 'UNSUPPORTED ' + str(e)
            if verbose: traceback.print_exc()
        except Exception as e:
            err = 'ERR ' + repr(e)
            traceback.print_exc()
        bad = [o for o in eng.obls if o['status'] != 'proved']
        by = {}
        for o in eng.obls: by[o['by']] = by.get(o['by'], 0) + 1
        print('%-24s obl %d bad %d paths %d inst %d ended %s covers %s by %s %.1fs %s' % (n, len(eng.obls), len(bad), eng.npaths, eng.ninst, eng.ended, eng.covers, by, time.time()-t0, err or ''))
        slow = sorted(eng.obls, key=lambda o: -o['time'])[:5]
        if slow and slow[0]['time'] > 2: print('   slow', [(o['label'][:50], o['time'], o['by']) for o in slow])
        seen = set()
        for o in bad:
            if o['label'] in seen: continue
            seen.add(o['label'])
            print('   BAD', o['label'], o['status'], o.get('why'), o.get('goal','')[:300], [str(x)[:80] for x in (o.get('model') or [])][:12])
        if eng.assumed or eng.models.used: print('   assumed', list(eng.assumed), list(eng.models.used))
main()
