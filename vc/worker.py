"""One harness, one process: symbolic execution of the contract through the real code and discharge of every obligation."""
import json
import os
import resource
import sys
import time
import traceback

def run_harness(bc, name, opts):
    """returns a JSON-able dict"""
    resource.setrlimit(resource.RLIMIT_AS, (opts.get('mem', 7) << 30, opts.get('mem', 7) << 30))
    from . import ir, symex, prove
    t0 = time.time()
    res = dict(harness=name, mode='unbounded' if opts.get('bound') is None else 'bounded', bound=opts.get('bound'))
    mod = ir.Module(bc)
    eng = symex.Engine(mod, prove.Prover(opts.get('solver_timeout', 8.0)), dict(opts))
    err = None
    try:
        eng.run('vch_' + name, t0 + opts.get('secs', 120))
    except symex.Unsupported as e:
        err = 'unsupported: ' + str(e)
    except MemoryError:
        err = 'memory limit'
    except RecursionError:
        err = 'recursion limit'
    except Exception as e:
        err = 'internal: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
    if err is None and any(k.startswith('budget') for k in eng.ended):
        err = [k for k in eng.ended if k.startswith('budget')][0]
    by = {}
    for o in eng.obls:
        if o['status'] == 'proved':
            by[o['by']] = by.get(o['by'], 0) + 1
    bad = [o for o in eng.obls if o['status'] != 'proved']
    res.update(error=err, obligations=len(eng.obls), by=by, bad=bad[:20], nbad=len(bad), covers=eng.covers, ended=eng.ended, paths=eng.npaths + 1,
               inst=eng.ninst, secs=round(time.time() - t0, 2), solver_s=round(prove.STATS['solver_s'], 2), z3_calls=prove.STATS['z3_calls'],
               functions=sorted(k for k in eng.called), assumed=sorted(list(eng.assumed) + list(eng.models.used)),
               labels=sorted(set(o['label'] for o in eng.obls if o['kind'] == 'assert')),
               kinds={k: sum(1 for o in eng.obls if o['kind'] == k) for k in set(o['kind'] for o in eng.obls)},
               loops=eng.loop_log[:50])
    return res

def main():
    bc, name, opts, out = sys.argv[1:5]
    r = run_harness(bc, name, json.loads(opts))
    with open(out, 'w') as f:
        json.dump(r, f, default=str)
    sys.stdout.flush()
    os._exit(0)

if __name__ == '__main__':
    main()
