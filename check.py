#!/usr/bin/env python3-vt
"""check.py <property> : decide one property on /repo's current working tree.  Exit 0 = held, 1 = VIOLATION, 2 = the check itself could not run."""
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vc import build, plan

PY = sys.executable
EVID = os.environ.get('VC_EVID', os.path.join(HERE, 'evidence'))
TRUSTED = ['clang 18 front end and -O2 mid-level passes (contracts and /repo code are compiled together to LLVM IR)',
           'the IR symbolic executor and rewriting prover in /verif/vc', 'z3 4.x / cvc5 1.1.2',
           'IEEE double arithmetic treated as exact real arithmetic (no rounding, overflow, signed zero)',
           'libstdc++/Eigen headers are executed as compiled; libm functions by algebraic axioms (sqrt, sin^2+cos^2=1) only']

def directives(path):
    d = dict(bound=[], secs=[], noinline=[], nativeonly=[], opts={}, trials=[], skipcover=False)
    for l in open(path):
        m = re.match(r'^// (BOUND|SECS|NOINLINE|NATIVEONLY|OPT|TRIALS)\s+(.*)$', l)
        if not m:
            continue
        k, v = m.group(1), m.group(2).split()
        if k == 'BOUND':
            d['bound'].append((re.compile('^(%s)$' % v[0]), int(v[1]), int(v[2]) if len(v) > 2 else int(v[1])))
        elif k == 'SECS':
            d['secs'].append((re.compile('^(%s)$' % v[0]), float(v[1])))
        elif k == 'TRIALS':
            d['trials'].append((re.compile('^(%s)$' % v[0]), int(v[1])))
        elif k == 'NOINLINE':
            d['noinline'] += v
        elif k == 'NATIVEONLY':
            d['nativeonly'] += [re.compile('^(%s)$' % x) for x in v]
        elif k == 'OPT':
            d['opts'][v[0]] = json.loads(v[1])
    return d

def pick(lst, name, dflt):
    for rx, *v in lst:
        if rx.match(name):
            return v[0] if len(v) == 1 else v
    return dflt

def code_hashes(bc, names):
    """hash of the optimised IR reachable from each harness: equal hash = the compiler produced the same code (comments, no-op edits)"""
    txt = subprocess.run(['llvm-dis', bc, '-o', '-'], stdout=subprocess.PIPE).stdout.decode('utf-8', 'replace')
    txt = re.sub(r'(, )?![\w.]+ ![0-9]+', '', txt)
    body = {}
    cur = None
    for l in txt.split('\n'):
        if l.startswith('define '):
            cur = re.search(r'@("[^"]*"|[\w.$-]+)', l).group(1)
            body[cur] = [re.sub(r' #\d+', '', l)]
        elif cur is not None:
            body[cur].append(re.sub(r' #\d+', '', l))
            if l == '}':
                cur = None
        elif l.startswith('@'):
            m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)', l)
            body[m.group(1)] = [m.group(2)]
    body = {k: '\n'.join(v) for k, v in body.items()}
    ref = re.compile(r'@("[^"]*"|[\w.$-]+)')
    anon = {k: v for k, v in body.items() if k.startswith(('.str', '__const', 'switch.table'))}
    for k in list(body):
        if k not in anon:
            body[k] = ref.sub(lambda m: '@<' + hashlib.sha1(anon[m.group(1)].encode()).hexdigest()[:12] + '>' if m.group(1) in anon else m.group(0), body[k])
    refs = {k: [r for r in ref.findall(v) if r in body] for k, v in body.items()}
    out = {}
    for n in names:
        seen = set()
        st = ['vch_' + n]
        while st:
            x = st.pop()
            if x in seen or x not in body:
                continue
            seen.add(x)
            st += refs[x]
        out[n] = hashlib.sha256('\n'.join(k + body[k] for k in sorted(seen)).encode()).hexdigest()[:24]
    return out

def load_baseline(prop):
    p = os.path.join(HERE, 'baseline', prop + '.json')
    return json.load(open(p)) if os.path.exists(p) else {}

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.budget = 780 if tier == 'quick' else 3300
        self.thorough = tier == 'thorough'
        self.scratch = tempfile.mkdtemp(prefix='vc_%s_' % prop)
        self.violations = []
        self.known = []
        self.harn = []
        self.hashes = {}
        self.lock = threading.Lock()
        self.base = load_baseline(prop)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def sym(self, bc, name, opts):
        out = os.path.join(self.scratch, '%s_%s_%s.json' % (os.path.basename(bc)[:8], name, opts.get('bound')))
        secs = opts.get('secs', 120)
        try:
            p = subprocess.run([PY, '-m', 'vc.worker', bc, name, json.dumps(opts), out], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=secs + 90)
            if os.path.exists(out):
                return json.load(open(out))
            return dict(harness=name, error='worker died: rc %d %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-300:]), obligations=0, bad=[], nbad=0, by={},
                        covers={}, ended={}, functions=[], assumed=[], solver_s=0, labels=[], mode='none')
        except subprocess.TimeoutExpired:
            return dict(harness=name, error='worker timeout', obligations=0, bad=[], nbad=0, by={}, covers={}, ended={}, functions=[], assumed=[], solver_s=0, labels=[], mode='none')

    def native(self, nb, name, trials, secs, seed, replay=None, mode=None, key=None):
        cmd = [nb, '--harness', name, '--seed', str(seed), '--trials', str(trials), '--secs', str(secs)]
        if replay:
            cmd += ['--replay', replay]
        if mode is not None:
            cmd += ['--mode', str(mode)]
        try:
            p = subprocess.run(cmd, cwd=self.scratch, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=secs + 30)
        except subprocess.TimeoutExpired:
            b = self.base.get(key)
            if b and b['hash'] != self.hashes.get(tuple(key.split(':'))):
                return dict(fail=dict(status='crash', harness=name, label='does not terminate', inputs=[], seed=seed), accepted=0, rejected=0, timeout=True)
            return dict(fail=None, accepted=0, rejected=0, timeout=True)
        r = dict(fail=None, accepted=0, rejected=0)
        for l in p.stdout.decode('utf-8', 'replace').split('\n'):
            if not l.startswith('{'):
                continue
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j['status'] in ('fail', 'crash'):
                if r['fail'] is None:
                    r['fail'] = j
            elif j['status'].startswith('done'):
                r['accepted'], r['rejected'] = j['accepted'], j['rejected']
        if r['fail'] is None and p.returncode not in (0, 2):
            r['fail'] = dict(status='crash', harness=name, label='process died with code %d' % p.returncode, inputs=[], seed=seed)
        return r

    def replay_file(self, con, name, data):
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s_%s_%s.json' % (self.prop, os.path.basename(con)[:-4], name))
        data.update(property=self.prop, contract=os.path.relpath(con, HERE), harness=name,
                    how_to_replay='cd /verif && python3-vt check.py --replay %s' % os.path.relpath(p, HERE))
        json.dump(data, open(p, 'w'), indent=1, default=str)
        return p

    def run(self):
        cons = sorted(glob.glob(os.path.join(HERE, 'contracts', self.prop.lower() + '*.cpp')))
        if not cons:
            raise build.BuildError('no contracts for ' + self.prop)
        jobs = []
        def prep(con):
            d = directives(con)
            srcs = plan.sources_of(con)
            names = build.harness_names(con)
            bc = build.sym_module(con, srcs, tuple(d['noinline']))
            nb = build.native_binary(con, srcs)
            hs = code_hashes(bc, names)
            with self.lock:
                self.hashes.update({(os.path.basename(con), k): v for k, v in hs.items()})
            return con, d, srcs, names, bc, nb
        with ThreadPoolExecutor(3) as ex:
            preps = list(ex.map(prep, cons))
        self.build_s = time.time() - self.t0
        for con, d, srcs, names, bc, nb in preps:
            for n in names:
                jobs.append((con, d, srcs, n, bc, nb))
        # longest first
        jobs.sort(key=lambda j: -pick(j[1]['secs'], j[3], 0))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: self.one(*j), jobs))
        self.harn = res
        return self.finish(preps)

    def one(self, con, d, srcs, name, bc, nb):
        secs = pick(d['secs'], name, 100)
        if self.thorough:
            secs *= 3
        secs = max(10, min(secs, self.left() - 60))
        opts = dict(d['opts'], secs=secs)
        if self.thorough:
            opts['solver_timeout'] = 30.0
        h = dict(contract=os.path.basename(con), harness=name, declared='unbounded')
        b = pick(d['bound'], name, None)
        trials = pick(d['trials'], name, 300) * (20 if self.thorough else 1)
        h['native'] = nat = self.native(nb, name, trials, 300 if self.thorough else 8, self.seed, key=os.path.basename(con) + ':' + name)
        nativeonly = any(rx.match(name) for rx in d['nativeonly'])
        if nativeonly:
            h['declared'] = 'tested only'
        if nat['fail']:
            opts['secs'] = min(secs, 40)
        sy = None
        if not nativeonly:
            if b is None:
                sy = self.sym(bc, name, opts)
                if sy['error'] and not sy['bad']:
                    h['degraded'] = sy['error']
                    bo = dict(opts, bound=2 if not self.thorough else 3, secs=max(10, min(secs, self.left() - 90)))
                    s2 = self.sym(bc, name, bo)
                    if not s2['error'] or s2['bad']:
                        sy = s2
            else:
                h['declared'] = 'bounded'
                sy = self.sym(bc, name, dict(opts, bound=b[1 if self.thorough else 0]))
        h['sym'] = sy
        h['verdict'] = self.verdict(con, nb, name, nat, sy, h)
        return h

    def verdict(self, con, nb, name, nat, sy, h):
        fail = nat['fail']
        if fail is None and sy and sy['bad']:
            # replay the verifier's counterexamples, then search around them
            for o in sy['bad'][:6]:
                m = o.get('model')
                if not m:
                    continue
                rf = os.path.join(self.scratch, 'replay_%s_%d.in' % (name, sy['bad'].index(o)))
                with open(rf, 'w') as f:
                    for nm, kind, v in m:
                        f.write('%s %s %s\n' % (re.sub(r'\s', '_', nm), {'real': 'r', 'int': 'i', 'bool': 'b'}.get(kind, 'r'), '?' if v is None else repr(v)))
                r = self.native(nb, name, 40, 10, self.seed, replay=rf)
                if r['fail']:
                    fail = r['fail']
                    h['replayed_model'] = True
                    break
            if fail is None:
                for md in (None, 1, 2):
                    r = self.native(nb, name, 200000, 15 if self.left() > 120 else 5, self.seed + 77, mode=md)
                    if r['fail']:
                        fail = r['fail']
                        break
        if fail is not None:
            p = self.replay_file(con, name, dict(kind='failing input', obligation=fail.get('label'), inputs=fail.get('inputs'), seed=fail.get('seed'), mode=fail.get('mode'),
                                                 verifier=[dict(label=o['label'], status=o['status'], why=o.get('why'), goal=o.get('goal')) for o in (sy or {}).get('bad', [])]))
            self.violations.append((name, fail.get('label'), p, True))
            return 'violated (replayed on the real code)'
        if sy is None:
            return 'tested'
        if sy['bad']:
            ref = [o for o in sy['bad'] if o['status'] == 'refuted'] or sy['bad']
            key = os.path.basename(con) + ':' + name
            b = self.base.get(key)
            # the obligations of this harness were all discharged on the reference code and the code under them has changed
            if b and b['verdict'] in ('proved', 'bounded') and b['hash'] != self.hashes.get((os.path.basename(con), name)):
                p = self.replay_file(con, name, dict(kind='failed obligation', obligation=ref[0]['label'],
                                                     verifier=[dict(label=o['label'], status=o['status'], why=o.get('why'), goal=o.get('goal'), pc=o.get('pc'), model=o.get('model')) for o in sy['bad']]))
                self.violations.append((name, ref[0]['label'], p, False))
                return 'violated (no failing input found)'
            return 'undecided'
        if sy['error']:
            return 'undecided'
        if sy['obligations'] == 0 or 'done' not in sy['ended'] and 'exit' not in sy['covers']:
            h['vacuous'] = True
            return 'undecided'
        return 'proved' if sy.get('bound') is None else 'bounded'

    def finish(self, preps):
        known = load_known(self.prop)
        out = []
        for name, label, path, hasinput in self.violations:
            k = [x for x in known if x['harness'] == name and x['label'] in (label or '')]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k[0]['what']))
                self.known.append(name)
            else:
                out.append('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if hasinput else ' no-failing-input-found'))
        ob = sum((h['sym'] or {}).get('obligations', 0) for h in self.harn)
        bad = sum((h['sym'] or {}).get('nbad', 0) for h in self.harn)
        unb = sum(h['sym']['obligations'] - h['sym']['nbad'] for h in self.harn if h['sym'] and h['sym'].get('bound') is None)
        bnd = sum(h['sym']['obligations'] - h['sym']['nbad'] for h in self.harn if h['sym'] and h['sym'].get('bound') is not None)
        by = {}
        fns = set()
        assumed = set()
        for h in self.harn:
            if h['sym']:
                for k, v in h['sym']['by'].items():
                    by[k] = by.get(k, 0) + v
                fns |= set(h['sym']['functions'])
                assumed |= set(h['sym']['assumed'])
        repo_fns = demangle([f for f in fns if not f.startswith('vch_')])
        verd = {}
        for h in self.harn:
            verd[h['verdict']] = verd.get(h['verdict'], 0) + 1
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='proof', wall_s=round(time.time() - self.t0, 1), violations=len(out),
                  coverage=dict(obligations=ob, discharged=ob - bad, discharged_for_all_inputs=unb, discharged_bounded=bnd,
                                checker_cmd='python3-vt check.py %s' % self.prop, trusted_base=TRUSTED, back_ends=by,
                                solver_seconds=round(sum((h['sym'] or {}).get('solver_s', 0) for h in self.harn), 1), build_seconds=round(self.build_s, 1),
                                harness_verdicts=verd, repo_units=sorted(set(s for p in preps for s in p[2])), functions_executed=repo_fns[:400],
                                native_trials=sum(h['native']['accepted'] for h in self.harn),
                                harnesses=[dict(contract=h['contract'], name=h['harness'], verdict=h['verdict'], declared=h['declared'], degraded=h.get('degraded'),
                                                obligations=(h['sym'] or {}).get('obligations', 0), failed=[(o['label'], o['status'], o.get('why')) for o in (h['sym'] or {}).get('bad', [])][:5],
                                                error=(h['sym'] or {}).get('error'), bound=(h['sym'] or {}).get('bound'), paths=(h['sym'] or {}).get('paths'),
                                                ended=(h['sym'] or {}).get('ended'), covers=(h['sym'] or {}).get('covers'), kinds=(h['sym'] or {}).get('kinds'),
                                                labels=(h['sym'] or {}).get('labels'), secs=(h['sym'] or {}).get('secs'), native=dict(h['native'], fail=bool(h['native']['fail']))) for h in self.harn]),
                  assumptions=sorted(assumed) + TRUSTED)
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.prop + '.json'), 'w'), indent=1, default=str)
        if self.write_baseline:
            os.makedirs(os.path.join(HERE, 'baseline'), exist_ok=True)
            json.dump({h['contract'] + ':' + h['harness']: dict(verdict=h['verdict'], hash=self.hashes[(h['contract'], h['harness'])]) for h in self.harn},
                      open(os.path.join(HERE, 'baseline', self.prop + '.json'), 'w'), indent=1, sort_keys=True)
        for h in self.harn:
            print('%-22s %-28s %s obl=%s %ss%s' % (h['contract'], h['harness'], h['verdict'], (h['sym'] or {}).get('obligations'), (h['sym'] or {}).get('secs'),
                                               '  [' + str(h.get('degraded') or (h['sym'] or {}).get('error') or '') + ']' if (h.get('degraded') or (h['sym'] or {}).get('error')) else ''))
        print('%s: %d obligations, %d discharged, %s, build %.0fs, total %.0fs' % (self.prop, ob, ob - bad, verd, self.build_s, time.time() - self.t0))
        for l in out:
            print(l)
        return 1 if out else 0

def demangle(names):
    try:
        out = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')
    except OSError:
        out = names
    return sorted(x[:160] for x in out if x and not x.startswith(('std::', 'Eigen::', 'void Eigen', 'void std')))

def load_known(prop):
    p = os.path.join(HERE, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['known'] if k['property'] == prop]

def replay(path):
    j = json.load(open(path))
    con = os.path.join(HERE, j['contract'])
    nb = build.native_binary(con, plan.sources_of(con))
    if j.get('inputs'):
        rf = tempfile.mktemp()
        with open(rf, 'w') as f:
            for nm, k, v in j['inputs']:
                f.write('%s %s %r\n' % (nm.replace(' ', '_'), k, v))
        r = subprocess.run([nb, '--harness', j['harness'], '--replay', rf, '--trials', '1', '--mode', str(j.get('mode', 0))])
        os.remove(rf)
        return r.returncode
    if j.get('seed') is not None:
        return subprocess.run([nb, '--harness', j['harness'], '--seed', str(j['seed']), '--trials', '1', '--mode', str(j.get('mode', 0))]).returncode
    print(json.dumps(j['verifier'], indent=1))
    return 0

def main():
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(prop, tier, seed)
    c.write_baseline = '--baseline' in sys.argv
    try:
        rc = c.run()
    except build.BuildError as e:
        print('check could not be built: ' + str(e))
        rc = 2
    finally:
        for f in os.listdir(c.scratch):
            os.remove(os.path.join(c.scratch, f))
        os.rmdir(c.scratch)
    sys.exit(rc)

if __name__ == '__main__':
    main()
