"""Discharging obligations: algebraic normal form, then z3, then cvc5."""
import time
from fractions import Fraction
import z3
from . import terms as T
from . import nf as N
from .terms import R, IP, F, TRUE, FALSE, f_not, _iat_list

STATS = {'algebra': 0, 'z3': 0, 'cvc5': 0, 'syntactic': 0, 'solver_s': 0.0, 'z3_calls': 0, 'z3_unknown': 0}

# ------------------------------------------------------------------ translation
def zi(p):
    if isinstance(p, int):
        return z3.IntVal(p)
    s = []
    for m, c in p.t.items():
        fs = [zatom(i) for i in m]
        if c != 1 or not fs:
            fs.insert(0, z3.IntVal(c))
        e = fs[0]
        for f in fs[1:]:
            e = e * f
        s.append(e)
    if not s:
        return z3.IntVal(0)
    return s[0] if len(s) == 1 else z3.Sum(s)

def zatom(i):
    a = _iat_list[i]
    if a.z is None:
        if a.kind == 'div':
            a.z = zi(a.args[0]) / z3.IntVal(a.args[1])
        elif a.kind == 'iite':
            a.z = z3.If(zf(a.args[0]), zi(a.args[1]), zi(a.args[2]))
        else:
            a.z = z3.Int('i%d_%s' % (a.id, a.kind))
    return a.z

def zr(n):
    if n.z is not None:
        return n.z
    st = [n]
    while st:
        x = st[-1]
        if x.z is not None:
            st.pop()
            continue
        if x.op in ('sqrt', 'fn', 'v', 'sel', 'sum'):
            x.z = z3.Real('r%d' % x.id)
            st.pop()
            continue
        pend = [y for y in x.a if isinstance(y, R) and y.z is None]
        if pend:
            st.extend(pend)
            continue
        o = x.op
        a = x.a
        if o == 'c':
            v = a[0]
            x.z = z3.RealVal(v) if isinstance(v, int) else z3.Q(v.numerator, v.denominator)
        elif o == 'add':
            x.z = a[0].z + a[1].z
        elif o == 'sub':
            x.z = a[0].z - a[1].z
        elif o == 'mul':
            x.z = a[0].z * a[1].z
        elif o == 'div':
            x.z = a[0].z / a[1].z
        elif o == 'neg':
            x.z = -a[0].z
        elif o == 'ite':
            x.z = z3.If(zf(a[0]), a[1].z, a[2].z)
        elif o == 'toreal':
            x.z = z3.ToReal(zi(a[0]))
        else:
            x.z = z3.Real('special%d' % x.id)
        st.pop()
    return n.z

def zf(f):
    if f.z is None:
        o = f.op
        if o == 'T':
            f.z = z3.BoolVal(True)
        elif o == 'F':
            f.z = z3.BoolVal(False)
        elif o == 'not':
            f.z = z3.Not(zf(f.a[0]))
        elif o == 'and':
            f.z = z3.And([zf(x) for x in f.a])
        elif o == 'or':
            f.z = z3.Or([zf(x) for x in f.a])
        elif o == 'ile':
            f.z = zi(f.a[0]) <= 0
        elif o == 'ieq':
            f.z = zi(f.a[0]) == 0
        elif o == 'rle':
            d = f.a[0]
            f.z = (zr(d.a[0]) <= zr(d.a[1])) if d.op == 'sub' else (zr(d) <= 0)
        elif o == 'rlt':
            d = f.a[0]
            f.z = (zr(d.a[0]) < zr(d.a[1])) if d.op == 'sub' else (zr(d) < 0)
        elif o == 'req':
            d = f.a[0]
            f.z = (zr(d.a[0]) == zr(d.a[1])) if d.op == 'sub' else (zr(d) == 0)
        elif o in ('b', 'bsel', 'forall'):
            f.z = z3.Bool('b%d' % f.id)
        else:
            raise NotImplementedError(o)
    return f.z

# ------------------------------------------------------------------ support (leaf symbols and nodes needing axioms)
_sup = {}
def support(x):
    """frozenset of symbols: R leaf nodes (v, sel, sum, sqrt, fn), IAtoms, boolean F leaves; closed under definitions"""
    s = _sup.get(x)
    if s is not None:
        return s
    if isinstance(x, IP):
        out = set()
        for i in x.atoms():
            out |= _asup(_iat_list[i])
        s = frozenset(out)
        _sup[x] = s
        return s
    # R / F : iterative
    st = [x]
    while st:
        y = st[-1]
        if y in _sup:
            st.pop()
            continue
        pend = [k for k in y.a if isinstance(k, (R, F)) and k not in _sup]
        if y.op in ('sum', 'forall'):
            pend = []
        if pend:
            st.extend(pend)
            continue
        out = set()
        if isinstance(y, R):
            if y.op in ('v', 'sel', 'sum', 'sqrt', 'fn'):
                out.add(y)
            if y.op == 'sel':
                out |= support(y.a[1])
        else:
            if y.op in ('b', 'bsel', 'forall'):
                out.add(y)
            if y.op == 'bsel':
                out |= support(y.a[1])
        if y.op not in ('sum', 'forall'):
            for k in y.a:
                if isinstance(k, (R, F)):
                    out |= _sup[k]
                elif isinstance(k, IP):
                    out |= support(k)
        if isinstance(y, R) and y.op == 'div':
            pass
        _sup[y] = frozenset(out)
        st.pop()
    return _sup[x]

def _asup(a):
    out = {a}
    for k in a.args:
        if isinstance(k, (IP, R, F)) and a.kind not in ('isum',):
            out |= support(k)
    return out

def axioms(symbols):
    """z3 facts defining the derived symbols; and whether integers occur"""
    ax = []
    ints = False
    bysel = {}
    trig = {}
    for s in symbols:
        if isinstance(s, T.IAtom):
            ints = True
            z = zatom(s.id)
            if s.kind in ('v', 'sel', 'trunc', 'floor', 'isum', 'tdiv'):
                if s.lo != -T.INF:
                    ax.append(z >= int(s.lo))
                if s.hi != T.INF:
                    ax.append(z <= int(s.hi))
            if s.kind == 'sel':
                bysel.setdefault(s.args[0], []).append((s.args[1], z))
            elif s.kind == 'floor':
                x = zr(s.args[0])
                ax.append(z3.ToReal(z) <= x)
                ax.append(x < z3.ToReal(z) + 1)
            elif s.kind == 'trunc':
                x = zr(s.args[0])
                zz = z3.ToReal(z)
                ax.append(z3.Implies(x >= 0, z3.And(zz <= x, x < zz + 1)))
                ax.append(z3.Implies(x < 0, z3.And(zz >= x, x > zz - 1)))
            elif s.kind == 'tdiv':
                a, b = zi(s.args[0]), zi(s.args[1])
                r = a - b * z
                ax.append(z3.Implies(b != 0, z3.And(z3.Implies(a >= 0, z3.And(r >= 0, r < z3.If(b >= 0, b, -b))),
                                                   z3.Implies(a < 0, z3.And(r <= 0, -r < z3.If(b >= 0, b, -b))))))
        elif isinstance(s, R):
            if s.op == 'sqrt':
                z = zr(s)
                ax.append(z >= 0)
                ax.append(z * z == zr(s.a[0]))
            elif s.op == 'fn' and s.a[0] in ('sin', 'cos'):
                trig.setdefault(s.a[1], {})[s.a[0]] = zr(s)
            elif s.op == 'sel':
                bysel.setdefault(s.a[0], []).append((s.a[1], zr(s)))
            elif s.op == 'v' and s is T.PI:
                ax.append(zr(s) > z3.Q(314159, 100000))
                ax.append(zr(s) < z3.Q(314160, 100000))
            if s in N.UNIT:
                ax.append(zr(s) * zr(s) == zr(N.UNIT[s]))
        elif isinstance(s, F) and s.op == 'bsel':
            bysel.setdefault(s.a[0], []).append((s.a[1], zf(s)))
    for arg, d in trig.items():
        for k, v in d.items():
            ax.append(v <= 1)
            ax.append(v >= -1)
        if len(d) == 2:
            ax.append(d['sin'] * d['sin'] + d['cos'] * d['cos'] == 1)
    for base, lst in bysel.items():
        n = len(lst)
        for i in range(n):
            for j in range(i):
                d = T.isub(lst[i][0], lst[j][0])
                if isinstance(d, int):
                    continue
                e = T.f_ieq0(d)
                if e is FALSE:
                    continue
                ax.append(z3.Implies(zf(e), lst[i][1] == lst[j][1]))
    return ax, ints

def unit_syms(symbols):
    """pull in companions of unit-vector components"""
    out = set(symbols)
    for s in symbols:
        if isinstance(s, R) and s in N.UNIT:
            out |= support(N.UNIT[s])
    return out

def cone(pc, f):
    """path facts that (transitively) share symbols with f"""
    syms = set(unit_syms(support(f)))
    left = list(pc)
    used = []
    ch = True
    while ch:
        ch = False
        rest = []
        for g in left:
            s = support(g)
            if not s or (s & syms):
                used.append(g)
                new = unit_syms(s) - syms
                if new:
                    syms |= new
                    ch = True
            else:
                rest.append(g)
        left = rest
    return used, syms

def z3_sat(fs, syms, timeout):
    """'sat'/'unsat'/'unknown', model"""
    t0 = time.time()
    ax, ints = axioms(syms)
    if ints:
        s = z3.Solver()
    else:
        s = z3.SolverFor('QF_NRA')
    s.set('timeout', int(timeout * 1000))
    for a in ax:
        s.add(a)
    for f in fs:
        s.add(zf(f))
    r = str(s.check())
    STATS['z3_calls'] += 1
    STATS['solver_s'] += time.time() - t0
    if r == 'unknown':
        STATS['z3_unknown'] += 1
    return r, (s if r == 'sat' else None), s

# ------------------------------------------------------------------ linear reasoning over normal-form monomials
_OPQ = {'opaque': True, 'memo': {}}
_lvar = {}
_lfail = set()
class Lin:
    """facts as linear constraints over monomials of the normal form; 'unsat' is sound (monomials are abstracted by fresh reals)"""
    def __init__(self, fs):
        self.fs = fs
        self.ax = []
        self.seen = set()
        self.nodes = set()
        self.dsign = {}
        self.cache = {}

    def mon(self, m):
        v = _lvar.get(m)
        if v is None:
            v = _lvar[m] = z3.Real('m%d' % len(_lvar))
        if m not in self.seen:
            self.seen.add(m)
            if all(e % 2 == 0 or a in N.apos for a, e in m):
                self.ax.append(v >= 0)
            for a, e in m:
                if (a,) in self.seen:
                    continue
                self.seen.add((a,))
                key, node, _ = N.ainfo[a]
                if key[0] == 'sqrt' and a in N.arel and N.arel[a] is not None:
                    av = self.mon(((a, 1),))
                    pv = self.poly(N.arel[a])
                    self.ax.append(z3.Implies(pv > 0, av > 0))
                    self.ax.append(z3.Implies(pv == 0, av == 0))
                elif key[0] == 'abs':
                    av = self.mon(((a, 1),))
                    bv = self.mon(((key[1], 1),))
                    self.ax.append(z3.Or(av == bv, av == -bv))
                elif key[0] == 'ite':
                    av = self.mon(((a, 1),))
                    c = self.form(node.a[0])
                    for cc, t in ((c, node.a[1]), (z3.Not(c), node.a[2])):
                        e_ = self.expr(t)
                        if e_ is not None:
                            self.ax.append(z3.Implies(cc, av == e_))
                elif key[0] == 'i':
                    self.ax.append(self.mon(((a, 1),)) == z3.ToReal(zatom(key[1])))
                elif node is T.PI:
                    av = self.mon(((a, 1),))
                    self.ax.append(z3.And(av > z3.Q(314159, 100000), av < z3.Q(314160, 100000)))
                elif key[0] == 'fn' and key[1] in ('sin', 'cos'):
                    av = self.mon(((a, 1),))
                    self.ax.append(z3.And(av >= -1, av <= 1))
        return v

    def poly(self, p):
        s = []
        for m, c in p.items():
            k = z3.RealVal(c) if isinstance(c, int) else z3.Q(c.numerator, c.denominator)
            s.append(k if not m else k * self.mon(m))
        return z3.Sum(s) if s else z3.RealVal(0)

    def rf(self, n):
        if n in _lfail:
            return None
        a, b = N.MAXTERMS, N.MAXPROD
        N.MAXTERMS, N.MAXPROD = 1500, 60000
        try:
            return N.nf(n, _OPQ)
        except (N.TooBig, N.Opaque, ZeroDivisionError, NotImplementedError):
            _lfail.add(n)
            return None
        finally:
            N.MAXTERMS, N.MAXPROD = a, b

    def expr(self, n):
        """z3 linear term for a real term"""
        r = self.rf(n)
        if r is None:
            return None
        if r.d:
            return z3.Real('q%d' % n.id)
        return self.poly(r.n)

    def den(self, d):
        """sign (+1/-1) of a denominator factor product, or None"""
        s = 1
        for k, e in d:
            if e % 2 == 0 or N.p_even_pos(N.dtab[k]):
                continue
            g = self.dsign.get(k)
            if g is None:
                g = 0
                for t in (1, -1):
                    L = Lin(self.fs)
                    L.dsign = dict(self.dsign)
                    L.dsign[k] = 0
                    e_ = L.poly(N.dtab[k])
                    if L.check([e_ <= 0 if t > 0 else e_ >= 0], 0.5):
                        g = t
                        break
                self.dsign[k] = g
            if g == 0:
                return None
            s *= g
        return s

    def form(self, f):
        o = f.op
        if o == 'T':
            return z3.BoolVal(True)
        if o == 'F':
            return z3.BoolVal(False)
        if o == 'not':
            return z3.Not(self.form(f.a[0]))
        if o == 'and':
            return z3.And([self.form(x) for x in f.a])
        if o == 'or':
            return z3.Or([self.form(x) for x in f.a])
        if o in ('rle', 'rlt', 'req'):
            c = self.cache.get(f)
            if c is not None:
                return c
            r = self.rf(f.a[0])
            out = None
            if r is not None:
                s = 1 if (not r.d or o == 'req') else self.den(r.d)
                if s is not None:
                    e = self.poly(r.n)
                    if s < 0:
                        e = -e
                    out = e <= 0 if o == 'rle' else e < 0 if o == 'rlt' else e == 0
            if out is None:
                out = z3.Bool('b%d' % f.id)
            self.cache[f] = out
            return out
        return zf(f)

    def check(self, extra, timeout):
        """True when facts + extra are unsatisfiable"""
        t0 = time.time()
        body = [self.form(f) for f in self.fs] + extra
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        for b in body:
            s.add(b)
        for b in self.ax:
            s.add(b)
        r = str(s.check())
        STATS['solver_s'] += time.time() - t0
        return r == 'unsat'

def lin_unsat(fs, timeout=1.0):
    if len(fs) > 400:
        return False
    L = Lin(fs)
    return L.check([], timeout)

def f_size(f):
    return len(support(f))

_icache = {}
def implied(pc, f, timeout=0.3):
    """True when pc |= f is established (False: not established)"""
    if f is TRUE or f in pc:
        return True
    nf_ = f_not(f)
    used, syms = cone(pc, nf_)
    key = (frozenset(used), f)
    r = _icache.get(key)
    if r is None:
        st, _, _ = z3_sat(used + [nf_], syms, timeout)
        if st == 'unknown' and has_real(nf_) and lin_unsat(used + [nf_], timeout):
            st = 'unsat'
        r = st
        _icache[key] = r
    return r == 'unsat'

def feasible(pc, timeout=1.0):
    """False only when pc is unsatisfiable for sure"""
    syms = set()
    for f in pc:
        syms |= support(f)
    syms = unit_syms(syms)
    st, _, _ = z3_sat(list(pc), syms, timeout)
    if st == 'unknown' and lin_unsat(list(pc), timeout):
        st = 'unsat'
    return st != 'unsat'

def has_real(f):
    return f.op in ('rle', 'rlt', 'req') or any(isinstance(x, F) and has_real(x) for x in f.a)

class Result:
    def __init__(self, status, by=None, model=None, why=None):
        self.status, self.by, self.model, self.why = status, by, model, why

class Prover:
    def __init__(self, timeout=8.0, deadline=None):
        self.timeout = timeout
        self.deadline = deadline

    def _decider(self, pc):
        """resolves ite conditions under pc; raises Split(cond) when open"""
        cache = {}
        pcs = pc
        def get(f):
            v = cache.get(f)
            if v is not None:
                return v
            if f in pcs:
                v = True
            elif f_not(f) in pcs:
                v = False
            elif implied(pcs, f):
                v = True
            elif implied(pcs, f_not(f)):
                v = False
            else:
                raise Split(f)
            cache[f] = v
            return v
        return {'get': get, 'memo': {}}

    def algebra(self, pc, d, depth=0):
        """d == 0 ?  True / None"""
        if depth == 0:
            d = cancel(d)
        dec = self._decider(pc) if d.ite else None
        try:
            r = N.nf(d, dec)
            return True if not r.n else None
        except Split as s:
            if depth >= 8:
                return None
            for b in (s.f, f_not(s.f)):
                pc2 = set(pc)
                pc2.add(b)
                if not feasible(pc2, 0.5):
                    continue
                if not self.algebra(pc2, d, depth + 1):
                    return None
            return True
        except (N.TooBig, N.Opaque, ZeroDivisionError):
            return None

    def sign(self, pc, d, strict):
        """d <= 0 (or < 0 when strict) by normal form? True/None"""
        if d.ite:
            return None
        try:
            r = N.nf(d)
        except (N.TooBig, N.Opaque, ZeroDivisionError):
            return None
        if not r.n:
            return None if strict else True
        if not r.d and len(r.n) == 1 and () in r.n:
            c = r.n[()]
            return True if (c < 0 or (c == 0 and not strict)) else None
        if not strict and all(N.p_even_pos(N.dtab[k]) or e % 2 == 0 for k, e in r.d) and N.p_even_pos(N.p_scale(r.n, -1)):
            return True
        return None

    def prove(self, pc, f):
        t0 = time.time()
        self.deadline = t0 + 30
        pc = frozenset(pc)
        if T.ADEF and any(isinstance(s, R) and s in T.ADEF for s in support(f)):
            # named terms: first with the names opaque, then with their definitions
            memo = {}
            r = None
            if f is TRUE or f in pc:
                r = Result('proved', 'syntactic')
            elif f.op == 'req' and self.algebra(pc, f.a[0]):
                r = Result('proved', 'algebra')
            else:
                lv = T.levels()
                for k, only in enumerate(lv):
                    memo = {}
                    fe = T.expand(f, memo, only)
                    last = k == len(lv) - 1
                    if fe is f and not last:
                        continue
                    if fe.op == 'req':
                        pe = frozenset(T.expand(g, memo, only) for g in pc)
                        if self.algebra(pe, fe.a[0]):
                            r = Result('proved', 'algebra')
                            break
                    if last:
                        pe = frozenset(T.expand(g, memo, only) for g in pc)
                if r is None:
                    used, syms = cone(pc, f_not(f))
                    if z3_sat(used + [f_not(f)], syms, 0.5)[0] == 'unsat':
                        r = Result('proved', 'z3')
                    elif has_real(f) and lin_unsat(used + [f_not(f)]):
                        r = Result('proved', 'z3-lin')
                        STATS['z3-lin'] = STATS.get('z3-lin', 0) + 1
                    else:
                        r = self._prove(pe, fe)
                        if r.status == 'refuted' and any(isinstance(s, R) and s in T.ADEF for g in list(pe) + [fe] for s in support(g)):
                            r = Result('unknown', None, r.model, 'model of an abstraction')
            if r.by in ('algebra', 'syntactic', 'z3'):
                STATS[r.by] += 1
        else:
            r = self._prove(pc, f)
        r.time = time.time() - t0
        return r

    def _prove(self, pc, f):
        if f is TRUE or f in pc:
            STATS['syntactic'] += 1
            return Result('proved', 'syntactic')
        if f.op == 'and':
            by = set()
            for g in f.a:
                r = self._prove(pc, g)
                if r.status != 'proved':
                    return r
                by.add(r.by)
                pc = pc | {g}
            return Result('proved', '+'.join(sorted(by)))
        if f.op == 'or':
            # not a -> b : assume negations of all but one equality disjunct
            pass
        if f.op == 'req':
            if self.algebra(pc, f.a[0]):
                STATS['algebra'] += 1
                return Result('proved', 'algebra')
            # try with linear equalities of the path condition substituted is left to z3
        elif f.op in ('rle', 'rlt'):
            if self.sign(pc, f.a[0], f.op == 'rlt'):
                STATS['algebra'] += 1
                return Result('proved', 'algebra')
        nf_ = f_not(f)
        used, syms = cone(pc, nf_)
        st, m, s = z3_sat(used + [nf_], syms, min(1.0, self.timeout))
        if st == 'unknown':
            if has_real(nf_) and lin_unsat(used + [nf_]):
                STATS['z3-lin'] = STATS.get('z3-lin', 0) + 1
                return Result('proved', 'z3-lin')
            st, m, s = z3_sat(used + [nf_], syms, self.timeout)
        if st == 'unsat':
            STATS['z3'] += 1
            return Result('proved', 'z3')
        if st == 'sat':
            try:
                mod = m.model()
            except Exception:
                mod = None
            return Result('refuted', 'z3', (mod, syms), 'z3: sat')
        # ite splitting
        if time.time() > self.deadline:
            return Result('unknown', None, None, 'deadline')
        rs = self._split(pc, f, 0)
        if rs is not None and rs.status == 'proved':
            return rs
        c = self.cvc5(s, self.timeout)
        if c == 'unsat':
            STATS['cvc5'] += 1
            return Result('proved', 'cvc5')
        return Result('unknown', None, None, 'z3: %s, cvc5: %s' % (st, c))

    def _split(self, pc, f, depth):
        """case split on an ite condition or disjunction inside an inequality"""
        c = None
        if f.op in ('rle', 'rlt', 'req') and f.a[0].ite:
            c = N.collect_ites(f.a[0])[0]
        if c is None or depth > 5 or time.time() > self.deadline:
            return None
        out = None
        for b in (c, f_not(c)):
            pc2 = set(pc)
            pc2.add(b)
            pc2 = frozenset(pc2)
            if not feasible(pc2, 0.5):
                continue
            d = simplify_ite(f.a[0], {c: b is c})
            g = {'rle': T.f_rle, 'rlt': T.f_rlt, 'req': T.f_req}[f.op](d, T.ZERO)
            r = self._prove(pc2, g)
            if r.status != 'proved':
                return r
            out = r
        return out or Result('proved', 'z3')

    def cvc5(self, s, timeout):
        try:
            import cvc5
        except ImportError:
            return 'unavailable'
        t0 = time.time()
        try:
            txt = s.to_smt2()
            sl = cvc5.Solver()
            sl.setOption('tlimit-per', str(int(timeout * 1000)))
            sl.setLogic('ALL')
            p = cvc5.InputParser(sl)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
            sm = p.getSymbolManager()
            out = 'unknown'
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                res = str(cmd.invoke(sl, sm)).strip()
                if res in ('sat', 'unsat', 'unknown'):
                    out = res
            return out
        except Exception as e:
            return 'error %s' % str(e)[:80]
        finally:
            STATS['solver_s'] += time.time() - t0

def cancel(d):
    """drop identical subterms that occur with opposite signs in a sum"""
    acc = {}
    order = []
    st = [(d, 1)]
    n = 0
    while st:
        x, c = st.pop()
        n += 1
        if n > 20000:
            return d
        o = x.op
        if o == 'add':
            st.append((x.a[0], c))
            st.append((x.a[1], c))
        elif o == 'sub':
            st.append((x.a[0], c))
            st.append((x.a[1], -c))
        elif o == 'neg':
            st.append((x.a[0], -c))
        else:
            if x not in acc:
                order.append(x)
            acc[x] = acc.get(x, 0) + c
    left = [(x, acc[x]) for x in order if acc[x]]
    if len(left) == len(order):
        return d
    r = T.ZERO
    for x, c in left:
        r = T.radd(r, T.rmul(T.rc(c), x))
    return r

class Split(Exception):
    def __init__(self, f):
        self.f = f

def simplify_ite(n, dec):
    memo = {}
    def go(x):
        if not x.ite:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        o, a = x.op, x.a
        if o == 'ite':
            v = dec.get(a[0])
            if v is None:
                r = T.rite(a[0], go(a[1]), go(a[2]))
            else:
                r = go(a[1]) if v else go(a[2])
        elif o == 'add':
            r = T.radd(go(a[0]), go(a[1]))
        elif o == 'sub':
            r = T.rsub(go(a[0]), go(a[1]))
        elif o == 'mul':
            r = T.rmul(go(a[0]), go(a[1]))
        elif o == 'div':
            r = T.rdiv(go(a[0]), go(a[1]))
        elif o == 'neg':
            r = T.rneg(go(a[0]))
        elif o == 'sqrt':
            r = T.rsqrt(go(a[0]))
        elif o == 'fn':
            r = T.rfn(a[0], *[go(y) for y in a[1:]])
        else:
            r = x
        memo[x] = r
        return r
    return go(n)
