"""Polynomial normal form of real terms modulo the ideal of square-root, sine/cosine and unit-vector relations.
Every relation has a pure square of a distinct atom as leading term, so the relations are a Groebner basis and the normal form
is canonical: a difference whose numerator normalizes to 0 is identically 0 wherever its denominators are non-zero."""
from fractions import Fraction
import math
from . import terms as T
from .terms import R, IP, F, rc, rsubst, _iat_list

class TooBig(Exception):
    pass

MAXTERMS = 60000
MAXPROD = 4000000

# atoms
_akey = {}
ainfo = []       # (key, node or None, set of int atoms)
arel = {}        # atom -> poly for atom^2
apos = set()     # atoms known >= 0

def atom(key, node=None, ia=frozenset()):
    i = _akey.get(key)
    if i is None:
        i = len(ainfo)
        _akey[key] = i
        ainfo.append((key, node, ia))
    return i

UNIT = {}   # R var -> R expression of its square

def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c

def p_const(c):
    return {(): c} if c else {}

def p_atom(a):
    return {((a, 1),): 1}

def p_add(p, q, s=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r

def p_scale(p, c):
    if c == 1:
        return p
    if c == 0:
        return {}
    return {m: norm_c(v * c) for m, v in p.items()}

def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)

def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) * len(q) > MAXPROD:
        raise TooBig()
    r = {}
    get = r.get
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m_mul(m1, m2)
            v = get(m, 0) + c1 * c2
            r[m] = v
    r = {m: norm_c(c) for m, c in r.items() if c}
    if len(r) > MAXTERMS:
        raise TooBig()
    return p_reduce(r)

def p_reduce(r):
    todo = [m for m in r if any(e > 1 and a in arel for a, e in m)]
    n = 0
    while todo:
        n += 1
        acc = {}
        for m in todo:
            c = r.pop(m)
            # split
            for idx, (a, e) in enumerate(m):
                if e > 1 and a in arel:
                    rest = m[:idx] + (((a, e - 2),) if e > 2 else ()) + m[idx + 1:]
                    for m2, c2 in arel[a].items():
                        mm = m_mul(rest, m2)
                        acc[mm] = acc.get(mm, 0) + c * c2
                    break
        todo = []
        for m, c in acc.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = norm_c(v)
            else:
                r.pop(m, None)
        todo = [m for m in acc if m in r and any(e > 1 and a in arel for a, e in m)]
        if len(r) > MAXTERMS or n > 2000:
            raise TooBig()
    return r

def p_pow(p, n):
    r = {(): 1}
    for _ in range(n):
        r = p_mul(r, p)
    return r

def p_key(p):
    return frozenset(p.items())

def p_lead(p):
    return max(p)

# denominators: table of primitive polys
_dk = {}
dtab = []
def dfac(p):
    k = p_key(p)
    i = _dk.get(k)
    if i is None:
        i = len(dtab)
        _dk[k] = i
        dtab.append(p)
    return i

class RF:
    __slots__ = ('n', 'd')
    def __init__(self, n, d=()):
        self.n = n
        self.d = d if n else ()
    def key(self):
        return (p_key(self.n), self.d)

def d_merge(d1, d2):
    """lcm of two factored denominators and the cofactors"""
    if d1 == d2:
        return d1, (), ()
    a = dict(d1)
    b = dict(d2)
    l = dict(a)
    for k, e in b.items():
        if l.get(k, 0) < e:
            l[k] = e
    ca = tuple((k, e - a.get(k, 0)) for k, e in l.items() if e > a.get(k, 0))
    cb = tuple((k, e - b.get(k, 0)) for k, e in l.items() if e > b.get(k, 0))
    return tuple(sorted(l.items())), ca, cb

def p_dmul(p, cof):
    for k, e in cof:
        for _ in range(e):
            p = p_mul(p, dtab[k])
    return p

def rf_add(a, b, s=1):
    if a.d == b.d:
        return rf_simp(RF(p_add(a.n, b.n, s), a.d))
    d, ca, cb = d_merge(a.d, b.d)
    return rf_simp(RF(p_add(p_dmul(a.n, ca), p_dmul(b.n, cb), s), d))

def rf_mul(a, b):
    d = a.d
    if b.d:
        if a.d:
            m = dict(a.d)
            for k, e in b.d:
                m[k] = m.get(k, 0) + e
            d = tuple(sorted(m.items()))
        else:
            d = b.d
    return rf_simp(RF(p_mul(a.n, b.n), d))

def rf_simp(r):
    """cancel denominator factors that divide the numerator"""
    if not r.d or not r.n:
        return r
    n = r.n
    d = dict(r.d)
    ch = False
    for k in list(d):
        f = dtab[k]
        while d.get(k):
            q = p_divexact(n, f)
            if q is None:
                break
            n = q
            ch = True
            d[k] -= 1
            if not d[k]:
                del d[k]
        # n may be a constant multiple of a power of f modulo the relations
        if d.get(k) and len(f) > 1 and len(f) <= 60:
            for j in range(d[k], 0, -1):
                g = f_pow(k, j)
                if g is None or len(g) != len(n):
                    continue
                m0 = next(iter(g))
                if m0 not in n:
                    continue
                c = Fraction(n[m0]) / g[m0]
                if all(m in n and n[m] == c * v for m, v in g.items()):
                    n = {(): norm_c(c)}
                    ch = True
                    d[k] -= j
                    if not d[k]:
                        del d[k]
                    break
    if ch:
        return RF(n, tuple(sorted(d.items())))
    return r

_fpow = {}

def f_pow(k, j):
    key = (k, j)
    if key not in _fpow:
        try:
            _fpow[key] = dtab[k] if j == 1 else p_mul(f_pow(k, j - 1) or dtab[k], dtab[k])
        except TooBig:
            _fpow[key] = None
    return _fpow[key]

def m_div(m, f):
    """monomial quotient or None"""
    d = dict(m)
    for a, e in f:
        x = d.get(a, 0)
        if x < e:
            return None
        if x == e:
            del d[a]
        else:
            d[a] = x - e
    return tuple(sorted(d.items()))

def p_divexact(p, f):
    """p / f if f divides p (without using the relations), else None"""
    if len(f) == 1:
        (fm, fc), = f.items()
        out = {}
        for m, c in p.items():
            q = m_div(m, fm)
            if q is None:
                return None
            out[q] = norm_c(Fraction(c) / fc)
        return out
    if len(f) > len(p) or len(p) > 3000:
        return None
    # ordering: lexicographic on expanded exponent vectors over the atoms of f and p (graded)
    def okey(m):
        return (sum(e for _, e in m), tuple(sorted(((-a, e) for a, e in m), reverse=True)))
    def okey2(m):
        # true monomial order: graded lex with smaller atom index larger
        return (sum(e for _, e in m), tuple((-a, e) for a, e in m))
    lf = max(f, key=okey2)
    cf = f[lf]
    r = dict(p)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 3000:
            return None
        lm = max(r, key=okey2)
        mq = m_div(lm, lf)
        if mq is None:
            return None
        c = norm_c(Fraction(r[lm]) / cf)
        q[mq] = norm_c(q.get(mq, 0) + c)
        for m, cc in f.items():
            mm = m_mul(m, mq)
            v = r.get(mm, 0) - c * cc
            if v:
                r[mm] = norm_c(v)
            else:
                r.pop(mm, None)
        if lm in r:
            return None
    # q must be reduced (no relation leading squares), otherwise the identity p = q f may need reductions
    return q

def rf_inv(b):
    """1/b for non-zero b"""
    n = b.n
    if len(n) == 1:
        (m, c), = n.items()
        num = {(): norm_c(Fraction(1) / c)}
        den = {}
        for a, e in m:
            if a in arel:
                # 1/s^e = s^e / rad^e   (e == 1 after reduction)
                num = p_mul(num, p_pow(p_atom(a), e))
                rad = arel[a]
                g = rf_inv(RF(p_pow(rad, e)))
                num = p_mul(num, g.n)
                for k, x in g.d:
                    den[k] = den.get(k, 0) + x
            else:
                k = dfac(p_atom(a))
                den[k] = den.get(k, 0) + e
        r = RF(num, tuple(sorted(den.items())))
    else:
        if not n:
            raise ZeroDivisionError
        # primitive: divide by leading coefficient, pull out common monomial
        common = None
        for m in n:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {a: min(e, dm[a]) for a, e in common.items() if a in dm}
            if not common:
                break
        if common:
            cm = tuple(sorted(common.items()))
            rest = {m_div(m, cm): c for m, c in n.items()}
            r = rf_mul(rf_inv(RF({cm: 1})), rf_inv(RF(rest)))
        else:
            c = n[p_lead(n)]
            pp = p_scale(n, Fraction(1) / c)
            r = RF({(): norm_c(Fraction(1) / c)}, ((dfac(pp), 1),))
    # multiply by denominator of b
    if b.d:
        r = rf_simp(RF(p_dmul(r.n, b.d), r.d))
    return r

def p_ia(p):
    s = set()
    for m in p:
        for a, _ in m:
            s |= ainfo[a][2]
    return s

class Opaque(Exception):
    pass

KB = [T.iatom('v', ('bound', i), 0, T.INF, 'kb%d' % i) for i in range(6)]
_depth = {}
def sum_depth(n):
    d = _depth.get(n)
    if d is None:
        d = 0
        for x in n.a:
            if isinstance(x, R):
                d = max(d, sum_depth(x))
        if n.op == 'sum':
            d += 1
        _depth[n] = d
    return d

def nf(n, dec=None):
    """normal form RF of real term n; dec: {F: bool} decisions for ite conditions (None: ite atoms stay opaque)"""
    # iterative over DAG depth to avoid recursion limits
    stack = [n]
    memo = dec['memo'] if dec is not None else None
    while stack:
        x = stack[-1]
        if x.nf is not None or (memo is not None and x in memo):
            stack.pop()
            continue
        kids = _kids(x, dec)
        pend = [k for k in kids if not (k.nf is not None or (memo is not None and k in memo))]
        if pend:
            stack.extend(pend)
            continue
        r = _nf1(x, dec, lambda y: y.nf if y.nf is not None else memo[y])
        if x.ite and memo is not None:
            memo[x] = r
        else:
            x.nf = r
        stack.pop()
    return n.nf if n.nf is not None else memo[n]

def _kids(x, dec):
    o = x.op
    if o in ('add', 'sub', 'mul', 'div'):
        return (x.a[0], x.a[1])
    if o in ('neg', 'sqrt'):
        return (x.a[0],)
    if o == 'fn':
        return x.a[1:]
    if o == 'ite' and dec is not None and not dec.get('opaque'):
        f = x.a[0]
        v = dec['get'](f)
        return (x.a[1],) if v else (x.a[2],)
    return ()

def _nf1(x, dec, g):
    o = x.op
    a = x.a
    if o == 'c':
        return RF(p_const(a[0]))
    if o == 'v':
        at = atom(('v', a[0]), x)
        if x in UNIT and at not in arel:
            arel[at] = None
            arel[at] = nf(UNIT[x]).n
        return RF(p_atom(at))
    if o == 'add':
        return rf_add(g(a[0]), g(a[1]))
    if o == 'sub':
        return rf_add(g(a[0]), g(a[1]), -1)
    if o == 'neg':
        r = g(a[0])
        return RF(p_scale(r.n, -1), r.d)
    if o == 'mul':
        return rf_mul(g(a[0]), g(a[1]))
    if o == 'div':
        return rf_mul(g(a[0]), rf_inv(g(a[1])))
    if o == 'toreal':
        return RF(_ip_poly(a[0]))
    if o == 'sel':
        return RF(p_atom(atom(('sel', a[0], a[1]), x, T.all_iatoms(x))))
    if o == 'sqrt':
        return nf_sqrt(g(a[0]), x)
    if o == 'fn':
        return nf_fn(a[0], [g(y) for y in a[1:]], x)
    if o == 'ite':
        if dec is not None and not dec.get('opaque'):
            return g(a[1]) if dec['get'](a[0]) else g(a[2])
        return RF(p_atom(atom(('ite', x), x, T.all_iatoms(x))))
    if o == 'sum':
        return nf_sum(x, dec)
    if o in ('inf', 'ninf', 'nan'):
        raise Opaque(o)
    raise NotImplementedError(o)

def _ip_poly(p):
    r = {}
    for m, c in p.t.items():
        d = {}
        for i in m:
            at = atom(('i', i), None, T.all_iatoms(IP({(i,): 1})))
            d[at] = d.get(at, 0) + 1
        r[tuple(sorted(d.items()))] = c
    return r

def _sqrt_const(c):
    c = Fraction(c)
    if c < 0:
        return None
    p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if p * p == c.numerator and q * q == c.denominator:
        return Fraction(p, q)
    return None

def p_even_pos(p):
    return all(c > 0 and all(e % 2 == 0 or a in apos for a, e in m) for m, c in p.items())

def nf_sqrt(r, x):
    n = r.n
    if r.d:
        # sqrt(N/D) = sqrt(N*D)/D for D syntactically positive; even powers come out directly
        even = tuple((k, e - e % 2) for k, e in r.d if e - e % 2)
        odd = tuple((k, 1) for k, e in r.d if e % 2)
        ok = all(p_even_pos(dtab[k]) or len(dtab[k]) == 1 and False for k, e in r.d if True)
        if ok:
            s = nf_sqrt(RF(p_dmul(n, odd)), x)
            half = {}
            for k, e in even:
                half[k] = half.get(k, 0) + e // 2
            for k, e in odd:
                half[k] = half.get(k, 0) + 1
            return rf_mul(s, RF({(): 1}, tuple(sorted(half.items()))))
        at = atom(('sqrt', r.key()), x, T.all_iatoms(x))
        apos.add(at)
        return RF(p_atom(at))
    if not n:
        return RF({})
    if len(n) == 1:
        (m, c), = n.items()
        sc = _sqrt_const(c)
        if sc is not None and all(e % 2 == 0 for a, e in m):
            out = {(): norm_c(sc)}
            for a, e in m:
                if a in apos:
                    out = p_mul(out, {((a, e // 2),): 1})
                elif (e // 2) % 2 == 0:
                    out = p_mul(out, {((a, e // 2),): 1})
                else:
                    b = atom(('abs', a), None, ainfo[a][2])
                    apos.add(b)
                    if b not in arel:
                        arel[b] = p_reduce({((a, 2),): 1})
                    out = p_mul(out, p_pow(p_atom(b), e // 2))
            return RF(out)
    # content
    c = n[p_lead(n)]
    sc = _sqrt_const(abs(c))
    mult = 1
    if sc is not None and sc != 1:
        n = p_scale(n, Fraction(1) / abs(c))
        mult = norm_c(sc)
    at = atom(('sqrt', p_key(n)), x, frozenset(p_ia(n)))
    apos.add(at)
    if at not in arel:
        arel[at] = n
    return RF(p_scale(p_atom(at), mult))

def nf_fn(name, args, x):
    ia = T.all_iatoms(x)
    if name in ('sin', 'cos'):
        r = args[0]
        if not r.d and len(r.n) <= 6:
            return RF(_trig(name, r.n, ia))
        # one angle: sin(-x) = -sin x, sin^2 = 1 - cos^2
        neg = r.n[p_lead(r.n)] < 0
        if neg:
            r = RF(p_scale(r.n, -1), r.d)
        k = ('q', r.key())
        ca = atom(('cos', k), None, ia)
        sa = atom(('sin', k), None, ia)
        if sa not in arel:
            arel[sa] = {(): 1, ((ca, 2),): -1}
        return RF(p_scale(p_atom(sa), -1) if neg and name == 'sin' else p_atom(sa if name == 'sin' else ca))
    return RF(p_atom(atom(('fn', name, tuple(r.key() for r in args)), x, ia)))

_PIAT = None
def _trig(name, p, ia):
    if not p:
        return {} if name == 'sin' else {(): 1}
    pim = ((atom(('v', 'pi'), T.PI), 1),)
    if pim in p:
        c = Fraction(p[pim])
        if (2 * c).denominator == 1:
            k = int(2 * c) % 4
            rest = {m: v for m, v in p.items() if m != pim}
            s = _trig('sin', rest, ia)
            co = _trig('cos', rest, ia)
            if name == 'sin':
                return [s, co, p_scale(s, -1), p_scale(co, -1)][k]
            return [co, p_scale(s, -1), p_scale(co, -1), s][k]
    if len(p) > 1:
        lm = min(p)
        A = {lm: p[lm]}
        B = {m: v for m, v in p.items() if m != lm}
        sA, cA, sB, cB = _trig('sin', A, ia), _trig('cos', A, ia), _trig('sin', B, ia), _trig('cos', B, ia)
        if name == 'sin':
            return p_add(p_mul(sA, cB), p_mul(cA, sB))
        return p_add(p_mul(cA, cB), p_mul(sA, sB), -1)
    (m, c), = p.items()
    if c < 0:
        r = _trig(name, {m: -c}, ia)
        return p_scale(r, -1) if name == 'sin' else r
    c = Fraction(c)
    if c.denominator == 1 and 1 < c <= 4 and m:
        A = {m: 1}
        B = {m: int(c) - 1}
        sA, cA, sB, cB = _trig('sin', A, ia), _trig('cos', A, ia), _trig('sin', B, ia), _trig('cos', B, ia)
        if name == 'sin':
            return p_add(p_mul(sA, cB), p_mul(cA, sB))
        return p_add(p_mul(cA, cB), p_mul(sA, sB), -1)
    k = p_key(p)
    ia2 = frozenset(p_ia(p))
    ca = atom(('cos', k), None, ia2)
    sa = atom(('sin', k), None, ia2)
    if sa not in arel:
        arel[sa] = {(): 1, ((ca, 2),): -1}
    return p_atom(sa if name == 'sin' else ca)

def nf_sum(x, dec):
    k, up, body = x.a
    d = sum_depth(body)
    kb = KB[d]
    if k is not kb:
        body = rsubst(body, {k.id: T.ip_atom(kb)})
    c0 = up.c0()
    if c0 and not isinstance(T.ip_norm(up), int):
        u = T.isub(up, c0)
        r = nf(T.rsum(kb, u, body))
        if abs(c0) > 4:
            raise Opaque('sum offset')
        if c0 > 0:
            for i in range(c0):
                r = rf_add(r, nf(rsubst(body, {kb.id: T.iadd(u, i)}), dec))
        else:
            for i in range(c0, 0):
                r = rf_add(r, nf(rsubst(body, {kb.id: T.iadd(u, i)}), dec), -1)
        return r
    b = nf(body)
    num = b.n
    dd = tuple((f, e) for f, e in b.d if kb.id in p_ia(dtab[f]))
    di = tuple((f, e) for f, e in b.d if kb.id not in p_ia(dtab[f]))
    out = {}
    uppoly = _ip_poly(up)
    for m, c in num.items():
        dep = tuple((a, e) for a, e in m if kb.id in ainfo[a][2])
        ind = tuple((a, e) for a, e in m if kb.id not in ainfo[a][2])
        if not dep and not dd:
            out = p_add(out, p_mul({ind: c}, uppoly))
        else:
            ia = set(T.all_iatoms(up))
            for a, e in dep:
                ia |= ainfo[a][2]
            for f, e in dd:
                ia |= p_ia(dtab[f])
            ia.discard(kb.id)
            at = atom(('sum', up, dep, dd, d), None, frozenset(ia))
            out = p_add(out, p_mul({ind: c}, p_atom(at)))
    return rf_simp(RF(p_reduce(dict(out)), di))

def collect_ites(n, seen=None, out=None):
    if out is None:
        out = []
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if not x.ite or x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            out.append(x.a[0])
            st.append(x.a[1])
            st.append(x.a[2])
        else:
            for y in x.a:
                if isinstance(y, R):
                    st.append(y)
    return out
