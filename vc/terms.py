"""Hash-consed terms: mathematical integers as canonical polynomials over atoms (IP), reals as a DAG (R), formulas (F).
Doubles are interpreted as exact reals (stated assumption); decimal constants as the shortest rational that rounds to them."""
from fractions import Fraction
import math

# ----------------------------------------------------------------------------- integers
class IAtom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'name', 'z')
    def __repr__(self):
        return self.name

_iat = {}
_iat_list = []
INF = float('inf')

def iatom(kind, args, lo=-INF, hi=INF, name=None):
    key = (kind,) + tuple(args)
    a = _iat.get(key)
    if a is None:
        a = IAtom()
        a.id = len(_iat_list)
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        a.name = name or '%s(%s)' % (kind, ','.join(map(str, args)))
        a.z = None
        _iat[key] = a
        _iat_list.append(a)
    return a

class IP:
    """integer polynomial over atoms, immutable; monomials are sorted tuples of atom ids"""
    __slots__ = ('t', 'h', '_iv')
    def __init__(self, t):
        self.t = t
        self.h = None
        self._iv = None
    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.t.items()))
        return self.h
    def __eq__(self, o):
        return isinstance(o, IP) and self.t == o.t
    def __repr__(self):
        if not self.t:
            return '0'
        s = []
        for m, c in sorted(self.t.items()):
            n = '*'.join(_iat_list[i].name for i in m)
            s.append(('%d*%s' % (c, n) if c != 1 else n) if n else str(c))
        return '(' + ' + '.join(s) + ')'
    def const(self):
        """int value if constant else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None
    def c0(self):
        return self.t.get((), 0)
    def iv(self):
        if self._iv is None:
            lo = hi = 0
            for m, c in self.t.items():
                l = h = c
                if m:
                    l, h = 1, 1
                    for i in m:
                        a = _iat_list[i]
                        ps = (_m(l, a.lo), _m(l, a.hi), _m(h, a.lo), _m(h, a.hi))
                        l, h = min(ps), max(ps)
                    if c >= 0:
                        l, h = _m(l, c), _m(h, c)
                    else:
                        l, h = _m(h, c), _m(l, c)
                lo += l
                hi += h
            self._iv = (lo, hi)
        return self._iv
    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b

def ip_const(c):
    return IP({(): c}) if c else IP({})

def ip_atom(a):
    return IP({(a.id,): 1})

def to_ip(x):
    return x if isinstance(x, IP) else ip_const(x)

def ip_norm(p):
    """IP or int if constant"""
    c = p.const()
    return p if c is None else c

def iadd(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        t = dict(a.t)
        c = t.get((), 0) + b
        if c:
            t[()] = c
        else:
            t.pop((), None)
        return IP(t)
    t = dict(a.t)
    for m, c in b.t.items():
        c2 = t.get(m, 0) + c
        if c2:
            t[m] = c2
        else:
            del t[m]
    return ip_norm(IP(t))

def imul(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a * b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        return IP({m: c * b for m, c in a.t.items()})
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2))
            c = t.get(m, 0) + c1 * c2
            if c:
                t[m] = c
            else:
                t.pop(m, None)
    return ip_norm(IP(t))

def ineg(a):
    return -a if isinstance(a, int) else imul(a, -1)

def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return iadd(a, ineg(b))

def iiv(a):
    return (a, a) if isinstance(a, int) else a.iv()

def idivisible(a, c):
    if isinstance(a, int):
        return a % c == 0
    return all(x % c == 0 for x in a.t.values())

def idivexact(a, c):
    if isinstance(a, int):
        return a // c
    return ip_norm(IP({m: x // c for m, x in a.t.items()}))

def ifloordiv(a, c):
    """floor(a / c) for int c > 0 as IP"""
    if isinstance(a, int):
        return a // c
    # pull out divisible part
    q = {m: x // c for m, x in a.t.items() if m and x % c == 0}
    r = {m: x for m, x in a.t.items() if m and x % c != 0}
    c0 = a.c0()
    q0 = c0 // c
    r0 = c0 - q0 * c
    if q0:
        q[()] = q0
    if r0:
        r[()] = r0
    Q = ip_norm(IP(q))
    R_ = ip_norm(IP(r))
    if isinstance(R_, int):
        return iadd(Q, R_ // c)
    lo, hi = R_.iv()
    if lo >= 0 and hi < c:
        return Q
    flo = lo // c if lo != -INF else -INF
    fhi = hi // c if hi != INF else INF
    return iadd(Q, ip_atom(iatom('div', (R_, c), flo, fhi)))

def imod(a, c):
    return isub(a, imul(ifloordiv(a, c), c))

def isubst(a, env):
    """substitute atoms (by id) with ints/IPs; env: {atom id: value}; recurses into derived atoms"""
    if isinstance(a, int):
        return a
    key = None
    out = 0
    for m, c in a.t.items():
        v = c
        for i in m:
            r = _asubst(i, env)
            v = imul(v, r)
        out = iadd(out, v)
    return out

def _asubst(i, env):
    r = env.get(i)
    if r is not None:
        return r
    a = _iat_list[i]
    k = a.kind
    if k == 'v':
        return ip_atom(a)
    if k == 'div':
        b = isubst(a.args[0], env)
        if b is a.args[0] or b == a.args[0]:
            return ip_atom(a)
        return ifloordiv(b, a.args[1])
    if k == 'sel':
        b = isubst(a.args[1], env)
        if b == a.args[1]:
            return ip_atom(a)
        return a.args[0].at_int(b)
    if k == 'trunc':
        b = rsubst(a.args[0], env)
        if b is a.args[0]:
            return ip_atom(a)
        return ip_atom(iatom('trunc', (b,), a.lo, a.hi))
    if k == 'floor':
        b = rsubst(a.args[0], env)
        if b is a.args[0]:
            return ip_atom(a)
        return ip_atom(iatom('floor', (b,), a.lo, a.hi))
    if k == 'iite':
        f = fsubst(a.args[0], env)
        x = isubst(a.args[1], env)
        y = isubst(a.args[2], env)
        return iite(f, x, y)
    if k == 'isum':
        up = isubst(a.args[1], env)
        e2 = {q: v for q, v in env.items() if q != a.args[0].id}
        body = isubst(a.args[2], e2)
        return isum(a.args[0], up, body)
    if k in ('tdiv', 'trem'):
        b = isubst(a.args[0], env)
        c = isubst(a.args[1], env)
        return itdiv(b, c) if k == 'tdiv' else itrem(b, c)
    raise NotImplementedError('isubst ' + k)

def itdiv(a, b):
    """C-style truncating division, b != 0"""
    if isinstance(a, int) and isinstance(b, int):
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if isinstance(b, int) and b > 0 and iiv(a)[0] >= 0:
        return ifloordiv(a, b)
    if isinstance(b, int) and b != 0 and idivisible(a, b):
        return idivexact(a, b)
    if a == b:
        return 1
    a_, b_ = to_ip(a), to_ip(b)
    la, ha = a_.iv()
    lb, hb = b_.iv()
    lo, hi = -INF, INF
    if la >= 0 and lb > 0:
        lo, hi = 0, ha
    return ip_atom(iatom('tdiv', (a_, b_), lo, hi))

def itrem(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b * itdiv(a, b)
    return isub(a, imul(b, itdiv(a, b)))

def iite(f, a, b):
    if f is TRUE:
        return a
    if f is FALSE:
        return b
    if a == b:
        return a
    la, ha = iiv(a)
    lb, hb = iiv(b)
    return ip_atom(iatom('iite', (f, to_ip(a), to_ip(b)), min(la, lb), max(ha, hb)))

def isum(k, up, body):
    if isinstance(body, int):
        return imul(up, body)
    if k.id not in all_iatoms(body):
        return imul(up, body)
    lo, hi = iiv(body)
    ul, uh = iiv(up)
    return ip_atom(iatom('isum', (k, to_ip(up), body), _m(min(lo, 0), uh), _m(max(hi, 0), uh)))

_ivc = [0]
def ivar(name, lo=-INF, hi=INF):
    _ivc[0] += 1
    return iatom('v', (_ivc[0],), lo, hi, '%s' % name + '#%d' % _ivc[0])

# ----------------------------------------------------------------------------- reals
class R:
    __slots__ = ('op', 'a', 'id', 'z', 'ite', 'nf', 'at')
    def __repr__(self):
        return rstr(self, 6)

_rt = {}
_rl = []

ALIAS = {}      # term -> variable naming it (ghost abstraction introduced by vc_name)
ADEF = {}       # that variable -> term
_raw = [False]

def _mk(op, *a):
    key = (op,) + a
    n = _rt.get(key)
    if n is not None:
        if ALIAS and not _raw[0]:
            return ALIAS.get(n, n)
        return n
    if n is None:
        n = R()
        n.op = op
        n.a = a
        n.id = len(_rl)
        n.z = None
        n.nf = None
        n.at = None
        n.ite = op == 'ite' or any(isinstance(x, R) and x.ite for x in a)
        _rt[key] = n
        _rl.append(n)
    return n

AGROUP = []     # [(unit?, [vars])] in order of naming

def levels():
    """sets of names to expand, from none to all"""
    cur = set()
    out = []
    non = [v for u, vs in AGROUP if not u for v in vs]
    if non:
        cur = cur | set(non)
        out.append(cur)
    for u, vs in reversed(AGROUP):
        if u:
            cur = cur | set(vs)
            out.append(cur)
    return out

def expand(x, memo=None, only=None):
    """replace named terms by their definitions"""
    if not ADEF:
        return x
    old = _raw[0]
    _raw[0] = True
    try:
        return _expand(x, {} if memo is None else memo, only)
    finally:
        _raw[0] = old

def _expand(x, memo, only=None):
    if isinstance(x, IP):
        return x
    st = [x]
    while st:
        y = st[-1]
        if y in memo:
            st.pop()
            continue
        d = ADEF.get(y) if isinstance(y, R) and (only is None or y in only) else None
        kids = [d] if d is not None else [k for k in y.a if isinstance(k, (R, F))]
        if isinstance(y, R) and y.op in ('sum', 'sel') or isinstance(y, F) and y.op in ('b', 'bsel', 'forall'):
            kids = []
        pend = [k for k in kids if k not in memo]
        if pend:
            st.extend(pend)
            continue
        st.pop()
        if d is not None:
            memo[y] = memo[d]
            continue
        if all(memo[k] is k for k in kids):
            memo[y] = y
            continue
        a = [memo[k] if isinstance(k, (R, F)) and k in memo else k for k in y.a]
        o = y.op
        if isinstance(y, R):
            memo[y] = {'add': radd, 'sub': rsub, 'mul': rmul, 'div': rdiv, 'neg': rneg, 'sqrt': rsqrt, 'fn': rfn, 'ite': rite}[o](*a)
        elif o in ('rle', 'rlt', 'req'):
            memo[y] = {'rle': f_rle, 'rlt': f_rlt, 'req': f_req}[o](a[0], ZERO)
        elif o == 'not':
            memo[y] = f_not(a[0])
        elif o == 'and':
            memo[y] = f_and(*a)
        elif o == 'or':
            memo[y] = f_or(*a)
        else:
            memo[y] = y
    return memo[x]

def rstr(n, d=4):
    if n.op == 'c':
        return str(n.a[0])
    if n.op == 'v':
        return n.a[0]
    if n.op in ('inf', 'ninf', 'nan'):
        return n.op
    if d == 0:
        return '..'
    return '%s(%s)' % (n.op, ', '.join(rstr(x, d - 1) if isinstance(x, R) else str(x) for x in n.a))

def rc(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        x = x.numerator
    return _mk('c', x)

ZERO = rc(0)
ONE = rc(1)
TWO = rc(2)
PINF = _mk('inf')
NINF = _mk('ninf')
NAN = _mk('nan')
PI = _mk('v', 'pi')

_small = {}
def rfloat(x):
    """double constant -> real"""
    if x == math.inf:
        return PINF
    if x == -math.inf:
        return NINF
    if x != x:
        return NAN
    r = _small.get(x)
    if r is None:
        r = _rfloat(x)
        _small[x] = r
    return r

def _rfloat(x):
    f = Fraction(x)
    if f.denominator == 1:
        return rc(f.numerator)
    if f.denominator <= 4096:
        return rc(f)
    s = f.limit_denominator(5040)
    if s != 0 and float(s) == x:
        return rc(s)
    # shortest decimal
    d = Fraction(repr(x))
    if d.denominator <= 10**9 and len(repr(x)) <= 12:
        return rc(d)
    if abs(x) < 1e-3 or abs(x) > 1e6:
        return rc(d if float(d) == x else f)
    # rational multiple of pi
    for q in range(1, 61):
        p = round(x * q / math.pi)
        if p and abs(p) <= 64:
            y = p * math.pi / q
            if abs(y - x) <= 2.3e-16 * abs(x) * 1.0:
                return rmul(rc(Fraction(p, q)), PI)
    return rc(f)

_rvc = [0]
def rvar(name):
    _rvc[0] += 1
    return _mk('v', '%s!%d' % (name, _rvc[0]))

def is_c(n):
    return n.op == 'c'

def _special(n):
    return n.op in ('inf', 'ninf', 'nan')

class Undecidable(Exception):
    pass

def radd(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return rc(a.a[0] + b.a[0])
        if a.a[0] == 0:
            return b
    elif b.op == 'c' and b.a[0] == 0:
        return a
    if _special(a) or _special(b):
        if a.op == 'nan' or b.op == 'nan':
            return NAN
        if _special(a) and _special(b):
            return a if a is b else NAN
        return a if _special(a) else b
    if a.op == 'neg' and a.a[0] is b or b.op == 'neg' and b.a[0] is a:
        return ZERO
    if b.op == 'neg':
        return rsub(a, b.a[0])
    if a.op == 'neg':
        return rsub(b, a.a[0])
    if a.id > b.id:
        a, b = b, a
    return _mk('add', a, b)

def rneg(a):
    if a.op == 'c':
        return rc(-a.a[0])
    if a.op == 'neg':
        return a.a[0]
    if a.op == 'sub':
        return _mk('sub', a.a[1], a.a[0])
    if a.op == 'inf':
        return NINF
    if a.op == 'ninf':
        return PINF
    if a.op == 'nan':
        return a
    return _mk('neg', a)

def rsub(a, b):
    if a is b and not _special(a):
        return ZERO
    if b.op == 'c':
        if a.op == 'c':
            return rc(a.a[0] - b.a[0])
        if b.a[0] == 0:
            return a
    elif a.op == 'c' and a.a[0] == 0:
        return rneg(b)
    if _special(a) or _special(b):
        return radd(a, rneg(b))
    if b.op == 'neg':
        return radd(a, b.a[0])
    return _mk('sub', a, b)

def rmul(a, b):
    if a.op == 'c':
        if b.op == 'c':
            return rc(a.a[0] * b.a[0])
        v = a.a[0]
    elif b.op == 'c':
        v = b.a[0]
        a, b = b, a
    else:
        v = None
    if _special(a) or _special(b):
        return _rmul_special(a, b)
    if v is not None:
        if v == 0:
            return ZERO
        if v == 1:
            return b
        if v == -1:
            return rneg(b)
    if a.op == 'neg' and b.op == 'neg':
        return rmul(a.a[0], b.a[0])
    if a.op == 'neg':
        return rneg(rmul(a.a[0], b))
    if b.op == 'neg':
        return rneg(rmul(a, b.a[0]))
    if a.id > b.id:
        a, b = b, a
    return _mk('mul', a, b)

def _rmul_special(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    def sgn(x):
        if x.op == 'inf':
            return 1
        if x.op == 'ninf':
            return -1
        if x.op == 'c':
            return (x.a[0] > 0) - (x.a[0] < 0)
        raise Undecidable('infinity times symbolic')
    s = sgn(a) * sgn(b)
    return NAN if s == 0 else (PINF if s > 0 else NINF)

def rdiv(a, b):
    """b known nonzero"""
    if _special(a) or _special(b):
        if a.op == 'nan' or b.op == 'nan':
            return NAN
        if not _special(a):
            return ZERO
        raise Undecidable('infinity in division')
    if b.op == 'c' and b.a[0] != 0:
        if a.op == 'c':
            return rc(Fraction(a.a[0]) / b.a[0])
        if b.a[0] == 1:
            return a
        return rmul(rc(Fraction(1) / b.a[0]), a)
    if a.op == 'c' and a.a[0] == 0:
        return ZERO
    if a is b:
        return ONE
    return _mk('div', a, b)

def rsqrt(a):
    if a.op == 'c':
        v = Fraction(a.a[0])
        if v >= 0:
            p, q = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if p * p == v.numerator and q * q == v.denominator:
                return rc(Fraction(p, q))
    if a.op == 'inf':
        return a
    return _mk('sqrt', a)

def rfn(name, *args):
    if name in ('sin', 'cos') and args[0].op == 'c' and args[0].a[0] == 0:
        return ZERO if name == 'sin' else ONE
    if name in ('acos',) and args[0].op == 'c' and args[0].a[0] == 1:
        return ZERO
    return _mk('fn', name, *args)

def rite(f, a, b):
    if f is TRUE:
        return a
    if f is FALSE:
        return b
    if a is b:
        return a
    if f.op == 'not':
        return rite(f.a[0], b, a)
    return _mk('ite', f, a, b)

def rabs(a):
    if a.op == 'c':
        return rc(abs(a.a[0]))
    if a.op in ('inf', 'ninf'):
        return PINF
    if a.op == 'sqrt':
        return a
    return rite(f_rle(ZERO, a), a, rneg(a))

def rint(p):
    """real of an integer"""
    if isinstance(p, int):
        return rc(p)
    return _mk('toreal', p)

def rsum(k, up, body):
    """sum_{k=0}^{up-1} body"""
    if up == 0:
        return ZERO
    if k.id not in all_iatoms(body):
        return rmul(rint(up), body)
    return _mk('sum', k, to_ip(up), body)

def rsel(base, off):
    return _mk('sel', base, to_ip(off))

_ai = {}
def all_iatoms(n):
    """ids of all integer atoms occurring in an R / IP / F (deep)"""
    if isinstance(n, int):
        return frozenset()
    if isinstance(n, IP):
        s = set()
        for i in n.atoms():
            s.add(i)
            a = _iat_list[i]
            if a.kind != 'v':
                for x in a.args:
                    if isinstance(x, (IP, R, F)):
                        s |= all_iatoms(x)
        return frozenset(s)
    if isinstance(n, (R, F)):
        if n.at is None:
            s = set()
            for x in n.a:
                if isinstance(x, (IP, R, F)):
                    s |= all_iatoms(x)
            n.at = frozenset(s)
        return n.at
    return frozenset()

def rsubst(n, env, memo=None):
    ks = frozenset(env)
    if memo is None:
        memo = {}
    return _rs(n, env, ks, memo)

def _rs(n, env, ks, memo):
    if not (all_iatoms(n) & ks):
        return n
    r = memo.get(n)
    if r is not None:
        return r
    o = n.op
    a = n.a
    if o == 'add':
        r = radd(_rs(a[0], env, ks, memo), _rs(a[1], env, ks, memo))
    elif o == 'sub':
        r = rsub(_rs(a[0], env, ks, memo), _rs(a[1], env, ks, memo))
    elif o == 'mul':
        r = rmul(_rs(a[0], env, ks, memo), _rs(a[1], env, ks, memo))
    elif o == 'div':
        r = rdiv(_rs(a[0], env, ks, memo), _rs(a[1], env, ks, memo))
    elif o == 'neg':
        r = rneg(_rs(a[0], env, ks, memo))
    elif o == 'sqrt':
        r = rsqrt(_rs(a[0], env, ks, memo))
    elif o == 'fn':
        r = rfn(a[0], *[_rs(x, env, ks, memo) for x in a[1:]])
    elif o == 'ite':
        r = rite(fsubst(a[0], env), _rs(a[1], env, ks, memo), _rs(a[2], env, ks, memo))
    elif o == 'toreal':
        r = rint(isubst(a[0], env))
    elif o == 'sel':
        r = a[0].at_real(isubst(a[1], env))
    elif o == 'sum':
        e2 = {q: v for q, v in env.items() if q != a[0].id}
        r = rsum(a[0], isubst(a[1], env), rsubst(a[2], e2) if e2 else a[2])
    else:
        raise NotImplementedError('rsubst ' + o)
    memo[n] = r
    return r

# ----------------------------------------------------------------------------- formulas
class F:
    __slots__ = ('op', 'a', 'id', 'z', 'at')
    def __repr__(self):
        if self.op in ('rle', 'rlt', 'req'):
            return '[%s %s 0]' % (rstr(self.a[0], 5), {'rle': '<=', 'rlt': '<', 'req': '='}[self.op])
        if self.op in ('ile', 'ieq'):
            return '[%s %s 0]' % (self.a[0], {'ile': '<=', 'ieq': '='}[self.op])
        return '%s%s' % (self.op, self.a if self.a else '')

_ft = {}
_fl = []
def _fm(op, *a):
    key = (op,) + a
    n = _ft.get(key)
    if n is None:
        n = F()
        n.op = op
        n.a = a
        n.id = len(_fl)
        n.z = None
        n.at = None
        _ft[key] = n
        _fl.append(n)
    return n

TRUE = _fm('T')
FALSE = _fm('F')

def f_bool(b):
    return TRUE if b else FALSE

def f_bvar(name):
    _rvc[0] += 1
    return _fm('b', '%s!%d' % (name, _rvc[0]))

def f_not(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == 'not':
        return f.a[0]
    if f.op == 'rle':
        return _fm('rlt', rneg(f.a[0]))
    if f.op == 'rlt':
        return _fm('rle', rneg(f.a[0]))
    if f.op == 'ile':   # not (p<=0)  <=>  1-p <= 0
        return f_ile0(isub(1, f.a[0]))
    return _fm('not', f)

def f_and(*fs):
    out = []
    for f in fs:
        if f is FALSE:
            return FALSE
        if f is TRUE:
            continue
        if f.op == 'and':
            out.extend(f.a)
        else:
            out.append(f)
    u = sorted(set(out), key=lambda x: x.id)
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    us = set(u)
    for f in u:
        if f_not(f) in us:
            return FALSE
    return _fm('and', *u)

def f_or(*fs):
    out = []
    for f in fs:
        if f is TRUE:
            return TRUE
        if f is FALSE:
            continue
        if f.op == 'or':
            out.extend(f.a)
        else:
            out.append(f)
    u = sorted(set(out), key=lambda x: x.id)
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    us = set(u)
    for f in u:
        if f_not(f) in us:
            return TRUE
    return _fm('or', *u)

def f_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return f_or(f_and(c, a), f_and(f_not(c), b))

def f_xor(a, b):
    return f_ite(a, f_not(b), b)

def f_implies(a, b):
    return f_or(f_not(a), b)

def _gcd_norm(p, eq):
    g = 0
    for m, c in p.t.items():
        if m:
            g = math.gcd(g, c)
    if g > 1:
        c0 = p.c0()
        if eq:
            if c0 % g:
                return None
            return idivexact(p, g)
        # sum + c0 <= 0  <=>  sum/g <= floor(-c0/g)
        t = {m: c // g for m, c in p.t.items() if m}
        k = -((-c0) // g)
        if k:
            t[()] = k
        return IP(t)
    return p

def f_ile0(p):
    if isinstance(p, int):
        return f_bool(p <= 0)
    lo, hi = p.iv()
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    return _fm('ile', _gcd_norm(p, False))

def f_ieq0(p):
    if isinstance(p, int):
        return f_bool(p == 0)
    lo, hi = p.iv()
    if lo > 0 or hi < 0:
        return FALSE
    p = _gcd_norm(p, True)
    if p is None:
        return FALSE
    # sign-normalize
    ks = sorted(m for m in p.t if m)
    if p.t[ks[0]] < 0:
        p = imul(p, -1)
    return _fm('ieq', p)

def f_ile(a, b):
    return f_ile0(isub(a, b))
def f_ilt(a, b):
    return f_ile0(iadd(isub(a, b), 1))
def f_ieq(a, b):
    return f_ieq0(isub(a, b))

def _rcmp_special(a, b, op):
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    def val(x):
        return {'inf': 2, 'ninf': -2}.get(x.op, 0)
    va, vb = val(a), val(b)
    return f_bool(va < vb if op == 'rlt' else (va <= vb if op == 'rle' else va == vb))

def _lift(fn, a, b):
    """push comparisons through ite with special/constant arms"""
    if a.op == 'ite' and (_special(a.a[1]) or _special(a.a[2])):
        return f_ite(a.a[0], fn(a.a[1], b), fn(a.a[2], b))
    if b.op == 'ite' and (_special(b.a[1]) or _special(b.a[2])):
        return f_ite(b.a[0], fn(a, b.a[1]), fn(a, b.a[2]))
    return None

def f_rle(a, b):
    if _special(a) or _special(b):
        return _rcmp_special(a, b, 'rle')
    l = _lift(f_rle, a, b)
    if l is not None:
        return l
    d = rsub(a, b)
    if d.op == 'c':
        return f_bool(d.a[0] <= 0)
    return _fm('rle', d)

def f_rlt(a, b):
    if _special(a) or _special(b):
        return _rcmp_special(a, b, 'rlt')
    l = _lift(f_rlt, a, b)
    if l is not None:
        return l
    d = rsub(a, b)
    if d.op == 'c':
        return f_bool(d.a[0] < 0)
    return _fm('rlt', d)

def f_req(a, b):
    if _special(a) or _special(b):
        return _rcmp_special(a, b, 'req')
    l = _lift(f_req, a, b)
    if l is not None:
        return l
    if a.id > b.id:
        a, b = b, a
    d = rsub(a, b)
    if d.op == 'c':
        return f_bool(d.a[0] == 0)
    return _fm('req', d)

def f_forall(k, up, body):
    """for all 0 <= k < up: body"""
    if body is TRUE or up == 0:
        return TRUE
    if k.id not in all_iatoms(body):
        return f_or(f_ile(up, 0), body)
    return _fm('forall', k, to_ip(up), body)

def fsubst(f, env):
    if not (all_iatoms(f) & set(env)):
        return f
    o = f.op
    if o == 'not':
        return f_not(fsubst(f.a[0], env))
    if o == 'and':
        return f_and(*[fsubst(x, env) for x in f.a])
    if o == 'or':
        return f_or(*[fsubst(x, env) for x in f.a])
    if o == 'ile':
        return f_ile0(isubst(f.a[0], env))
    if o == 'ieq':
        return f_ieq0(isubst(f.a[0], env))
    if o == 'rle':
        return f_rle(rsubst(f.a[0], env), ZERO)
    if o == 'rlt':
        return f_rlt(rsubst(f.a[0], env), ZERO)
    if o == 'req':
        return f_req(rsubst(f.a[0], env), ZERO)
    if o == 'bsel':
        return f.a[0].at_bool(isubst(f.a[1], env))
    if o == 'forall':
        e2 = {q: v for q, v in env.items() if q != f.a[0].id}
        return f_forall(f.a[0], isubst(f.a[1], env), fsubst(f.a[2], e2) if e2 else f.a[2])
    raise NotImplementedError('fsubst ' + o)

def f_bsel(base, off):
    return _fm('bsel', base, to_ip(off))

class Base:
    """uninterpreted initial contents of an input array"""
    _n = 0
    def __init__(self, name, kind, esize, lo=-INF, hi=INF):
        Base._n += 1
        self.name = '%s~%d' % (name, Base._n)
        self.kind = kind          # 'real' | 'int' | 'bool'
        self.esize = esize
        self.lo, self.hi = lo, hi
        self.rel = None           # optional: function(index atom)->facts
    def __repr__(self):
        return self.name
    def at_real(self, off):
        return rsel(self, off)
    def at_int(self, off):
        return ip_atom(iatom('sel', (self, to_ip(off)), self.lo, self.hi))
    def at_bool(self, off):
        return f_bsel(self, off)
