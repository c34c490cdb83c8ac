"""Contracts assumed on the environment: LLVM intrinsics, libc/libm, allocation, ghost streams, and the vc_* contract vocabulary."""
import re
from fractions import Fraction
from . import terms as T
from . import nf as N
from . import prove as P
from .ir import UNDEF, Fn
from .terms import (R, IP, F, TRUE, FALSE, f_not, f_and, f_or, f_bool, iadd, isub, imul, iiv, f_ile, f_ilt, f_ieq, f_rle, f_rlt,
                    f_req, radd, rsub, rmul, rneg, rite, rc, rfloat, ZERO, ONE)
from .symex import Ptr, NULL, Unsupported, PathEnd, Branch, mask, sgn, Bits, bits_of, mk_bits, f_bit, boolish
from . import loops as LP

IGNORE = re.compile(r'^(llvm\.(lifetime|dbg|experimental\.noalias|invariant|assume|donothing|prefetch|stackrestore)|__cxa_guard_release|__cxa_guard_abort|__cxa_atexit|atexit|_ZNSt8ios_base4InitC|_ZNSt8ios_base4InitD|__cxa_end_catch|__cxa_free_exception)')
MEMKILL = re.compile(r'^(_ZSt20__throw_length_errorPKc|_ZSt17__throw_bad_allocv|_ZSt28__throw_bad_array_new_lengthv)')
THROW = re.compile(r'^(__cxa_throw|_ZSt\d+__throw_|__cxa_rethrow|_ZSt9terminatev|__clang_call_terminate)')
OSTREAM = re.compile(r'^(_ZNSo(?!5write|3put|C|D)|_ZStls|_ZSt16__ostream_insert|_ZSt4endl|_ZSt5flush|_ZNSt9basic_iosIcSt11char_traitsIcEE5clear|_ZNKSt5ctypeIcE|_ZSt4setw|_ZNSolsE)')

class Models:
    ENTER = object()
    CONTROL = object()

    def __init__(self, eng):
        self.e = eng
        self.cache = {}
        self.loops = LP.Loops(eng, self)
        self.used = {}
        self.overrides = {}
        self.floor_args = {}

    def lookup(self, fn):
        m = self.cache.get(fn)
        if m is None:
            m = self._find(fn)
            self.cache[fn] = m if m is not None else 0
        return m if m != 0 else None

    def _find(self, fn):
        n = fn.name
        if n in self.overrides:
            return self.overrides[n]
        h = getattr(self, 'x_' + n.replace('.', '_'), None)
        if h is not None:
            return h
        if n.startswith('llvm.'):
            base = '_'.join(n.split('.')[1:])
            parts = n.split('.')
            for k in range(len(parts), 1, -1):
                h = getattr(self, 'll_' + '_'.join(parts[1:k]), None)
                if h is not None:
                    return h
        if IGNORE.match(n):
            return lambda st, a, i: None
        if not fn.decl:
            return None
        if MEMKILL.match(n):
            return self.memkill
        if THROW.match(n):
            return self.throw
        if OSTREAM.match(n):
            self.used['text output streams: contents ignored'] = 1
            return self.os_ignore
        return None

    def extern_global(self, st, o, g):
        o.size = max(o.size, 4096)
        if g.name.startswith('_ZTV'):
            return
        if g.name in ('_ZSt4cerr', '_ZSt4cout', '_ZSt4clog'):
            self.fake_stream(st, o)
            return

    # ------------------------------------------------------------------ path ends
    def memkill(self, st, a, i):
        self.used['memory exhaustion / size overflow of containers: out of scope'] = 1
        raise PathEnd('allocation failure path')
    def throw(self, st, a, i):
        if not st.flags.get('throw_ok'):
            self.e.oblige(st, FALSE, 'exception thrown', 'safety')
        raise PathEnd('exception')
    def x_exit(self, st, a, i):
        if not st.flags.get('exit_ok'):
            self.e.oblige(st, FALSE, 'program exits with an error', 'safety')
        self.e.covers['exit'] = self.e.covers.get('exit', 0) + 1
        raise PathEnd('exit')
    def x_abort(self, st, a, i):
        self.e.oblige(st, FALSE, 'abort called', 'safety')
        raise PathEnd('abort')
    def x___assert_fail(self, st, a, i):
        self.e.oblige(st, FALSE, 'assertion in code fails', 'safety')
        raise PathEnd('assert')
    def x___cxa_allocate_exception(self, st, a, i):
        return Ptr(self.e.new_obj(st, 4096, 'heap', 'exception').id, 0)
    def x___cxa_guard_acquire(self, st, a, i):
        v = self.e.load(st, a[0], I8)
        if v == 0:
            self.e.store(st, a[0], 1, I8)
            return 1
        return 0
    def os_ignore(self, st, a, i):
        return a[0] if a else None
    def x___cxa_pure_virtual(self, st, a, i):
        self.e.oblige(st, FALSE, 'pure virtual call', 'safety')
        raise PathEnd('pure virtual')

    # ------------------------------------------------------------------ memory
    def _alloc(self, st, n, name):
        if not isinstance(n, int):
            n = self.e.usg(st, n, 64)
        o = self.e.new_obj(st, n, 'heap', name)
        return Ptr(o.id, 0)
    def x_malloc(self, st, a, i):
        return self._alloc(st, a[0], 'malloc')
    def x__Znwm(self, st, a, i):
        return self._alloc(st, a[0], 'new')
    def x__Znam(self, st, a, i):
        return self._alloc(st, a[0], 'new[]')
    def x__ZnwmSt11align_val_t(self, st, a, i):
        return self._alloc(st, a[0], 'new')
    def x_calloc(self, st, a, i):
        n = imul(a[0], a[1])
        p = self._alloc(st, n, 'calloc')
        self.e.memset(st, p, 0, n)
        return p
    def x_realloc(self, st, a, i):
        p, n = a
        if p.obj == 0:
            return self._alloc(st, n, 'realloc')
        o = self.e.getobj(st, p.obj)
        old = o.size
        if isinstance(old, int) and isinstance(n, int):
            m = min(old, n)
        else:
            m = n if self.e.decide(st, f_ile(n, old)) else old
        q = self._alloc(st, n, 'realloc')
        self.e.memcpy(st, q, p, m)
        self._free(st, p)
        return q
    def _free(self, st, p):
        if p is UNDEF:
            raise Unsupported('free of undefined pointer')
        if p.obj == 0:
            return
        o = self.e.getobj(st, p.obj)
        if o.kind != 'heap' or p.off != 0 or not o.alive:
            self.e.oblige(st, FALSE, 'invalid or double free', 'safety')
            raise PathEnd('bad free')
        o = self.e.wobj(st, p.obj)
        o.alive = False
        o.layers = [{}]
    def x_free(self, st, a, i):
        self._free(st, a[0])
    x__ZdlPv = x__ZdaPv = x__ZdlPvm = x__ZdaPvm = x__ZdlPvSt11align_val_t = x__ZdlPvmSt11align_val_t = x_free
    def ll_memcpy(self, st, a, i):
        n = a[2] if isinstance(a[2], int) else self.e.usg(st, a[2], 64)
        self.e.memcpy(st, a[0], a[1], n)
    ll_memmove = ll_memcpy
    def x_memcpy(self, st, a, i):
        self.ll_memcpy(st, a, i)
        return a[0]
    x_memmove = x_memcpy
    def ll_memset(self, st, a, i):
        n = a[2] if isinstance(a[2], int) else self.e.usg(st, a[2], 64)
        self.e.memset(st, a[0], a[1], n)
    def x_memset(self, st, a, i):
        self.ll_memset(st, a, i)
        return a[0]
    def _byte(self, st, p, k):
        return self.e.load(st, Ptr(p.obj, iadd(p.off, k)), I8)
    def x_memcmp(self, st, a, i):
        n = a[2]
        if not isinstance(n, int):
            n = self.e.usg(st, n, 64)
            if not isinstance(n, int):
                raise Unsupported('memcmp of symbolic length')
        for k in range(n):
            x, y = self._byte(st, a[0], k), self._byte(st, a[1], k)
            if x is UNDEF or y is UNDEF:
                raise Unsupported('memcmp of undefined bytes')
            if isinstance(x, int) and isinstance(y, int):
                if x != y:
                    return 1 if x > y else mask(32)
                continue
            if not self.e.decide(st, f_ieq(self.e.usg(st, x, 8), self.e.usg(st, y, 8))):
                return 1 if self.e.decide(st, f_ilt(self.e.usg(st, y, 8), self.e.usg(st, x, 8))) else mask(32)
        return 0
    x_bcmp = x_memcmp
    def x_strcmp(self, st, a, i):
        k = 0
        while True:
            x, y = self._byte(st, a[0], k), self._byte(st, a[1], k)
            if not (isinstance(x, int) and isinstance(y, int)):
                raise Unsupported('strcmp of symbolic bytes')
            if x != y:
                return 1 if x > y else mask(32)
            if x == 0:
                return 0
            k += 1
    def x_strlen(self, st, a, i):
        p = a[0]
        k = 0
        while True:
            b = self._byte(st, p, k)
            if isinstance(b, int):
                if b == 0:
                    return k
            elif self.e.decide(st, f_ieq(self.e.usg(st, b, 8), 0)):
                return k
            k += 1
    def x_memchr(self, st, a, i):
        n = a[2]
        c = a[1]
        if isinstance(c, int):
            c &= 255
            cs = [c]
        else:
            c = self.e.ssg(st, c, 32)
            lo, hi = iiv(c)
            if lo < -128 or hi > 255:
                raise Unsupported('memchr character range')
            cs = [c] + ([iadd(c, 256)] if lo < 0 else [])
        if not isinstance(n, int):
            raise Unsupported('memchr of symbolic length')
        for k in range(n):
            b = self.e.usg(st, self._byte(st, a[0], k), 8)
            if self.e.decide(st, f_or(*[f_ieq(b, x) for x in cs])):
                return Ptr(a[0].obj, iadd(a[0].off, k))
        return NULL
    def x_isspace(self, st, a, i):
        v = self.e.ssg(st, a[0], 32)
        if isinstance(v, int):
            if not -1 <= v <= 255:
                self.e.oblige(st, FALSE, 'isspace argument in range', 'safety')
            return 1 if v in (32, 9, 10, 11, 12, 13) else 0
        self.e.oblige(st, f_and(f_ile(-1, v), f_ile(v, 255)), 'isspace argument representable as unsigned char', 'safety')
        f = f_or(f_ieq(v, 32), f_and(f_ile(9, v), f_ile(v, 13)))
        return T.iite(f, 1, 0)

    # ------------------------------------------------------------------ int intrinsics
    def ll_umul_with_overflow(self, st, a, i):
        w = i.ty.els[0].w
        x, y = self.e.usg(st, a[0], w), self.e.usg(st, a[1], w)
        r = imul(x, y)
        if isinstance(r, int):
            return (r & mask(w), 1 if r > mask(w) else 0)
        return (r, f_bit(f_ilt(mask(w), r)))
    def ll_uadd_with_overflow(self, st, a, i):
        w = i.ty.els[0].w
        r = iadd(self.e.usg(st, a[0], w), self.e.usg(st, a[1], w))
        if isinstance(r, int):
            return (r & mask(w), 1 if r > mask(w) else 0)
        return (r, f_bit(f_ilt(mask(w), r)))
    def ll_usub_with_overflow(self, st, a, i):
        w = i.ty.els[0].w
        r = isub(self.e.usg(st, a[0], w), self.e.usg(st, a[1], w))
        if isinstance(r, int):
            return (r & mask(w), 1 if r < 0 else 0)
        return (r, f_bit(f_ilt(r, 0)))
    def ll_usub_sat(self, st, a, i):
        w = i.ty.w
        x, y = self.e.usg(st, a[0], w), self.e.usg(st, a[1], w)
        d = isub(x, y)
        if self.e.decide(st, f_ile(0, d)):
            return d
        return 0
    def _mm(self, st, a, i, signed, mx):
        w = i.ty.w
        c = self.e.ssg if signed else self.e.usg
        x, y = c(st, a[0], w), c(st, a[1], w)
        if isinstance(x, int) and isinstance(y, int):
            return (max(x, y) if mx else min(x, y)) & mask(w)
        f = f_ile(y, x) if mx else f_ile(x, y)
        if f is TRUE or self.e.must(st, f):
            return self.e.norm(x, w)
        if self.e.must(st, f_not(f)):
            return self.e.norm(y, w)
        return T.iite(f, x, y)
    def ll_smax(self, st, a, i):
        return self._mm(st, a, i, True, True)
    def ll_smin(self, st, a, i):
        return self._mm(st, a, i, True, False)
    def ll_umax(self, st, a, i):
        return self._mm(st, a, i, False, True)
    def ll_umin(self, st, a, i):
        return self._mm(st, a, i, False, False)
    def ll_abs(self, st, a, i):
        w = i.ty.w
        x = self.e.ssg(st, a[0], w)
        if isinstance(x, int):
            return abs(x) & mask(w)
        lo, hi = iiv(x)
        if lo >= 0:
            return x
        return x if self.e.decide(st, f_ile(0, x)) else T.ineg(x)
    def ll_expect(self, st, a, i):
        return a[0]
    def ll_objectsize(self, st, a, i):
        return mask(64)
    def ll_is_constant(self, st, a, i):
        return 0
    def ll_cttz(self, st, a, i):
        v = a[0]
        w = i.ty.w
        if isinstance(v, int):
            return w if v == 0 else (v & -v).bit_length() - 1
        raise Unsupported('cttz')
    def ll_ctlz(self, st, a, i):
        v = a[0]
        if isinstance(v, int):
            return i.ty.w - v.bit_length()
        raise Unsupported('ctlz')
    def ll_ctpop(self, st, a, i):
        if isinstance(a[0], int):
            return bin(a[0]).count('1')
        raise Unsupported('ctpop')
    def ll_stacksave(self, st, a, i):
        return NULL
    def ll_trap(self, st, a, i):
        self.e.oblige(st, FALSE, 'trap', 'safety')
        raise PathEnd('trap')
    def ll_ucmp(self, st, a, i):
        raise Unsupported('ucmp')
    def ll_vector_reduce_or(self, st, a, i):
        r = a[0][0]
        for x in a[0][1:]:
            r = self.e.i_or(st, r, x, i.ty.w)
        return r
    def ll_eh_typeid_for(self, st, a, i):
        return 0
    def ll_fshl(self, st, a, i):
        x, y, s = a
        w = i.ty.w
        if all(isinstance(v, int) for v in (x, y, s)):
            s %= w
            return ((x << s) | (y >> (w - s))) & mask(w) if s else x
        if isinstance(s, int):
            s %= w
            xa, xb = bits_of(x, w), bits_of(y, w)
            if xa is not None and xb is not None:
                return mk_bits((xb[w - s:] + xa)[:w]) if s else x
        raise Unsupported('fshl')

    # ------------------------------------------------------------------ reals
    def _v(self, x, fn):
        if isinstance(x, tuple):
            return tuple(fn(y) for y in x)
        if x is UNDEF:
            return UNDEF
        return fn(x)
    def ll_fabs(self, st, a, i):
        return self._v(a[0], T.rabs)
    x_fabs = ll_fabs
    def ll_sqrt(self, st, a, i):
        return self._v(a[0], lambda x: self._sqrt(st, x))
    x_sqrt = ll_sqrt
    def _sqrt(self, st, x):
        if x.op == 'c' and x.a[0] >= 0:
            return T.rsqrt(x)
        f = f_rle(ZERO, x)
        if f is not TRUE and f not in st.pcs and not self._nonneg(x):
            self.e.oblige(st, f, 'square root of non-negative', 'safety')
        r = T.rsqrt(x)
        return r
    def _nonneg(self, x):
        if x.op == 'mul' and x.a[0] is x.a[1]:
            return True
        if x.op == 'add':
            return self._nonneg(x.a[0]) and self._nonneg(x.a[1])
        if x.op == 'c':
            return x.a[0] >= 0
        if x.op == 'sqrt':
            return True
        return False
    def ll_fmuladd(self, st, a, i):
        if isinstance(a[0], tuple):
            return tuple(radd(rmul(x, y), z) for x, y, z in zip(*a))
        if any(x is UNDEF for x in a):
            return UNDEF
        return radd(rmul(a[0], a[1]), a[2])
    ll_fma = ll_fmuladd
    def _minmax(self, st, x, y, mx):
        if x is y:
            return x
        f = f_rle(y, x) if mx else f_rle(x, y)
        if f is TRUE:
            return x
        if f is FALSE:
            return y
        return rite(f, x, y)
    def ll_maxnum(self, st, a, i):
        return self._minmax(st, a[0], a[1], True)
    def ll_minnum(self, st, a, i):
        return self._minmax(st, a[0], a[1], False)
    x_fmax = ll_maxnum
    x_fmin = ll_minnum
    ll_maximum, ll_minimum = ll_maxnum, ll_minnum
    def ll_copysign(self, st, a, i):
        m = T.rabs(a[0])
        f = f_rlt(a[1], ZERO)
        self.used['copysign: negative zero treated as positive'] = 1
        return rite(f, rneg(m), m)
    x_copysign = ll_copysign
    def _floor(self, st, x):
        if x.op == 'c':
            from math import floor
            return rc(floor(x.a[0]))
        if x.op == 'toreal':
            return x
        return self.int_floor(st, x)
    def int_floor(self, st, x):
        """floor of x: integer summands are split off and the rest is identified up to its normal form"""
        k = 0
        try:
            r = N.nf(x)
            n = r.n
            den = {(): 1}
            for f, e in r.d:
                for _ in range(e):
                    den = N.p_mul(den, N.dtab[f])
            ats = sorted(set(a for m in n for a, e in m if N.ainfo[a][0][0] == 'i'))
            for at in ats:
                co = {}
                for m, c in n.items():
                    if (at, 1) in m:
                        co[tuple(z for z in m if z[0] != at)] = c
                if not co or len(co) != len(den):
                    continue
                m0 = next(iter(den))
                if m0 not in co:
                    continue
                q = Fraction(co[m0]) / den[m0]
                if q.denominator != 1 or any(m not in co or co[m] != q * c for m, c in den.items()):
                    continue
                ka = T.imul(int(q), IP({(N.ainfo[at][0][1],): 1}))
                k = T.iadd(k, ka)
                x = T.rsub(x, T.rint(ka))
            r = N.nf(x)
            if not r.n:
                return T.rint(k)
            if not r.d and list(r.n) == [()]:
                return T.rint(T.iadd(k, int(Fraction(r.n[()]) // 1)))
            x = self.floor_args.setdefault(r.key(), x)
            if not r.d and all(sum(e for _, e in m) <= 1 for m in r.n) and P.implied(st.pc, f_and(f_rle(ZERO, x), f_rlt(x, ONE)), self.e.dtimeout):
                return T.rint(k)
        except (N.Opaque, N.TooBig, NotImplementedError):
            pass
        lo, hi = -T.INF, T.INF
        if not self.e.opts.get('fpto_safety', True):
            lo, hi = -(1 << 31) + 1, (1 << 31) - 1
            st.assume(f_and(f_rlt(rc(lo - 1), x), f_rlt(x, rc(hi))))
            self.e.assumed['float to integer conversions are in range'] = 1
        r = T.iadd(k, T.ip_atom(T.iatom('floor', (x,), lo, hi)))
        if not isinstance(k, int) and lo != -T.INF:
            st.assume(f_ile(lo - 1, r))
            st.assume(f_ilt(r, hi + 1))
        return T.rint(r)
    def ll_floor(self, st, a, i):
        return self._v(a[0], lambda x: self._floor(st, x))
    x_floor = ll_floor
    def ll_ceil(self, st, a, i):
        return self._v(a[0], lambda x: rneg(self._floor(st, rneg(x))))
    x_ceil = ll_ceil
    def fmod(self, st, a, b):
        # C fmod: a - b*trunc(a/b)
        q = self.e.fdiv(st, a, b)
        if q.op == 'c':
            t = T.rint(int(q.a[0]))
        else:
            t = T.rint(T.ip_atom(T.iatom('trunc', (q,))))
        return rsub(a, rmul(b, t))
    def x_fmod(self, st, a, i):
        return self.fmod(st, a[0], a[1])
    def _fn(name):
        def h(self, st, a, i):
            if any(x is UNDEF for x in a):
                return UNDEF
            return T.rfn(name, *a)
        return h
    x_sin = ll_sin = _fn('sin')
    x_cos = ll_cos = _fn('cos')
    x_tan = _fn('tan')
    x_acos = _fn('acos')
    x_asin = _fn('asin')
    x_atan = _fn('atan')
    x_atan2 = _fn('atan2')
    x_exp = ll_exp = _fn('exp')
    x_log = ll_log = _fn('log')
    def x_sincos(self, st, a, i):
        s, c = T.rfn('sin', a[0]), T.rfn('cos', a[0])
        self.e.write(st, a[1], 8, s)
        self.e.write(st, a[2], 8, c)
    def x_pow(self, st, a, i):
        b, e = a
        if b is UNDEF or e is UNDEF:
            return UNDEF
        if e.op == 'c':
            v = e.a[0]
            if isinstance(v, int) and 0 <= v <= 8:
                r = ONE
                for _ in range(v):
                    r = rmul(r, b)
                return r
            if isinstance(v, int) and v < 0:
                r = ONE
                for _ in range(-v):
                    r = rmul(r, b)
                return self.e.fdiv(st, ONE, r)
            from fractions import Fraction
            if v == Fraction(1, 2):
                return self._sqrt(st, b)
            if v == Fraction(3, 2):
                return rmul(b, self._sqrt(st, b))
            if v == Fraction(5, 2):
                return rmul(rmul(b, b), self._sqrt(st, b))
        return T.rfn('pow', b, e)
    ll_pow = x_pow
    def ll_powi(self, st, a, i):
        if isinstance(a[1], int):
            return self.x_pow(st, [a[0], rc(sgn(a[1], 32))], i)
        raise Unsupported('powi')
    def ll_is_fpclass(self, st, a, i):
        # test mask: 3 = nan, 516 = inf
        x, m = a
        if x.op == 'nan':
            return 1 if m & 3 else 0
        if x.op == 'inf':
            return 1 if m & 512 else 0
        if x.op == 'ninf':
            return 1 if m & 4 else 0
        if m & 0x3fc & ~0x204 == 0x1f8:
            return 1
        if m & ~0x207 == 0:
            return 0
        raise Unsupported('is.fpclass')

    # ------------------------------------------------------------------ contract vocabulary
    def cstr(self, st, p):
        s = []
        k = 0
        while True:
            b = self._byte(st, p, k)
            if b == 0 or not isinstance(b, int):
                break
            s.append(chr(b))
            k += 1
        return ''.join(s)
    def x_vc_real(self, st, a, i):
        n = self.cstr(st, a[0])
        v = T.rvar(n)
        st.inputs.append((n, 'real', v))
        return v
    def x_vc_pos(self, st, a, i):
        v = self.x_vc_real(st, a, i)
        T_POS.add(v)
        N.apos.add(N.atom(('v', v.a[0]), v))
        st.assume(f_rlt(ZERO, v))
        return v
    def x_vc_real_in(self, st, a, i):
        v = self.x_vc_real(st, a, i)
        st.assume(f_rle(a[1], v))
        st.assume(f_rle(v, a[2]))
        if a[1].op == 'c' and a[1].a[0] >= 0:
            N.apos.add(N.atom(('v', v.a[0]), v))
        return v
    def x_vc_int(self, st, a, i):
        n = self.cstr(st, a[0])
        lo, hi = self.e.ssg(st, a[1], 64), self.e.ssg(st, a[2], 64)
        if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
            st.inputs.append((n, 'int', lo))
            return lo & mask(64)
        l = iiv(lo)[0]
        h = iiv(hi)[1]
        v = T.ip_atom(T.ivar(n, l, h))
        st.assume(f_ile(lo, v))
        st.assume(f_ile(v, hi))
        st.inputs.append((n, 'int', v))
        return v
    def x_vc_char(self, st, a, i):
        n = self.cstr(st, a[0])
        v = T.ip_atom(T.ivar(n, -128, 127))
        st.assume(f_ile(-128, v))
        st.assume(f_ile(v, 127))
        st.inputs.append((n, 'int', v))
        return v
    def x_vc_size(self, st, a, i):
        """a symbolic size; in bounded mode one concrete value per path"""
        b = self.e.opts.get('bound')
        if b is None:
            return self.x_vc_int(st, a, i)
        n = self.cstr(st, a[0])
        lo, hi = sgn(a[1], 64), sgn(a[2], 64)
        hi = min(hi, lo + b)
        key = 'size_%s' % n
        v = T.ip_atom(T.iatom('v', ('size', n, len(st.inputs)), lo, hi, n))
        for k in range(lo, hi):
            if self.e.decide(st, f_ieq(v, k)):
                st.inputs.append((n, 'int', k))
                return k
        st.inputs.append((n, 'int', hi))
        st.assume(f_ieq(v, hi))
        return hi
    def x_vc_bool(self, st, a, i):
        n = self.cstr(st, a[0])
        f = T.f_bvar(n)
        st.inputs.append((n, 'bool', f))
        return f if i.ty.w == 1 else T.iite(f, 1, 0)
    def x_vc_choose(self, st, a, i):
        """case split over 0..n-1"""
        n = self.cstr(st, a[0])
        v = T.ip_atom(T.iatom('v', ('choose', n, len(st.inputs)), 0, a[1] - 1, n))
        for k in range(a[1] - 1):
            if self.e.decide(st, f_ieq(v, k)):
                st.inputs.append((n, 'int', k))
                return k
        st.inputs.append((n, 'int', a[1] - 1))
        return a[1] - 1
    def x_vc_unit(self, st, a, i):
        n = self.cstr(st, a[0])
        cnt = a[2]
        vs = [T.rvar('%s%d' % (n, k)) for k in range(cnt)]
        sq = ONE
        for v in vs[1:]:
            sq = rsub(sq, rmul(v, v))
        N.UNIT[vs[0]] = sq
        for k, v in enumerate(vs):
            st.inputs.append((n, 'real', v))
            self.e.write(st, Ptr(a[1].obj, iadd(a[1].off, 8 * k)), 8, v)
    def x_vc_name(self, st, a, i):
        """ghost naming of computed values; unit=1: they are shown to form a unit vector and then treated as one"""
        n = self.cstr(st, a[0])
        vals = [self.e.load(st, Ptr(a[1].obj, iadd(a[1].off, 8 * k)), F64) for k in range(a[2])]
        if a[3]:
            s = T.ZERO
            for v in vals:
                s = radd(s, rmul(v, v))
            if all(v.op == 'v' for v in vals):
                return
            self.e.oblige(st, T.f_req(s, ONE), 'named vector has unit length')
        out = []
        new = []
        for k, v in enumerate(vals):
            if v.op in ('v', 'c'):
                out.append(v)
                continue
            y = T.ALIAS.get(v)
            if y is None:
                y = T.rvar('%s%d' % (n, k))
                T.ADEF[y] = v
                new.append(y)
                T.ALIAS[v] = y
                ng = T.rneg(v)
                if ng.op != 'c' and ng not in T.ALIAS:
                    T.ALIAS[ng] = T.rneg(y)
            out.append(y)
        if new:
            T.AGROUP.append((bool(a[3]), new))
        if a[3]:
            for y in out:
                if y in T.ADEF:
                    if y not in N.UNIT:
                        sq = ONE
                        for w in out:
                            if w is not y:
                                sq = rsub(sq, rmul(w, w))
                        N.UNIT[y] = sq
                    break
        for k, y in enumerate(out):
            self.e.write(st, Ptr(a[1].obj, iadd(a[1].off, 8 * k)), 8, y)
    def x_vc_fill(self, st, a, i, pos=False):
        n = self.cstr(st, a[0])
        cnt = a[2] if isinstance(a[2], int) else self.e.usg(st, a[2], 64)
        p = a[1]
        if isinstance(cnt, int) and cnt <= 4096:
            for k in range(cnt):
                v = T.rvar('%s[%d]' % (n, k))
                if pos:
                    N.apos.add(N.atom(('v', v.a[0]), v))
                    st.assume(f_rlt(ZERO, v))
                st.inputs.append((n, 'real', v))
                self.e.write(st, Ptr(p.obj, iadd(p.off, 8 * k)), 8, v)
            return
        if self.e.empty_null(st, cnt, p):
            return
        o = self.e.wobj(st, p.obj)
        b = T.Base(n, 'real', 8)
        b.pos = pos
        if p.off == 0 and (o.size == imul(cnt, 8)):
            o.layers = [('base', b)]
        else:
            o.layers.append(('copy', p.off, imul(cnt, 8), [('base', b)], 0))
        st.inputs.append((n, 'array', (b, cnt)))
    def x_vc_fill_pos(self, st, a, i):
        return self.x_vc_fill(st, a, i, True)
    def x_vc_fill_u32(self, st, a, i):
        n = self.cstr(st, a[0])
        cnt = a[2] if isinstance(a[2], int) else self.e.usg(st, a[2], 64)
        p = a[1]
        lo, hi = self.e.ssg(st, a[3], 64), self.e.ssg(st, a[4], 64)
        if isinstance(cnt, int) and cnt <= 4096:
            for k in range(cnt):
                v = T.ip_atom(T.ivar('%s[%d]' % (n, k), iiv(lo)[0], iiv(hi)[1]))
                st.assume(f_ile(lo, v))
                st.assume(f_ile(v, hi))
                st.inputs.append((n, 'int', v))
                self.e.write(st, Ptr(p.obj, iadd(p.off, 4 * k)), 4, v)
            return
        if self.e.empty_null(st, cnt, p):
            return
        o = self.e.wobj(st, p.obj)
        b = T.Base(n, 'int', 4, iiv(lo)[0], iiv(hi)[1])
        b.pos = False
        if p.off == 0 and o.size == imul(cnt, 4):
            o.layers = [('base', b)]
        else:
            o.layers.append(('copy', p.off, imul(cnt, 4), [('base', b)], 0))
        st.inputs.append((n, 'array', (b, cnt)))
    def x_vc_assume(self, st, a, i):
        f = self._bool(a[0])
        if f is FALSE:
            raise PathEnd('assumption')
        if f is TRUE:
            return
        n = len(st.pc)
        st.assume(f)
        if not P.feasible(st.pcs, 0.5):
            raise PathEnd('assumption')
    def _bool(self, v):
        if isinstance(v, IP):
            b = boolish(v)
            if b is not None:
                return b
            return f_not(f_ieq(v, 0))
        if isinstance(v, int):
            return f_bool(v != 0)
        return self.e.to_f(v)
    def x_vc_assert(self, st, a, i):
        if a[0] is UNDEF:
            raise Unsupported('assertion on undefined value')
        self.e.oblige(st, self._bool(a[0]), self.cstr(st, a[1]))
    def x_vc_eq(self, st, a, i):
        lab = self.cstr(st, a[2])
        if a[0] is UNDEF or a[1] is UNDEF:
            self.e.oblige(st, f_bool(False), lab + ' (uninitialized value)')
            return
        self.e.oblige(st, f_req(a[0], a[1]), lab)
    def x_vc_le(self, st, a, i):
        if a[0] is UNDEF or a[1] is UNDEF:
            self.e.oblige(st, f_bool(False), self.cstr(st, a[2]) + ' (uninitialized value)')
            return
        self.e.oblige(st, f_rle(a[0], a[1]), self.cstr(st, a[2]))
    def x_vc_eqi(self, st, a, i):
        if a[0] is UNDEF or a[1] is UNDEF:
            self.e.oblige(st, f_bool(False), self.cstr(st, a[2]) + ' (uninitialized value)')
            return
        r = self.e.icmp(st, 'eq', a[0], a[1], 64)
        self.e.oblige(st, self.e.to_f(r), self.cstr(st, a[2]))
    def x_vc_cover(self, st, a, i):
        n = self.cstr(st, a[0])
        if n not in self.e.covers:
            if P.feasible(st.pcs, 3.0):
                self.e.covers[n] = 1
        else:
            self.e.covers[n] += 1
    def x_vc_allow_exit(self, st, a, i):
        st.flags['exit_ok'] = bool(a[0])
    def x_vc_allow_throw(self, st, a, i):
        st.flags['throw_ok'] = bool(a[0])
    def x_vc_native(self, st, a, i):
        return 0
    def x_vc_fresh_like(self, st, a, i):
        return T.rvar('fresh')
    def x_vc_same_fn(self, st, a, i):
        """uninterpreted function of up to 3 reals"""
        return T.rfn('uf_' + self.cstr(st, a[0]), *a[1:])

    # ------------------------------------------------------------------ ghost streams
    def fake_stream(self, st, o):
        vt = self.e.new_obj(st, 256, 'global', 'fake vtable')
        for k in range(0, 256, 8):
            vt.layers[0][k] = (8, 0)
        vt.layers[0][64 - 24] = (8, 0x200)
        for k in range(0, 4096, 8):
            o.layers[0][k] = (8, 0)
        o.layers[0][0] = (8, Ptr(vt.id, 64))
        ct = self.e.new_obj(st, 640, 'global', 'fake ctype')
        ct.layers[0][56] = (1, 1)
        for k in range(256):
            ct.layers[0][57 + k] = (1, k)
        o.layers[0][0x200 + 240] = (8, Ptr(ct.id, 0))
    def x__ZNSo3putEc(self, st, a, i):
        if a[0].obj in st.ghost.get('streams', {}):
            raise Unsupported('put on a binary stream')
        return a[0]
    def _stream(self, st, k):
        g = st.ghost.setdefault('streams', {})
        return g
    def x_vc_stream(self, st, a, i):
        """vc_stream(id): object usable as std::ostream or std::istream backed by ghost buffer id"""
        o = self.e.new_obj(st, 4096, 'global', 'stream')
        self.fake_stream(st, o)
        g = st.ghost.setdefault('streams', {})
        g[o.id] = a[0]
        gb = st.ghost.setdefault('bufs', {})
        if a[0] not in gb:
            b = self.e.new_obj(st, 1 << 60, 'global', 'stream buffer')
            gb[a[0]] = (b.id, 0, 0)
        return Ptr(o.id, 0)
    def _buf(self, st, p):
        k = st.ghost.get('streams', {}).get(p.obj)
        if k is None:
            raise Unsupported('binary I/O on unknown stream')
        return k, st.ghost['bufs'][k]
    def x__ZNSo5writeEPKcl(self, st, a, i):
        n = self.e.usg(st, a[2], 64) if not isinstance(a[2], int) else a[2]
        k, (b, w, r) = self._buf(st, a[0])
        self.e.memcpy(st, Ptr(b, w), a[1], n)
        st.ghost['bufs'][k] = (b, iadd(w, n), r)
        return a[0]
    def x__ZNSi4readEPcl(self, st, a, i):
        n = self.e.usg(st, a[2], 64) if not isinstance(a[2], int) else a[2]
        k, (b, w, r) = self._buf(st, a[0])
        f = f_ile(iadd(r, n), w)
        if f is not TRUE:
            if not self.e.oblige(st, f, 'reads only bytes that were written', 'safety') and f is FALSE:
                raise PathEnd('read past end')
        self.e.memcpy(st, a[1], Ptr(b, r), n)
        st.ghost['bufs'][k] = (b, w, iadd(r, n))
        return a[0]
    def x_vc_stream_done(self, st, a, i):
        b, w, r = st.ghost['bufs'][a[0]]
        self.e.oblige(st, f_ieq(w, r), 'deserialization consumes exactly the bytes written')
    def x_vc_stream_pos(self, st, a, i):
        b, w, r = st.ghost['bufs'][a[0]]
        return w

T_POS = set()

class _I8:
    kind = 'int'
    w = 8
    store = 1
    size = 1
I8 = _I8()
class _F64:
    kind = 'double'
    w = 64
    store = 8
    size = 8
F64 = _F64()
