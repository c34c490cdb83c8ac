"""Symbolic execution of LLVM IR for all inputs: forward VC generation.  Every feasible path of a contract harness is followed
through the real code; branch conditions accumulate in the path condition, obligations are discharged by prove.Prover."""
import math
import struct
import sys
import time
from . import ir
from . import terms as T
from . import nf as N
from . import prove as P
from .ir import UNDEF, Fn, GVar, GAddr, CFloat, Agg, NULLP
from .terms import (R, IP, F, TRUE, FALSE, f_not, f_and, f_or, f_bool, iadd, isub, imul, ineg, iiv, f_ile, f_ilt, f_ieq, f_ite,
                    f_rle, f_rlt, f_req, radd, rsub, rmul, rdiv, rneg, rite, rc, rfloat, ZERO, ONE, to_ip, Undecidable)

sys.setrecursionlimit(20000)

class Unsupported(Exception):
    pass
class Branch(Exception):
    def __init__(self, f):
        self.f = f
class PathEnd(Exception):
    def __init__(self, why):
        self.why = why
class Budget(Exception):
    pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj, self.off = obj, off
    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj == o.obj and self.off == o.off
    def __hash__(self):
        return hash((self.obj, self.off))
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

NULL = Ptr(0, 0)

class NPtr:
    """off minus the address of an object (integer arithmetic on addresses)"""
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj, self.off = obj, off
    def __repr__(self):
        return 'NPtr(%s,%s)' % (self.obj, self.off)


class Bits:
    """machine word with individually known / symbolic / undefined bits (lsb first)"""
    __slots__ = ('b',)
    def __init__(self, b):
        self.b = tuple(b)
    def __eq__(self, o):
        return isinstance(o, Bits) and self.b == o.b
    def __hash__(self):
        return hash(self.b)
    def __repr__(self):
        return 'Bits' + repr(self.b)

def bits_of(v, w):
    if isinstance(v, int):
        return [(v >> i) & 1 for i in range(w)]
    if v is UNDEF:
        return [UNDEF] * w
    if isinstance(v, Bits):
        return list(v.b) + [0] * (w - len(v.b))
    if isinstance(v, F):
        return [v] + [0] * (w - 1)
    if isinstance(v, IP):
        x = boolish(v)
        if x is not None:
            return [x] + [0] * (w - 1)
    return None

def boolish(p):
    """F if the IP is exactly ite(F,1,0)"""
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1:
            a = T._iat_list[m[0]]
            if a.kind == 'iite' and a.args[1].const() == 1 and a.args[2].const() == 0:
                return a.args[0]
    return None

def mk_bits(b):
    if all(isinstance(x, int) for x in b):
        v = 0
        for i, x in enumerate(b):
            v |= x << i
        return v
    if isinstance(b[0], F) and all(x == 0 for x in b[1:] if not isinstance(x, F)) and not any(isinstance(x, F) or x is UNDEF for x in b[1:]):
        return T.iite(b[0], 1, 0)
    return Bits(b)

def bit_f(x):
    if isinstance(x, F):
        return x
    if x is UNDEF:
        raise Unsupported('undefined bit used')
    return f_bool(x == 1)

def f_bit(f):
    return 1 if f is TRUE else 0 if f is FALSE else f

class Obj:
    __slots__ = ('id', 'size', 'layers', 'kind', 'alive', 'owner', 'name')
    def __init__(self, id, size, kind, owner, name=''):
        self.id, self.size, self.kind, self.owner, self.name = id, size, kind, owner, name
        self.layers = [{}]
        self.alive = True
    def copy(self, owner):
        o = Obj.__new__(Obj)
        o.id, o.size, o.kind, o.alive, o.name = self.id, self.size, self.kind, self.alive, self.name
        o.owner = owner
        o.layers = [l.copy() if type(l) is dict else l for l in self.layers]
        return o

class Frame:
    __slots__ = ('fn', 'regs', 'bb', 'ip', 'dst', 'allocas', 'cont', 'prev', 'loopctx')
    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.bb, f.ip, f.dst, f.allocas, f.cont, f.prev = self.fn, self.regs[:], self.bb, self.ip, self.dst, self.allocas[:], self.cont, self.prev
        f.loopctx = self.loopctx
        return f

class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = []
        self.pcs = set()
        self.inputs = []
        self.token = object()
        self.ghost = {}
        self.flags = {}
        self.trace = 0
        self.wlog = None
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc[:]
        s.pcs = set(self.pcs)
        s.inputs = self.inputs[:]
        s.token = object()
        self.token = object()
        s.ghost = {k: (v.copy() if isinstance(v, dict) else v) for k, v in self.ghost.items()}
        s.flags = dict(self.flags)
        s.trace = self.trace
        s.wlog = None if self.wlog is None else self.wlog[:]
        return s
    def assume(self, f):
        if f is TRUE:
            return
        if f.op == 'and':
            for g in f.a:
                self.assume(g)
            return
        if f not in self.pcs:
            self.pc.append(f)
            self.pcs.add(f)

MASK = {w: (1 << w) - 1 for w in (1, 2, 4, 8, 16, 24, 32, 40, 48, 56, 64, 128)}
def mask(w):
    m = MASK.get(w)
    return m if m is not None else (1 << w) - 1

def sgn(v, w):
    """signed value of concrete unsigned v"""
    return v - (1 << w) if v >> (w - 1) else v

class Engine:
    def __init__(self, mod, prover, opts=None):
        self.mod = mod
        self.prover = prover
        self.opts = opts or {}
        self.gobj = {}       # GVar -> obj id
        self.gby = {}        # obj id -> GVar
        self.nobj = 1
        self.tmpl = {}
        self.work = []
        self.obls = []       # dicts
        self.covers = {}
        self.npaths = 0
        self.ninst = 0
        self.ended = {}
        self.called = {}
        self.deadline = None
        self.max_paths = self.opts.get('max_paths', 4000)
        self.loop_log = []
        self.contract_calls = {}
        self.assumed = {}
        self.H = {k[3:]: getattr(self, k) for k in dir(self) if k.startswith('op_')}
        from . import models
        self.models = models.Models(self)
        self.dtimeout = self.opts.get('decide_timeout', 0.25)
        self.ndecide = 0
        self.forkint = self.opts.get('forkint', False)  # case-split integer selects instead of building if-then-else terms
        self.loops_on = self.opts.get('loops', True)
        self.failfast = False

    # ------------------------------------------------------------------ decisions
    def decide(self, st, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if f in st.pcs:
            return True
        nf_ = f_not(f)
        if nf_ in st.pcs:
            return False
        if f.op == 'and':
            # decide conjuncts one after another (keeps the path condition in literals)
            for g in f.a:
                if not self.decide(st, g):
                    return False
            return True
        if f.op == 'or':
            for g in f.a:
                if self.decide(st, g):
                    return True
            return False
        self.ndecide += 1
        if f.op in ('req', 'rle', 'rlt') and not f.a[0].ite:
            q = self._nfquick(f)
            if q is not None:
                return q
        to = self.dtimeout
        if P.implied(st.pc, f, to):
            return True
        if P.implied(st.pc, nf_, to):
            return False
        raise Branch(f)

    def _nfquick(self, f):
        """constant sign by normal form"""
        d = f.a[0]
        try:
            r = N.nf(d)
        except (N.TooBig, N.Opaque, ZeroDivisionError):
            return None
        if not r.n:
            return f.op in ('req', 'rle')
        if not r.d and len(r.n) == 1 and () in r.n:
            c = r.n[()]
            return {'req': c == 0, 'rle': c <= 0, 'rlt': c < 0}[f.op]
        return None

    def must(self, st, f):
        """established without branching"""
        if f is TRUE or f in st.pcs:
            return True
        if f is FALSE:
            return False
        return P.implied(st.pc, f, self.dtimeout * 2)

    # ------------------------------------------------------------------ obligations
    def oblige(self, st, f, label, kind='assert'):
        if isinstance(f, int):
            f = f_bool(f)
        t0 = time.time()
        r = self.prover.prove(st.pcs, f)
        o = dict(label=label, kind=kind, status=r.status, by=r.by, time=round(time.time() - t0, 3), path=st.trace)
        if r.status != 'proved':
            # is the path itself feasible?
            if not P.feasible(st.pcs, 2.0):
                o['status'] = 'proved'
                o['by'] = 'infeasible path'
            else:
                o['why'] = r.why
                o['goal'] = repr(f)[:400]
                o['pc'] = [repr(g)[:200] for g in st.pc[-12:]]
                o['model'] = self.model_inputs(st, r) if r.status == 'refuted' else None
        self.obls.append(o)
        st.assume(f)
        if o['status'] != 'proved' and self.failfast:
            raise Budget('first failed obligation')
        return o['status'] == 'proved'

    def model_inputs(self, st, r):
        """counterexample inputs in creation order; None marks inputs the obligation does not depend on"""
        mod, syms = r.model or (None, None)
        if mod is None:
            return None
        out = []
        syms = syms or set()
        def ev(z):
            return mod.eval(z, model_completion=True)
        def known(t):
            return not (P.support(t) - syms) if isinstance(t, (R, F, IP)) else True
        for nm, kind, t in st.inputs:
            try:
                if isinstance(t, int):
                    out.append([nm, kind, t])
                elif kind == 'array':
                    base, cnt = t
                    n = cnt if isinstance(cnt, int) else int(str(ev(P.zi(cnt))))
                    vals = {}
                    for s in syms:
                        if isinstance(s, R) and s.op == 'sel' and s.a[0] is base:
                            vals[int(str(ev(P.zi(s.a[1])))) // base.esize] = z3num(ev(P.zr(s)))
                        elif isinstance(s, T.IAtom) and s.kind == 'sel' and s.args[0] is base:
                            vals[int(str(ev(P.zi(s.args[1])))) // base.esize] = int(str(ev(P.zatom(s.id))))
                    if n > 4096:
                        return out
                    for k in range(n):
                        out.append([nm, 'int' if base.kind == 'int' else 'real', vals.get(k)])
                elif not known(t):
                    out.append([nm, kind, None])
                elif kind == 'real':
                    out.append([nm, kind, z3num(ev(P.zr(t)))])
                elif kind == 'int':
                    out.append([nm, kind, int(str(ev(P.zi(t))))])
                elif kind == 'bool':
                    out.append([nm, kind, 1 if str(ev(P.zf(t))) == 'True' else 0])
                else:
                    out.append([nm, kind, None])
            except Exception:
                out.append([nm, kind, None])
        return out

    # ------------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name=''):
        self.nobj += 1
        o = Obj(self.nobj, size, kind, st.token, name)
        st.mem[o.id] = o
        return o

    def gaddr(self, g, off):
        if isinstance(g, Fn):
            return Ptr(g, off)
        i = self.gobj.get(g)
        if i is None:
            self.nobj += 1
            i = self.nobj
            self.gobj[g] = i
            self.gby[i] = g
        return Ptr(i, off)

    def getobj(self, st, i):
        o = st.mem.get(i)
        if o is None:
            g = self.gby.get(i)
            if g is None:
                raise Unsupported('access to invalid object %r' % (i,))
            o = Obj(i, g.type.size, 'global', None, g.name)
            if g.decl:
                self.models.extern_global(st, o, g)
            else:
                self.init_const(o.layers[0], 0, g.init(), g.type)
            st.mem[i] = o
        return o

    def wobj(self, st, i):
        o = self.getobj(st, i)
        if o.owner is not st.token:
            o = o.copy(st.token)
            st.mem[i] = o
        return o

    def init_const(self, cells, off, c, ty):
        if ty.kind == 'struct':
            for i, e in enumerate(ty.els):
                self.init_const(cells, off + ty.offs[i], c.els[i], e)
        elif ty.kind in ('array', 'vec'):
            es = ty.el.size
            for i in range(ty.n):
                self.init_const(cells, off + i * es, c.els[i], ty.el)
        else:
            v = self.cval(c, ty)
            if v is not UNDEF:
                cells[off] = (ty.store, v)

    def cval(self, c, ty):
        """value of an IR constant"""
        if isinstance(c, int):
            if ty.kind == 'ptr':
                return Ptr(0, c)
            return c & mask(ty.w) if ty.kind == 'int' else c
        if c is UNDEF:
            return UNDEF
        if isinstance(c, CFloat):
            return rfloat(c.v)
        if isinstance(c, GAddr):
            return self.gaddr(c.g, c.off)
        if isinstance(c, str) and c == NULLP:
            return NULL
        if isinstance(c, Agg):
            if ty.kind == 'struct':
                return tuple(self.cval(x, t) for x, t in zip(c.els, ty.els))
            return tuple(self.cval(x, ty.el) for x in c.els)
        if isinstance(c, tuple) and c[0] == 'cexpr':
            if c[1] == 'sub' and all(isinstance(x, GAddr) for x in c[2]) and c[2][0].g is c[2][1].g:
                return (c[2][0].off - c[2][1].off) & mask(64)
        raise Unsupported('constant %r' % (c,))

    def check_bounds(self, st, o, off, size, what):
        if not o.alive:
            self.oblige(st, FALSE, '%s of freed memory' % what, 'safety')
            raise PathEnd('use after free')
        if isinstance(off, int) and isinstance(o.size, int) and isinstance(size, int):
            if off < 0 or off + size > o.size:
                self.oblige(st, FALSE, '%s out of bounds (offset %d size %d in object of %d bytes %s)' % (what, off, size, o.size, o.name), 'safety')
                raise PathEnd('out of bounds')
            return
        f = f_and(f_ile(0, off), f_ile(iadd(off, size), o.size))
        if f is TRUE:
            return
        if all(g in st.pcs for g in (f.a if f.op == 'and' else (f,))):
            return
        self.oblige(st, f, '%s in bounds' % what, 'safety')

    def deref(self, st, p, what):
        if not isinstance(p, Ptr):
            raise Unsupported('%s through non-pointer %r' % (what, p))
        if p.obj == 0 or isinstance(p.obj, Fn):
            self.oblige(st, FALSE, '%s through null/invalid pointer' % what, 'safety')
            raise PathEnd('null dereference')

    def load(self, st, p, ty):
        if ty.kind == 'struct':
            return tuple(self.load(st, Ptr(p.obj, iadd(p.off, o)), e) for o, e in zip(ty.offs, ty.els))
        if ty.kind in ('array', 'vec'):
            return tuple(self.load(st, Ptr(p.obj, iadd(p.off, i * ty.el.size)), ty.el) for i in range(ty.n))
        self.deref(st, p, 'load')
        o = st.mem.get(p.obj)
        if o is None:
            o = self.getobj(st, p.obj)
        size = ty.store
        off = p.off
        # fast path
        if type(off) is int and len(o.layers) == 1 and o.alive and type(o.layers[0]) is dict:
            c = o.layers[0].get(off)
            if c is not None and c[0] == size:
                return self.coerce(c[1], ty)
        self.check_bounds(st, o, off, size, 'read')
        v = self.read_layers(st, o.layers, off, size, ty)
        return self.coerce(v, ty)

    def coerce(self, v, ty):
        k = ty.kind
        if v is UNDEF:
            return v
        if k == 'double':
            if isinstance(v, R):
                return v
            if isinstance(v, int):
                return rfloat(struct.unpack('<d', struct.pack('<Q', v))[0])
            raise Unsupported('load double from %r' % (v,))
        if k == 'int':
            if ty.w == 1:
                if isinstance(v, int):
                    return v & 1
                return v if isinstance(v, F) else self.to_f(v)
            if isinstance(v, F):
                return T.iite(v, 1, 0)
            if isinstance(v, R) and v.op == 'c':
                return v   # type-punned double kept as is
            return v
        if k == 'ptr':
            if isinstance(v, int):
                return Ptr(0, v)
            return v
        if k == 'float':
            if isinstance(v, R):
                return v
            if isinstance(v, int):
                return rfloat(struct.unpack('<f', struct.pack('<I', v))[0])
        raise Unsupported('load %s from %r' % (k, v))

    def to_f(self, v):
        if isinstance(v, F):
            return v
        if isinstance(v, int):
            return f_bool(v & 1)
        if isinstance(v, Bits):
            return bit_f(v.b[0])
        if isinstance(v, IP):
            b = boolish(v)
            if b is not None:
                return b
            lo, hi = v.iv()
            if lo >= 0 and hi <= 1:
                return f_ieq(v, 1)
            return f_ieq(T.imod(v, 2), 1)
        if v is UNDEF:
            raise Unsupported('branch on undefined value')
        raise Unsupported('bool of %r' % (v,))

    def read_layers(self, st, layers, off, size, ty, top=None):
        n = len(layers) if top is None else top
        for li in range(n - 1, -1, -1):
            l = layers[li]
            if type(l) is dict:
                if not l:
                    continue
                if type(off) is int:
                    c = l.get(off)
                    if c is not None and c[0] == size:
                        return c[1]
                    if c is not None or self.overlaps(l, off, size):
                        return self.assemble(st, layers, li, off, size, ty)
                    continue
                for co in sorted(l):
                    cs, cv = l[co]
                    if isinstance(cv, tuple):
                        continue
                    e = f_ieq(off, co)
                    if e is FALSE:
                        # partial overlap impossible when sizes equal and aligned
                        continue
                    if self.decide(st, e):
                        if cs == size:
                            return cv
                        return self.assemble(st, layers, li, co, size, ty)
                continue
            k = l[0]
            if k == 'w':
                d = isub(off, l[1])
                if isinstance(d, int):
                    if d == 0 and l[2] == size:
                        return l[3]
                    if d + size <= 0 or d >= l[2]:
                        continue
                    if d >= 0 and d + size <= l[2] and isinstance(l[3], int):
                        return (l[3] >> (8 * d)) & mask(8 * size)
                    raise Unsupported('partial overlap of symbolic write')
                if self.decide(st, f_ieq(d, 0)):
                    if l[2] != size:
                        raise Unsupported('size mismatch in symbolic read')
                    return l[3]
                continue
            if k == 'copy':
                _, lo, ln, src, soff = l
                rel = isub(off, lo)
                if self.decide(st, f_ile(0, rel)) and self.decide(st, f_ile(iadd(rel, size), ln)):
                    return self.read_layers(st, src, iadd(rel, soff), size, ty)
                continue
            if k == 'fill':
                _, lo, ln, byte = l
                rel = isub(off, lo)
                if self.decide(st, f_ile(0, rel)) and self.decide(st, f_ile(iadd(rel, size), ln)):
                    if byte is UNDEF:
                        return UNDEF
                    v = 0
                    for i in range(size):
                        v |= byte << (8 * i)
                    return v
                continue
            if k == 'cl':
                r = self.read_closure(st, l, off, size)
                if r is not None:
                    return r[0]
                continue
            if k == 'base':
                b = l[1]
                if b.kind == 'real':
                    if size != 8:
                        raise Unsupported('partial read of input array')
                    return b.at_real(off)
                if b.kind == 'int':
                    if size != b.esize:
                        if b.esize == 1 and type(off) is int or b.esize == 1:
                            v = 0
                            for i in range(size):
                                v = iadd(v, imul(b.at_int(iadd(off, i)), 1 << (8 * i)))
                            return v
                        raise Unsupported('partial read of input array')
                    return b.at_int(off)
                if b.kind == 'bool':
                    return T.iite(b.at_bool(off), 1, 0)
            raise Unsupported('layer ' + k)
        return UNDEF

    def read_closure(self, st, l, off, size):
        """closure layer: for 0<=k<n and guard(k): cell at o(k) holds val(k)"""
        _, k, n, o, sz, val, guard = l
        if sz != size:
            raise Unsupported('size mismatch in loop-written memory')
        a = o.t.get((k.id,), 0)
        for m in o.t:
            if k.id in m and m != (k.id,):
                raise Unsupported('non-linear loop offset')
        rest = isub(o, imul(T.ip_atom(k), a))
        d = isub(off, rest)         # a*k = d
        if a < 0:
            a, d = -a, ineg(d)
        if not T.idivisible(d, a):
            md = T.imod(d, a)
            if not self.decide(st, f_ieq(md, 0)):
                return None
            kk = T.ifloordiv(d, a)
        else:
            kk = T.idivexact(d, a)
        if not self.decide(st, f_ile(0, kk)):
            return None
        if not self.decide(st, f_ilt(kk, n)):
            return None
        env = {k.id: kk}
        if guard is not TRUE:
            if not self.decide(st, T.fsubst(guard, env)):
                return None
        return (self.vsubst(val, env),)

    def vsubst(self, v, env):
        if isinstance(v, R):
            return T.rsubst(v, env)
        if isinstance(v, IP):
            return T.isubst(v, env)
        if isinstance(v, F):
            return T.fsubst(v, env)
        if isinstance(v, Ptr):
            return Ptr(v.obj, T.isubst(v.off, env))
        if isinstance(v, tuple):
            return tuple(self.vsubst(x, env) for x in v)
        return v

    @staticmethod
    def overlaps(l, off, size):
        for d in range(1, 16):
            c = l.get(off - d)
            if c is not None and c[0] > d:
                return True
        for d in range(1, size):
            if off + d in l:
                return True
        return False

    def assemble(self, st, layers, li, off, size, ty):
        """byte-wise assembly across cells"""
        parts = []
        o = off
        end = off + size
        l = layers[li]
        while o < end:
            c = l.get(o)
            if c is not None and o + c[0] <= end:
                parts.append((c[0], c[1]))
                o += c[0]
                continue
            # inside a cell starting earlier (or larger one starting here)
            found = None
            for d in range(0, 16):
                c = l.get(o - d)
                if c is not None and c[0] > d:
                    found = (o - d, c)
                    break
            if found is None:
                # byte from lower layer
                v = self.read_layers(st, layers, o, 1, None, top=li) if li > 0 else UNDEF
                parts.append((1, v))
                o += 1
                continue
            co, (cs, cv) = found
            n = min(co + cs, end) - o
            parts.append((n, self.extract(cv, o - co, n, cs)))
            o += n
        if len(parts) == 1:
            return parts[0][1]
        if all(v is UNDEF for _, v in parts):
            return UNDEF
        if all(isinstance(v, int) for _, v in parts):
            r = 0
            sh = 0
            for n, v in parts:
                r |= v << sh
                sh += 8 * n
            return r
        if any(v is UNDEF for _, v in parts) or any(isinstance(v, Bits) for _, v in parts):
            b = []
            for n, v in parts:
                x = bits_of(v, 8 * n)
                if x is None:
                    raise Unsupported('assemble undefined/symbolic mix')
                b += x
            return mk_bits(b)
        if all(isinstance(v, (int, IP)) for _, v in parts):
            r = 0
            sh = 0
            for n, v in parts:
                r = iadd(r, imul(v, 1 << sh))
                sh += 8 * n
            return r
        raise Unsupported('assemble %r' % (parts,))

    def extract(self, v, byte, n, cs):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, R) and v.op == 'c':
            v = self.dbits(v)
        if isinstance(v, int):
            return (v >> (8 * byte)) & mask(8 * n)
        if isinstance(v, Bits):
            b = list(v.b) + [0] * (cs * 8 - len(v.b))
            return mk_bits(b[8 * byte:8 * (byte + n)])
        if isinstance(v, IP):
            lo, hi = v.iv()
            if lo >= 0:
                return T.imod(T.ifloordiv(v, 1 << (8 * byte)), 1 << (8 * n)) if byte + n < cs else T.ifloordiv(v, 1 << (8 * byte))
        if isinstance(v, Ptr) and v.obj == 0 and isinstance(v.off, int):
            return (v.off >> (8 * byte)) & mask(8 * n)
        raise Unsupported('extract bytes of %r' % (v,))

    def dbits(self, v):
        return struct.unpack('<Q', struct.pack('<d', float(v.a[0])))[0]

    def store(self, st, p, v, ty):
        if ty.kind == 'struct':
            for i, (o, e) in enumerate(zip(ty.offs, ty.els)):
                self.store(st, Ptr(p.obj, iadd(p.off, o)), v[i], e)
            return
        if ty.kind in ('array', 'vec'):
            for i in range(ty.n):
                self.store(st, Ptr(p.obj, iadd(p.off, i * ty.el.size)), v[i], ty.el)
            return
        self.deref(st, p, 'store')
        self.write(st, p, ty.store, v)

    def write(self, st, p, size, v):
        o = st.mem.get(p.obj)
        if o is None:
            o = self.getobj(st, p.obj)
        off = p.off
        if not (type(off) is int and type(o.size) is int and o.alive and 0 <= off and off + size <= o.size):
            self.check_bounds(st, o, off, size, 'write')
        if o.owner is not st.token:
            o = o.copy(st.token)
            st.mem[p.obj] = o
        if isinstance(v, F):
            v = T.iite(v, 1, 0)
        if st.wlog is not None:
            st.wlog.append((p.obj, off, size, v))
        top = o.layers[-1]
        if type(off) is int:
            if type(top) is not dict:
                # an explicit write on top of a symbolic layer; keep the log compact
                top = {}
                o.layers.append(top)
            c = top.get(off)
            if c is not None and c[0] == size:
                top[off] = (size, v)
                return
            if c is not None or self.overlaps(top, off, size):
                self.clear_range(top, off, size)
            top[off] = (size, v)
            return
        # symbolic offset: overwrite an identical earlier entry at the top
        if type(top) is tuple and top[0] == 'w' and top[1] == off and top[2] == size:
            o.layers[-1] = ('w', off, size, v)
            return
        o.layers.append(('w', off, size, v))

    def clear_range(self, l, off, size):
        end = off + size
        for d in range(-15, size):
            co = off + d
            c = l.get(co)
            if c is None:
                continue
            cs, cv = c
            if co + cs <= off:
                continue
            del l[co]
            if co < off:
                l[co] = (off - co, self.extract(cv, 0, off - co, cs))
            if co + cs > end:
                n = co + cs - end
                l[end] = (n, self.extract(cv, end - co, n, cs))

    def empty_null(self, st, n, *ps):
        """a null pointer with a length that is zero on this path"""
        return any((isinstance(p, Ptr) and p.obj == 0) or p == 0 for p in ps) and (n == 0 if isinstance(n, int) else self.decide(st, f_ieq(n, 0)))
    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        if self.empty_null(st, n, d, s):
            return
        self.deref(st, d, 'memcpy')
        self.deref(st, s, 'memcpy')
        so = self.getobj(st, s.obj)
        do = self.getobj(st, d.obj)
        self.check_bounds(st, so, s.off, n, 'memcpy read')
        self.check_bounds(st, do, d.off, n, 'memcpy write')
        if isinstance(n, int) and isinstance(s.off, int) and isinstance(d.off, int) and len(so.layers) == 1 and isinstance(so.layers[0], dict):
            src = so.layers[0]
            items = []
            if n <= 64 or n < len(src) * 8:
                o = s.off
                end = s.off + n
                # partial first cell
                while o < end:
                    c = src.get(o)
                    if c is not None and o + c[0] <= end:
                        items.append((o, c[0], c[1]))
                        o += c[0]
                    else:
                        hit = None
                        for dd in range(0, 16):
                            c = src.get(o - dd)
                            if c is not None and c[0] > dd:
                                hit = (o - dd, c)
                                break
                        if hit:
                            co, (cs, cv) = hit
                            m = min(co + cs, end) - o
                            items.append((o, m, self.extract(cv, o - co, m, cs)))
                            o += m
                        else:
                            items.append((o, 1, UNDEF))
                            o += 1
            else:
                end = s.off + n
                for o in sorted(src):
                    c = src[o]
                    if o >= s.off and o + c[0] <= end:
                        items.append((o, c[0], c[1]))
                    elif o < end and o + c[0] > s.off:
                        a, b = max(o, s.off), min(o + c[0], end)
                        items.append((a, b - a, self.extract(c[1], a - o, b - a, c[0])))
            do = self.wobj(st, d.obj)
            top = do.layers[-1]
            if type(top) is not dict:
                top = {}
                do.layers.append(top)
            for d0 in range(-15, 0):
                c = top.get(d.off + d0)
                if c is not None and d.off + d0 + c[0] > d.off:
                    self.clear_range(top, d.off, 1)
            for k in [k for k in range(d.off, d.off + n) if k in top] if n <= 4096 else [k for k in list(top) if d.off <= k < d.off + n]:
                c = top.pop(k)
                if k + c[0] > d.off + n:
                    m = k + c[0] - (d.off + n)
                    top[d.off + n] = (m, self.extract(c[1], c[0] - m, m, c[0]))
            delta = d.off - s.off
            for o, m, v in items:
                if v is not UNDEF:
                    top[o + delta] = (m, v)
                elif len(do.layers) > 1:
                    top[o + delta] = (m, v)
            if st.wlog is not None:
                for o, m, v in items:
                    st.wlog.append((d.obj, o + delta, m, v))
            return
        if st.wlog is not None:
            if isinstance(n, int) and n <= 256 and n % 8 == 0:
                # element-wise so that the loop summarizer sees individual cells
                vals = [self.read_layers(st, so.layers, iadd(s.off, i), 8, None) for i in range(0, n, 8)]
                for i, v in zip(range(0, n, 8), vals):
                    self.write(st, Ptr(d.obj, iadd(d.off, i)), 8, v)
                return
            st.wlog.append(('copy', d.obj, d.off, n))
        snap = [l.copy() if type(l) is dict else l for l in so.layers]
        do = self.wobj(st, d.obj)
        do.layers.append(('copy', d.off, n, snap, s.off))

    def memset(self, st, d, byte, n):
        if isinstance(n, int) and n == 0:
            return
        self.deref(st, d, 'memset')
        do = self.getobj(st, d.obj)
        self.check_bounds(st, do, d.off, n, 'memset')
        if isinstance(byte, int) and isinstance(n, int) and isinstance(d.off, int) and n <= 65536:
            v8 = byte * 0x0101010101010101
            o = 0
            while o < n:
                m = 8 if n - o >= 8 else (4 if n - o >= 4 else (2 if n - o >= 2 else 1))
                self.write(st, Ptr(d.obj, d.off + o), m, v8 & mask(8 * m))
                o += m
            return
        if isinstance(byte, int) and isinstance(n, int) and n <= 256 and n % 8 == 0:
            for o in range(0, n, 8):
                self.write(st, Ptr(d.obj, iadd(d.off, o)), 8, byte * 0x0101010101010101)
            return
        if st.wlog is not None:
            st.wlog.append(('fill', d.obj, d.off, n))
        do = self.wobj(st, d.obj)
        do.layers.append(('fill', d.off, n, byte))

    # ------------------------------------------------------------------ integers
    def sig(self, v, w):
        """canonical signed value of v (int or IP)"""
        if isinstance(v, int):
            return sgn(v & mask(w), w)
        return v

    def usg(self, st, v, w):
        """representative in [0,2^w)"""
        if isinstance(v, int):
            return v & mask(w)
        v = self.as_ip(v)
        if isinstance(v, int):
            return v & mask(w)
        M = 1 << w
        lo, hi = v.iv()
        if lo >= 0 and hi < M:
            return v
        if any(m and c % M == 0 for m, c in v.t.items()):
            v = T.ip_norm(IP({m: c for m, c in v.t.items() if c % M}))
        if isinstance(v, int):
            return v & mask(w)
        for _ in range(4):
            if self.decide(st, f_ile(0, v)):
                if self.decide(st, f_ilt(v, M)):
                    return v
                v = isub(v, M)
            else:
                v = iadd(v, M)
            if isinstance(v, int):
                return v & mask(w)
        raise Unsupported('wide wrap')

    def ssg(self, st, v, w):
        """representative in [-2^(w-1), 2^(w-1))"""
        if isinstance(v, int):
            return sgn(v & mask(w), w)
        v = self.as_ip(v)
        if isinstance(v, int):
            return sgn(v & mask(w), w)
        M = 1 << w
        h = M >> 1
        lo, hi = v.iv()
        if lo >= -h and hi < h:
            return v
        if any(m and c % M == 0 for m, c in v.t.items()):
            v = T.ip_norm(IP({m: c for m, c in v.t.items() if c % M}))
        if isinstance(v, int):
            return sgn(v & mask(w), w)
        for _ in range(4):
            if self.decide(st, f_ile(-h, v)):
                if self.decide(st, f_ilt(v, h)):
                    return v
                v = isub(v, M)
            else:
                v = iadd(v, M)
            if isinstance(v, int):
                return sgn(v & mask(w), w)
        raise Unsupported('wide wrap')

    def as_ip(self, v):
        if isinstance(v, (int, IP)):
            return v
        if isinstance(v, F):
            return T.iite(v, 1, 0)
        if isinstance(v, Bits):
            r = 0
            for i, b in enumerate(v.b):
                if b is UNDEF:
                    raise Unsupported('undefined bits used')
                r = iadd(r, imul(T.iite(b, 1, 0) if isinstance(b, F) else b, 1 << i))
            return r
        if isinstance(v, Ptr) and v.obj == 0:
            return v.off
        raise Unsupported('integer from %r' % (v,))

    def norm(self, v, w):
        """int results: keep concrete canonical unsigned; constant IP collapses"""
        if isinstance(v, int):
            return v & mask(w)
        return v

    # ------------------------------------------------------------------ running
    def tmpl_of(self, fn):
        t = self.tmpl.get(fn)
        if t is None:
            fn.load()
            regs = [None] * fn.nslots
            for s, c, ty in fn.consts:
                try:
                    regs[s] = self.cval(c, ty)
                except Unsupported as e:
                    regs[s] = UNDEF
            t = regs
            self.tmpl[fn] = t
        return t

    def push(self, st, fn, args, dst, cont):
        fr = Frame()
        fr.fn = fn
        fr.regs = self.tmpl_of(fn)[:]
        for s, v in zip(fn.params, args):
            fr.regs[s] = v
        fr.bb = 0
        fr.ip = 0
        fr.dst = dst
        fr.allocas = []
        fr.cont = cont
        fr.prev = None
        fr.loopctx = None
        st.frames.append(fr)
        if len(st.frames) > 200:
            raise Unsupported('recursion depth')
        self.called[fn.name] = self.called.get(fn.name, 0) + 1

    def run(self, name, deadline=None):
        fn = self.mod.fns.get(name)
        if fn is None or fn.decl:
            raise Unsupported('harness %s missing' % name)
        self.deadline = deadline
        st = State()
        self.push(st, fn, [], None, None)
        self.work = [st]
        try:
            while self.work:
                s = self.work.pop()
                self.run_state(s)
        except Budget as b:
            self.ended['budget: ' + str(b)] = self.ended.get('budget: ' + str(b), 0) + 1

    def fork(self, st, f):
        """add both sides to the worklist; current continues with f"""
        s2 = st.clone()
        s2.assume(f_not(f))
        st.assume(f)
        self.work.append(s2)
        self.npaths += 1
        if self.npaths > self.max_paths:
            raise Budget('paths')

    def run_state(self, st):
        try:
            while True:
                try:
                    self.step_loop(st)
                    return
                except Branch as b:
                    self.fork(st, b.f)
        except PathEnd as e:
            self.ended[e.why] = self.ended.get(e.why, 0) + 1
            st.trace += 1
        except Undecidable as e:
            raise Unsupported(str(e))

    def where(self, st):
        return ' < '.join(f.fn.name for f in reversed(st.frames[-4:]))

    def step_loop(self, st):
        H = self.H
        n = 0
        while True:
            fr = st.frames[-1]
            insts = fr.fn.blocks[fr.bb].insts
            while True:
                ins = insts[fr.ip]
                self.ninst += 1
                n += 1
                if n & 1023 == 0:
                    if self.deadline and time.time() > self.deadline:
                        raise Budget('time')
                r = H[ins.op](st, fr, ins)
                if r is None:
                    fr.ip += 1
                elif r is True:
                    break      # control transferred
                else:
                    return
    # ------------------------------------------------------------------ control
    def goto(self, st, fr, bb):
        prev = fr.bb
        blk = fr.fn.blocks[bb]
        if fr.loopctx is not None or (self.loops_on and bb in fr.fn.loops):
            if self.models.loops.on_edge(st, fr, prev, bb):
                return
        ph = blk.phis.get(prev)
        if ph:
            regs = fr.regs
            vals = [regs[s] for _, s, _ in ph]
            for (d, _, _), v in zip(ph, vals):
                regs[d] = v
        fr.prev = prev
        fr.bb = bb
        fr.ip = 0

    def op_br(self, st, fr, ins):
        x = ins.x
        if len(x) == 1:
            self.goto(st, fr, x[0])
            return True
        c = fr.regs[ins.ops[0]]
        if type(c) is int:
            self.goto(st, fr, x[0] if c & 1 else x[1])
            return True
        if c is UNDEF:
            raise Unsupported('branch on undefined value in ' + self.where(st))
        f = self.to_f(c)
        if self.loops_on and fr.fn.loops and f not in (TRUE, FALSE):
            if self.models.loops.on_cond(st, fr, ins, f):
                return True
        self.goto(st, fr, x[0] if self.decide(st, f) else x[1])
        return True

    def op_switch(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        cases, dflt = ins.x
        w = ins.y.w
        if isinstance(v, int):
            for c, bb in cases:
                if c == v & mask(w):
                    self.goto(st, fr, bb)
                    return True
            self.goto(st, fr, dflt)
            return True
        v = self.usg(st, v, w)
        for c, bb in cases:
            if self.decide(st, f_ieq(v, c)):
                self.goto(st, fr, bb)
                return True
        self.goto(st, fr, dflt)
        return True

    def op_unreachable(self, st, fr, ins):
        self.oblige(st, FALSE, 'unreachable code reached', 'safety')
        raise PathEnd('unreachable')

    def op_ret(self, st, fr, ins):
        v = fr.regs[ins.ops[0]] if ins.ops else None
        st.frames.pop()
        for i in fr.allocas:
            st.mem.pop(i, None)
        if not st.frames:
            self.ended['done'] = self.ended.get('done', 0) + 1
            return 'stop'
        c = st.frames[-1]
        if fr.dst is not None:
            c.regs[fr.dst] = v
        if fr.cont is not None:
            self.goto(st, c, fr.cont)
        else:
            c.ip += 1
        return True

    def op_call(self, st, fr, ins):
        regs = fr.regs
        callee = ins.x
        if type(callee) is int:
            callee = regs[callee]
            if isinstance(callee, Ptr) and isinstance(callee.obj, Fn):
                callee = callee.obj
            else:
                self.oblige(st, FALSE, 'call through invalid function pointer %r' % (callee,), 'safety')
                raise PathEnd('bad call')
        args = [regs[o] if o is not None else None for o in ins.ops]
        cont = ins.y[0] if ins.op == 'invoke' else None
        if callee == 'asm':
            raise Unsupported('inline asm')
        m = self.models.lookup(callee)
        if m is not None:
            v = m(st, args, ins)
            if v is self.models.ENTER:
                pass
            elif v is self.models.CONTROL:
                return True
            else:
                if ins.dst is not None:
                    regs[ins.dst] = v
                if cont is not None:
                    self.goto(st, fr, cont)
                    return True
                return None
        if callee.decl:
            raise Unsupported('external function %s (called from %s)' % (callee.name, self.where(st)))
        self.push(st, callee, args, ins.dst, cont)
        return True
    op_invoke = op_call

    def op_landingpad(self, st, fr, ins):
        raise PathEnd('exception')
    def op_resume(self, st, fr, ins):
        raise PathEnd('exception')
    def op_fence(self, st, fr, ins):
        return None

    def op_phi(self, st, fr, ins):
        raise Unsupported('phi')

    # ------------------------------------------------------------------ memory ops
    def op_alloca(self, st, fr, ins):
        n = fr.regs[ins.ops[0]]
        sz = imul(ins.x.size, n) if not isinstance(n, int) else ins.x.size * n
        o = self.new_obj(st, sz, 'stack', 'local')
        fr.allocas.append(o.id)
        fr.regs[ins.dst] = Ptr(o.id, 0)

    def op_load(self, st, fr, ins):
        p = fr.regs[ins.ops[0]]
        if isinstance(p, Ptr):
            fr.regs[ins.dst] = self.load(st, p, ins.ty)
        else:
            raise Unsupported('load through %r in %s' % (p, self.where(st)))

    def op_store(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        p = fr.regs[ins.ops[1]]
        if not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        if v is UNDEF and ins.y.kind in ('struct', 'array', 'vec'):
            return
        self.store(st, p, v, ins.y)

    def op_gep(self, st, fr, ins):
        regs = fr.regs
        p = regs[ins.ops[0]]
        off = ins.x
        for s, scale, w in ins.y:
            v = regs[s]
            if type(v) is int:
                if v >> (w - 1):
                    v -= 1 << w
                off = iadd(off, v * scale)
            elif v is UNDEF:
                raise Unsupported('undefined index')
            else:
                v = self.as_ip(v)
                if w < 64:
                    v = self.ssg(st, v, w)
                off = iadd(off, imul(v, scale))
        if isinstance(p, Ptr):
            o = iadd(p.off, off)
            regs[ins.dst] = Ptr(p.obj, o)
        elif isinstance(p, int):
            regs[ins.dst] = Ptr(0, iadd(p, off))
        elif p is UNDEF:
            regs[ins.dst] = UNDEF
        else:
            raise Unsupported('gep on %r' % (p,))

    # ------------------------------------------------------------------ int arithmetic
    def _bin(self, st, fr, ins):
        return fr.regs[ins.ops[0]], fr.regs[ins.ops[1]], ins.ty.w

    def _vec(self, st, fr, ins, fn):
        a, b = fr.regs[ins.ops[0]], fr.regs[ins.ops[1]]
        fr.regs[ins.dst] = tuple(fn(x, y) for x, y in zip(a, b))

    def op_add(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if type(a) is int and type(b) is int:
            fr.regs[ins.dst] = (a + b) & mask(w)
            return
        fr.regs[ins.dst] = self.i_add(a, b, w, ins)
    def i_add(self, a, b, w, ins=None):
        if isinstance(a, tuple):
            return tuple(self.i_add(x, y, ins.ty.el.w) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(b, NPtr):
            a, b = b, a
        if isinstance(a, NPtr):
            if isinstance(b, Ptr) and b.obj == a.obj:
                return self.norm(iadd(a.off, b.off), w)
            return NPtr(a.obj, iadd(a.off, self.sig(self.as_ip(b), w)))
        if isinstance(a, Ptr) and a.obj != 0:
            return Ptr(a.obj, iadd(a.off, self.sig(self.as_ip(b), w)))
        if isinstance(b, Ptr) and b.obj != 0:
            return Ptr(b.obj, iadd(b.off, self.sig(self.as_ip(a), w)))
        if w == 1:
            fa, fb = self.to_f(a), self.to_f(b)
            return T.f_xor(fa, fb)
        return self.norm(iadd(self.sig(self.as_ip(a), w), self.sig(self.as_ip(b), w)), w)

    def op_sub(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if type(a) is int and type(b) is int:
            fr.regs[ins.dst] = (a - b) & mask(w)
            return
        fr.regs[ins.dst] = self.i_sub(a, b, w, ins)
    def i_sub(self, a, b, w, ins=None):
        if isinstance(a, tuple):
            return tuple(self.i_sub(x, y, ins.ty.el.w) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) and a.obj != 0:
            if isinstance(b, Ptr) and b.obj != 0:
                if a.obj == b.obj:
                    return self.norm(isub(a.off, b.off), w)
                raise Unsupported('difference of unrelated pointers')
            return Ptr(a.obj, isub(a.off, self.sig(self.as_ip(b), w)))
        if isinstance(b, Ptr) and b.obj != 0:
            return NPtr(b.obj, isub(self.sig(self.as_ip(a), w), b.off))
        if isinstance(b, NPtr):
            return self.i_add(a, Ptr(b.obj, isub(0, b.off)), w)
        if isinstance(a, NPtr):
            return NPtr(a.obj, isub(a.off, self.sig(self.as_ip(b), w)))
        return self.norm(isub(self.sig(self.as_ip(a), w), self.sig(self.as_ip(b), w)), w)

    def op_mul(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if type(a) is int and type(b) is int:
            fr.regs[ins.dst] = (a * b) & mask(w)
            return
        if a is UNDEF or b is UNDEF:
            fr.regs[ins.dst] = UNDEF
            return
        if w == 1:
            fr.regs[ins.dst] = f_and(self.to_f(a), self.to_f(b))
            return
        a, b = self.as_ip(a), self.as_ip(b)
        # keep factors canonical so that products stay small
        a, b = self.sig(a, w), self.sig(b, w)
        fr.regs[ins.dst] = self.norm(imul(a, b), w)

    def op_udiv(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        a, b = self.usg(st, a, w), self.usg(st, b, w)
        self.nonzero(st, b, 'integer division')
        fr.regs[ins.dst] = self.norm(T.itdiv(a, b), w)
    def op_sdiv(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('sdiv pointer')
        a, b = self.ssg(st, a, w), self.ssg(st, b, w)
        self.nonzero(st, b, 'integer division')
        fr.regs[ins.dst] = self.norm(self._tdiv(st, a, b), w)
    def _tdiv(self, st, a, b):
        if isinstance(b, int) and b > 0 and not isinstance(a, int) and iiv(a)[0] < 0 and not T.idivisible(a, b):
            if self.decide(st, f_ile(0, a)):
                return T.ifloordiv(a, b)
            return ineg(T.ifloordiv(ineg(a), b))
        return T.itdiv(a, b)
    def op_urem(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        a, b = self.usg(st, a, w), self.usg(st, b, w)
        self.nonzero(st, b, 'integer remainder')
        fr.regs[ins.dst] = self.norm(isub(a, imul(b, T.itdiv(a, b))), w)
    def op_srem(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        a, b = self.ssg(st, a, w), self.ssg(st, b, w)
        self.nonzero(st, b, 'integer remainder')
        fr.regs[ins.dst] = self.norm(isub(a, imul(b, self._tdiv(st, a, b))), w)
    def nonzero(self, st, b, what):
        f = f_not(f_ieq(b, 0)) if not isinstance(b, int) else f_bool(b != 0)
        if f is not TRUE and f not in st.pcs:
            self.oblige(st, f, what + ' by zero', 'safety')
            if f is FALSE:
                raise PathEnd('division by zero')

    def op_shl(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if isinstance(a, int) and isinstance(b, int):
            fr.regs[ins.dst] = (a << b) & mask(w)
            return
        if a is UNDEF:
            fr.regs[ins.dst] = UNDEF
            return
        if not isinstance(b, int):
            if isinstance(a, int):
                b = self.usg(st, b, w)
                # enumerate shift amounts
                for k in range(w):
                    if self.decide(st, f_ieq(b, k)):
                        fr.regs[ins.dst] = (a << k) & mask(w)
                        return
            raise Unsupported('symbolic shift')
        if isinstance(a, (Bits, F)) or isinstance(a, IP) and boolish(a) is not None and b > 0:
            x = bits_of(a, w)
            fr.regs[ins.dst] = mk_bits(([0] * b + x)[:w])
            return
        fr.regs[ins.dst] = self.norm(imul(self.as_ip(a), 1 << b), w)
    def op_lshr(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if isinstance(a, int) and isinstance(b, int):
            fr.regs[ins.dst] = a >> b
            return
        if a is UNDEF:
            fr.regs[ins.dst] = UNDEF
            return
        if not isinstance(b, int):
            b = self.usg(st, b, w)
            for k in range(w):
                if self.decide(st, f_ieq(b, k)):
                    b = k
                    break
        if isinstance(a, int):
            fr.regs[ins.dst] = a >> b
            return
        if isinstance(a, Bits):
            fr.regs[ins.dst] = mk_bits(bits_of(a, w)[b:] + [0] * b)
            return
        if isinstance(a, R):
            if b == 63:
                fr.regs[ins.dst] = T.iite(f_rlt(a, ZERO), 1, 0)
                return
            raise Unsupported('bits of double')
        a = self.usg(st, a, w)
        if isinstance(a, IP) and b in (8, 16, 32):
            # high part of a packed pair whose low part is in range on this path
            low = T.ip_norm(IP({m: c for m, c in a.t.items() if c % (1 << b)}))
            high = isub(a, low)
            if isinstance(low, IP) and isinstance(high, IP) and T.idivisible(high, 1 << b):
                lo, hi = low.iv()
                if not (lo >= 0 and hi < (1 << b)) and self.decide(st, f_and(f_ile(0, low), f_ilt(low, 1 << b))):
                    fr.regs[ins.dst] = self.norm(T.idivexact(high, 1 << b), w)
                    return
        fr.regs[ins.dst] = self.norm(T.ifloordiv(a, 1 << b), w)
    def op_ashr(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if isinstance(a, int) and isinstance(b, int):
            fr.regs[ins.dst] = (sgn(a, w) >> b) & mask(w)
            return
        if a is UNDEF:
            fr.regs[ins.dst] = UNDEF
            return
        if not isinstance(b, int):
            raise Unsupported('symbolic shift')
        if isinstance(a, IP) and T.idivisible(a, 1 << b):
            # exact (pointer differences)
            v = self.ssg(st, a, w)
            fr.regs[ins.dst] = self.norm(T.idivexact(v, 1 << b), w)
            return
        fr.regs[ins.dst] = self.norm(T.ifloordiv(self.ssg(st, a, w), 1 << b), w)

    def op_and(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if type(a) is int and type(b) is int:
            fr.regs[ins.dst] = a & b
            return
        fr.regs[ins.dst] = self.i_and(st, a, b, w, ins)
    def i_and(self, st, a, b, w, ins=None):
        if isinstance(a, tuple):
            return tuple(self.i_and(st, x, y, ins.ty.el.w) for x, y in zip(a, b))
        if w == 1:
            if a == 0 and type(a) is int or b == 0 and type(b) is int:
                return 0
            if a is UNDEF or b is UNDEF:
                return UNDEF
            f = f_and(self.to_f(a), self.to_f(b))
            return f_bit(f)
        if isinstance(a, IP) and isinstance(b, IP):
            p, q = boolish(a), boolish(b)
            if p is not None and q is not None:
                return T.iite(f_and(p, q), 1, 0)
        if type(a) is int:
            a, b = b, a
        if type(b) is int:
            if b == 0:
                return 0
            if b == mask(w):
                return a
        if isinstance(a, Ptr):
            if a.obj != 0 and isinstance(b, int):
                sb = sgn(b, w)
                if b & (b + 1) == 0 and b < 4096:
                    return self.norm(T.imod(a.off, b + 1), w)
                if sb < 0 and (-sb) & (-sb - 1) == 0:
                    return Ptr(a.obj, imul(T.ifloordiv(a.off, -sb), -sb))
            raise Unsupported('bit-and of pointer')
        if isinstance(a, R):
            if b == (1 << 63) - 1:
                return T.rabs(a)
            raise Unsupported('bits of double')
        xa, xb = bits_of(a, w), bits_of(b, w)
        if xa is not None and xb is not None and not (isinstance(a, IP) and isinstance(b, IP)):
            out = []
            for x, y in zip(xa, xb):
                if x == 0 and type(x) is int or y == 0 and type(y) is int:
                    out.append(0)
                elif x == 1 and type(x) is int:
                    out.append(y)
                elif y == 1 and type(y) is int:
                    out.append(x)
                elif x is UNDEF or y is UNDEF:
                    out.append(UNDEF)
                else:
                    out.append(f_bit(f_and(x, y)))
            return mk_bits(out)
        if type(b) is int:
            v = self.as_ip(a)
            if b & (b + 1) == 0:
                if iiv(v)[0] < 0:
                    v = self.usg(st, v, w)
                return self.norm(T.imod(v, b + 1), w)
            sb = sgn(b, w)
            if sb < 0 and (-sb) & (-sb - 1) == 0:
                return self.norm(isub(v, T.imod(v, -sb)), w)
            # contiguous mask
            tz = (b & -b).bit_length() - 1
            m = b >> tz
            if m & (m + 1) == 0:
                v = self.usg(st, v, w)
                return self.norm(imul(T.imod(T.ifloordiv(v, 1 << tz), m + 1), 1 << tz), w)
        raise Unsupported('and %r %r' % (a, b))

    def op_or(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if type(a) is int and type(b) is int:
            fr.regs[ins.dst] = a | b
            return
        fr.regs[ins.dst] = self.i_or(st, a, b, w, ins)
    def i_or(self, st, a, b, w, ins=None):
        if isinstance(a, tuple):
            return tuple(self.i_or(st, x, y, ins.ty.el.w) for x, y in zip(a, b))
        if w == 1:
            if a == 1 and type(a) is int or b == 1 and type(b) is int:
                return 1
            if a is UNDEF or b is UNDEF:
                return UNDEF
            return f_bit(f_or(self.to_f(a), self.to_f(b)))
        if isinstance(a, IP) and isinstance(b, IP):
            p, q = boolish(a), boolish(b)
            if p is not None and q is not None:
                return T.iite(f_or(p, q), 1, 0)
        if type(a) is int:
            a, b = b, a
        if type(b) is int and b == 0:
            return a
        if isinstance(a, Ptr) and isinstance(b, int):
            if b < 16 and isinstance(a.off, int):
                return Ptr(a.obj, a.off | b)
        xa, xb = bits_of(a, w), bits_of(b, w)
        if xa is not None and xb is not None:
            out = []
            for x, y in zip(xa, xb):
                if x == 1 and type(x) is int or y == 1 and type(y) is int:
                    out.append(1)
                elif x == 0 and type(x) is int:
                    out.append(y)
                elif y == 0 and type(y) is int:
                    out.append(x)
                elif x is UNDEF or y is UNDEF:
                    out.append(UNDEF)
                else:
                    out.append(f_bit(f_or(x, y)))
            return mk_bits(out)
        # disjoint or == add when low bits are free
        a, b = self.as_ip(a), self.as_ip(b)
        for x, y in ((a, b), (b, a)):
            lo, hi = iiv(y)
            if lo >= 0 and hi < (1 << 62):
                k = int(hi).bit_length()
                if T.idivisible(x, 1 << k):
                    return self.norm(iadd(x, y), w)
        # the same, with the range known from the path condition only
        for x, y in ((a, b), (b, a)):
            for k in (32, 16, 8):
                if k < w and T.idivisible(x, 1 << k):
                    if self.decide(st, f_and(f_ile(0, y), f_ilt(y, 1 << k))):
                        return self.norm(iadd(x, y), w)
        raise Unsupported('or %r %r' % (a, b))

    def op_xor(self, st, fr, ins):
        a, b, w = self._bin(st, fr, ins)
        if type(a) is int and type(b) is int:
            fr.regs[ins.dst] = a ^ b
            return
        fr.regs[ins.dst] = self.i_xor(st, a, b, w, ins)
    def i_xor(self, st, a, b, w, ins=None):
        if isinstance(a, tuple):
            return tuple(self.i_xor(st, x, y, ins.ty.el.w) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if w == 1:
            return f_bit(T.f_xor(self.to_f(a), self.to_f(b)))
        if type(a) is int:
            a, b = b, a
        if type(b) is int and b == mask(w):
            if isinstance(a, Ptr) and a.obj != 0:
                return NPtr(a.obj, isub(-1, a.off))
            if isinstance(a, NPtr):
                return Ptr(a.obj, isub(-1, a.off))
            xa = bits_of(a, w) if isinstance(a, Bits) else None
            if xa is None:
                return self.norm(isub(-1, self.as_ip(a)), w)
        if isinstance(a, R) and b == 1 << 63:
            return rneg(a)
        xa, xb = bits_of(a, w), bits_of(b, w)
        if xa is not None and xb is not None:
            out = []
            for x, y in zip(xa, xb):
                if type(x) is int and type(y) is int:
                    out.append(x ^ y)
                elif x is UNDEF or y is UNDEF:
                    out.append(UNDEF)
                else:
                    out.append(f_bit(T.f_xor(bit_f(x), bit_f(y))))
            return mk_bits(out)
        raise Unsupported('xor %r %r' % (a, b))

    def op_icmp(self, st, fr, ins):
        a, b = fr.regs[ins.ops[0]], fr.regs[ins.ops[1]]
        ty = ins.y
        w = ty.w
        p = ins.x
        if type(a) is int and type(b) is int:
            fr.regs[ins.dst] = 1 if self.icmp_c(p, a, b, w) else 0
            return
        if isinstance(a, tuple):
            fr.regs[ins.dst] = tuple(self.icmp(st, p, x, y, ty.el.w) for x, y in zip(a, b))
            return
        fr.regs[ins.dst] = self.icmp(st, p, a, b, w)

    def icmp_c(self, p, a, b, w):
        if p == 'eq':
            return a == b
        if p == 'ne':
            return a != b
        if p[0] == 's':
            a, b = sgn(a, w), sgn(b, w)
        p = p[1:]
        return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b

    def icmp(self, st, p, a, b, w):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(b, NPtr) and not isinstance(a, NPtr):
            a, b = b, a
        if isinstance(a, NPtr):
            d = isub(a.off, self.sig(b, w)) if type(b) is int else None
            if p in ('eq', 'ne') and type(d) is int and abs(d) < 4096:
                return 0 if p == 'eq' else 1     # no object lives in the first page
            raise Unsupported('comparison of address arithmetic')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.icmp_ptr(st, p, a, b)
        if type(a) is int and type(b) is int:
            return 1 if self.icmp_c(p, a, b, w) else 0
        if w == 1:
            fa, fb = self.to_f(a), self.to_f(b)
            if p == 'eq':
                return f_bit(f_not(T.f_xor(fa, fb)))
            if p == 'ne':
                return f_bit(T.f_xor(fa, fb))
            # unsigned/signed order on i1
            na, nb = f_not(fa), f_not(fb)
            m = {'ult': f_and(na, fb), 'ugt': f_and(fa, nb), 'ule': f_or(na, fb), 'uge': f_or(fa, nb),
                 'slt': f_and(fa, nb), 'sgt': f_and(na, fb), 'sle': f_or(fa, nb), 'sge': f_or(na, fb)}
            return f_bit(m[p])
        if p in ('eq', 'ne'):
            if isinstance(a, R) or isinstance(b, R):
                if type(a) is int:
                    a = rfloat(struct.unpack('<d', struct.pack('<Q', a))[0])
                if type(b) is int:
                    b = rfloat(struct.unpack('<d', struct.pack('<Q', b))[0])
                f = f_req(a, b)
                return f_bit(f if p == 'eq' else f_not(f))
            if isinstance(a, Bits) or isinstance(b, Bits):
                xa, xb = bits_of(a, w), bits_of(b, w)
                if xa is None or xb is None:
                    raise Unsupported('bits compare')
                fs = []
                for x, y in zip(xa, xb):
                    if type(x) is int and type(y) is int:
                        if x != y:
                            return 0 if p == 'eq' else 1
                        continue
                    fs.append(f_not(T.f_xor(bit_f(x), bit_f(y))))
                f = f_and(*fs)
                return f_bit(f if p == 'eq' else f_not(f))
            ua, ub = self.sig(self.as_ip(a), w), self.sig(self.as_ip(b), w)
            d = isub(ua, ub)
            if isinstance(d, int):
                f = f_bool(d & mask(w) == 0)
                return f_bit(f if p == 'eq' else f_not(f))
            l = self.lift_iite(ua, ub, lambda x, y: f_ieq(x, y))
            lo, hi = d.iv()
            M = 1 << w
            if lo <= -M or hi >= M:
                ua, ub = self.usg(st, ua, w), self.usg(st, ub, w)
                f = f_ieq(ua, ub)
            elif l is not None:
                f = l
            else:
                f = f_ieq(d, 0)
            return f_bit(f if p == 'eq' else f_not(f))
        if isinstance(a, R) and b == 0 and type(b) is int or isinstance(a, R) and b == mask(64) and type(b) is int:
            # sign-bit tests on a double reinterpreted as integer
            if p == 'slt' and b == 0:
                return f_bit(f_rlt(a, ZERO))
            if p == 'sgt' and b == mask(64):
                return f_bit(f_not(f_rlt(a, ZERO)))
            raise Unsupported('bits of double')
        conv = self.ssg if p[0] == 's' else self.usg
        a, b = conv(st, a, w), conv(st, b, w)
        q = p[1:]
        fn = {'lt': lambda x, y: f_ilt(x, y), 'le': lambda x, y: f_ile(x, y), 'gt': lambda x, y: f_ilt(y, x), 'ge': lambda x, y: f_ile(y, x)}[q]
        l = self.lift_iite(a, b, fn)
        return f_bit(l if l is not None else fn(a, b))

    def lift_iite(self, a, b, fn):
        """comparison of ite(f,c1,c2)+c with a constant: resolve to a formula"""
        if isinstance(a, int):
            a, b = b, a
            g = fn
            fn = lambda x, y: g(y, x)
        if not isinstance(b, int) or isinstance(a, int):
            return None
        ms = [m for m in a.t if m]
        if len(ms) != 1 or len(ms[0]) != 1:
            return None
        at = T._iat_list[ms[0][0]]
        if at.kind != 'iite':
            return None
        x, y = at.args[1].const(), at.args[2].const()
        if x is None or y is None:
            return None
        c, c0 = a.t[ms[0]], a.c0()
        return f_ite(at.args[0], fn(c * x + c0, b), fn(c * y + c0, b))

    def icmp_ptr(self, st, p, a, b):
        if isinstance(a, int):
            a = Ptr(0, a)
        if isinstance(b, int):
            b = Ptr(0, b)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('pointer compare %r %r' % (a, b))
        if a.obj == b.obj:
            x, y = a.off, b.off
            q = p if p in ('eq', 'ne') else p[1:]
            f = {'eq': f_ieq(x, y), 'ne': f_not(f_ieq(x, y)), 'lt': f_ilt(x, y), 'le': f_ile(x, y), 'gt': f_ilt(y, x), 'ge': f_ile(y, x)}[q]
            return f_bit(f)
        if p == 'eq':
            return 0
        if p == 'ne':
            return 1
        # unrelated objects: null is smallest, otherwise allocation order (std::less on pointers is only used for overlap tests)
        ka = (0, 0) if a.obj == 0 else (1, a.obj if isinstance(a.obj, int) else 0)
        kb = (0, 0) if b.obj == 0 else (1, b.obj if isinstance(b.obj, int) else 0)
        q = p[1:]
        return 1 if (ka < kb if q in ('lt', 'le') else ka > kb) else 0

    # ------------------------------------------------------------------ casts
    def op_trunc(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        w = ins.ty.w
        if ins.ty.kind == 'vec':
            fr.regs[ins.dst] = tuple(self.trunc(st, x, ins.ty.el.w) for x in v)
            return
        fr.regs[ins.dst] = self.trunc(st, v, w)
    def trunc(self, st, v, w):
        if type(v) is int:
            return v & mask(w)
        if v is UNDEF:
            return v
        if w == 1:
            return f_bit(self.to_f(v))
        if isinstance(v, Bits):
            return mk_bits(v.b[:w])
        if isinstance(v, Ptr) and v.obj != 0:
            raise Unsupported('trunc pointer')
        return self.as_ip(v)
    def op_zext(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        if ins.ty.kind == 'vec':
            fr.regs[ins.dst] = tuple(self.zext(st, x, ins.y.el.w) for x in v)
            return
        fr.regs[ins.dst] = self.zext(st, v, ins.y.w)
    def zext(self, st, v, w):
        if type(v) is int or v is UNDEF:
            return v
        if isinstance(v, F):
            if self.forkint:
                return 1 if self.decide(st, v) else 0
            return T.iite(v, 1, 0)
        if isinstance(v, Bits):
            return v
        return self.usg(st, v, w)
    def op_sext(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        if ins.ty.kind == 'vec':
            fr.regs[ins.dst] = tuple(self.sext(st, x, ins.y.el.w, ins.ty.el.w) for x in v)
            return
        fr.regs[ins.dst] = self.sext(st, v, ins.y.w, ins.ty.w)
    def sext(self, st, v, w, w2):
        if type(v) is int:
            return sgn(v, w) & mask(w2)
        if v is UNDEF:
            return v
        if isinstance(v, F):
            return T.iite(v, -1, 0)
        return self.norm(self.ssg(st, v, w), w2)
    def op_bitcast(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        k = ins.ty.kind
        if v is UNDEF:
            fr.regs[ins.dst] = v
        elif k == 'double' and isinstance(v, int):
            fr.regs[ins.dst] = rfloat(struct.unpack('<d', struct.pack('<Q', v))[0])
        elif k == ins.y.kind or isinstance(v, (R, Ptr)):
            fr.regs[ins.dst] = v
        elif k == 'int' and ins.y.kind == 'vec' and all(isinstance(x, (int, F)) for x in v) and ins.y.el.w == 1:
            fr.regs[ins.dst] = mk_bits(list(v))
        else:
            raise Unsupported('bitcast')
    def op_ptrtoint(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        if isinstance(v, Ptr) and v.obj == 0:
            v = v.off
        fr.regs[ins.dst] = v
    def op_inttoptr(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        if not isinstance(v, Ptr) and v is not UNDEF:
            v = Ptr(0, v)
        fr.regs[ins.dst] = v
    def op_addrspacecast(self, st, fr, ins):
        fr.regs[ins.dst] = fr.regs[ins.ops[0]]
    def op_freeze(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        if v is UNDEF:
            raise Unsupported('freeze of undefined value')
        fr.regs[ins.dst] = v
    def op_sitofp(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        fr.regs[ins.dst] = UNDEF if v is UNDEF else T.rint(self.ssg(st, v, ins.y.w)) if not isinstance(v, F) else rite(v, rc(-1), ZERO)
    def op_uitofp(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        if isinstance(v, F):
            fr.regs[ins.dst] = rite(v, ONE, ZERO)
            return
        if isinstance(v, IP):
            b = boolish(v)
            if b is not None:
                fr.regs[ins.dst] = rite(b, ONE, ZERO)
                return
        fr.regs[ins.dst] = UNDEF if v is UNDEF else T.rint(self.usg(st, v, ins.y.w))
    def _fpto(self, st, fr, ins, signed):
        v = fr.regs[ins.ops[0]]
        w = ins.ty.w
        if v is UNDEF:
            fr.regs[ins.dst] = v
            return
        if v.op == 'c':
            fr.regs[ins.dst] = int(v.a[0]) & mask(w)
            return
        if v.op == 'toreal':
            fr.regs[ins.dst] = v.a[0]
            return
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
        f = f_and(f_rlt(rc(lo - 1), v), f_rlt(v, rc(hi + 1)))
        if f is not TRUE and not all(g in st.pcs for g in (f.a if f.op == 'and' else (f,))):
            if self.opts.get('fpto_safety', True):
                self.oblige(st, f, 'float to integer conversion in range', 'safety')
            else:
                st.assume(f)
                self.assumed['float to integer conversions are in range'] = 1
        fr.regs[ins.dst] = T.ip_atom(T.iatom('trunc', (v,), lo, hi))
    def op_fptosi(self, st, fr, ins):
        self._fpto(st, fr, ins, True)
    def op_fptoui(self, st, fr, ins):
        self._fpto(st, fr, ins, False)
    def op_fpext(self, st, fr, ins):
        fr.regs[ins.dst] = fr.regs[ins.ops[0]]
    op_fptrunc = op_fpext

    # ------------------------------------------------------------------ reals
    def _fbin(self, fr, ins, fn):
        a, b = fr.regs[ins.ops[0]], fr.regs[ins.ops[1]]
        if isinstance(a, tuple):
            fr.regs[ins.dst] = tuple(UNDEF if x is UNDEF or y is UNDEF else fn(x, y) for x, y in zip(a, b))
        elif a is UNDEF or b is UNDEF:
            fr.regs[ins.dst] = UNDEF
        else:
            fr.regs[ins.dst] = fn(a, b)
    def op_fadd(self, st, fr, ins):
        self._fbin(fr, ins, radd)
    def op_fsub(self, st, fr, ins):
        self._fbin(fr, ins, rsub)
    def op_fmul(self, st, fr, ins):
        self._fbin(fr, ins, rmul)
    def fdiv(self, st, a, b):
        if b.op in ('c',) and b.a[0] != 0 or b.op in ('inf', 'ninf', 'nan') or a.op == 'nan':
            return rdiv(a, b)
        f = f_not(f_req(b, ZERO))
        if f is FALSE:
            if a.op == 'c' and a.a[0] != 0:
                return T.PINF if a.a[0] > 0 else T.NINF
            if a.op == 'c':
                return T.NAN
            raise Unsupported('division by constant zero')
        if f not in st.pcs and f_rlt(ZERO, b) not in st.pcs and f_rlt(b, ZERO) not in st.pcs:
            q = self._nfquick(f_req(b, ZERO)) if not b.ite else None
            if q is not False:
                self.oblige(st, f, 'division by zero excluded', 'safety')
        return rdiv(a, b)
    def op_fdiv(self, st, fr, ins):
        self._fbin(fr, ins, lambda a, b: self.fdiv(st, a, b))
    def op_frem(self, st, fr, ins):
        self._fbin(fr, ins, lambda a, b: self.models.fmod(st, a, b))
    def op_fneg(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        fr.regs[ins.dst] = tuple(rneg(x) for x in v) if isinstance(v, tuple) else (UNDEF if v is UNDEF else rneg(v))
    def op_fcmp(self, st, fr, ins):
        a, b = fr.regs[ins.ops[0]], fr.regs[ins.ops[1]]
        if isinstance(a, tuple):
            fr.regs[ins.dst] = tuple(self.fcmp(ins.x, x, y) for x, y in zip(a, b))
            return
        fr.regs[ins.dst] = self.fcmp(ins.x, a, b)
    def fcmp(self, p, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if p == 'false':
            return 0
        if p == 'true':
            return 1
        nan = a.op == 'nan' or b.op == 'nan'
        for x in (a, b):
            if x.op == 'ite':
                if any(y.op == 'nan' for y in x.a[1:]):
                    o = b if x is a else a
                    f1 = self.fcmp(p, x.a[1], o) if x is a else self.fcmp(p, o, x.a[1])
                    f2 = self.fcmp(p, x.a[2], o) if x is a else self.fcmp(p, o, x.a[2])
                    return f_bit(f_ite(x.a[0], self.to_f(f1), self.to_f(f2)))
        if p == 'ord':
            return 0 if nan else 1
        if p == 'uno':
            return 1 if nan else 0
        if nan:
            return 1 if p[0] == 'u' else 0
        q = p[1:]
        f = {'eq': lambda: f_req(a, b), 'ne': lambda: f_not(f_req(a, b)), 'lt': lambda: f_rlt(a, b), 'le': lambda: f_rle(a, b),
             'gt': lambda: f_rlt(b, a), 'ge': lambda: f_rle(b, a)}[q]()
        return f_bit(f)

    def op_select(self, st, fr, ins):
        c, a, b = (fr.regs[o] for o in ins.ops)
        if isinstance(c, tuple):
            fr.regs[ins.dst] = tuple(self.select(st, x, y, z) for x, y, z in zip(c, a, b))
            return
        fr.regs[ins.dst] = self.select(st, c, a, b)
    def select(self, st, c, a, b):
        if type(c) is int:
            return a if c & 1 else b
        if c is UNDEF:
            if a is b:
                return a
            return UNDEF
        f = self.to_f(c)
        if f is TRUE:
            return a
        if f is FALSE:
            return b
        if isinstance(a, R) and isinstance(b, R):
            if a is b:
                return a
            if f in st.pcs:
                return a
            if f_not(f) in st.pcs:
                return b
            if T._special(a) or T._special(b):
                return a if self.decide(st, f) else b
            if f.op in ('req', 'rle', 'rlt') and not f.a[0].ite:
                q = self._nfquick(f)
                if q is not None:
                    return a if q else b
            elif f.op == 'not' and f.a[0].op in ('req', 'rle', 'rlt') and not f.a[0].a[0].ite:
                q = self._nfquick(f.a[0])
                if q is not None:
                    return b if q else a
            return rite(f, a, b)
        if isinstance(a, (int, IP)) and isinstance(b, (int, IP)):
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            if f in st.pcs:
                return a
            if f_not(f) in st.pcs:
                return b
            if self.forkint or isinstance(a, int) and a >> 62 & 1 or isinstance(b, int) and b >> 62 & 1:
                return a if self.decide(st, f) else b
            return T.iite(f, a, b)
        if isinstance(a, (int, F)) and isinstance(b, (int, F)):
            fa, fb = self.to_f(a), self.to_f(b)
            return f_bit(f_ite(f, fa, fb))
        if isinstance(a, Bits) or isinstance(b, Bits):
            w = max(len(x.b) for x in (a, b) if isinstance(x, Bits))
            xa, xb = bits_of(a, w), bits_of(b, w)
            if xa is not None and xb is not None:
                out = []
                for x, y in zip(xa, xb):
                    if x is y or (type(x) is int and type(y) is int and x == y):
                        out.append(x)
                    elif x is UNDEF or y is UNDEF:
                        out = None
                        break
                    else:
                        out.append(f_bit(f_ite(f, bit_f(x), bit_f(y))))
                if out is not None:
                    return mk_bits(out)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a == b:
            return a
        return a if self.decide(st, f) else b

    # ------------------------------------------------------------------ aggregates
    def op_extractvalue(self, st, fr, ins):
        v = fr.regs[ins.ops[0]]
        for i in ins.x:
            v = v[i]
        fr.regs[ins.dst] = v
    def op_insertvalue(self, st, fr, ins):
        agg, v = fr.regs[ins.ops[0]], fr.regs[ins.ops[1]]
        def put(a, ix):
            if not ix:
                return v
            l = list(a)
            l[ix[0]] = put(l[ix[0]], ix[1:])
            return tuple(l)
        if agg is UNDEF:
            agg = self.undef_of(ins.ty)
        fr.regs[ins.dst] = put(agg, ins.x)
    def undef_of(self, ty):
        if ty.kind == 'struct':
            return tuple(self.undef_of(e) for e in ty.els)
        if ty.kind in ('array', 'vec'):
            return tuple(self.undef_of(ty.el) for _ in range(ty.n))
        return UNDEF
    def op_extractelement(self, st, fr, ins):
        v, i = fr.regs[ins.ops[0]], fr.regs[ins.ops[1]]
        fr.regs[ins.dst] = v[i] if v is not UNDEF else UNDEF
    def op_insertelement(self, st, fr, ins):
        v, x, i = (fr.regs[o] for o in ins.ops)
        if v is UNDEF:
            v = self.undef_of(ins.ty)
        l = list(v)
        l[i] = x
        fr.regs[ins.dst] = tuple(l)
    def op_shufflevector(self, st, fr, ins):
        a, b = fr.regs[ins.ops[0]], fr.regs[ins.ops[1]]
        if a is UNDEF:
            a = self.undef_of(ins.y)
        if b is UNDEF:
            b = self.undef_of(ins.y)
        v = list(a) + list(b)
        fr.regs[ins.dst] = tuple(UNDEF if m < 0 else v[m] for m in ins.x)
    def op_atomicrmw(self, st, fr, ins):
        raise Unsupported('atomicrmw')
    def op_cmpxchg(self, st, fr, ins):
        raise Unsupported('cmpxchg')

def z3num(v):
    import z3
    if z3.is_rational_value(v):
        return float(v.numerator_as_long()) / float(v.denominator_as_long()) if v.denominator_as_long() != 0 else 0.0
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return float(a.numerator_as_long()) / float(a.denominator_as_long())
    return None
