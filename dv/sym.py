"""Symbolic executor for LLVM IR over the value domain of core.py; callees under contract are replaced by contracts."""
import re
from core import *
import llir
from llir import type_size, struct_offsets

class PathPanic(Exception):
    def __init__(self, what, where): self.what = what; self.where = where
class PathInfeasible(Exception): pass
class NeedFork(Exception): pass
class LoopRestart(Exception):
    def __init__(self, loop, writes): self.loop = loop; self.writes = writes
class ObligationFailed(Exception):
    def __init__(self, name, detail, info=None): self.name = name; self.detail = detail; self.info = info or {}

class Val:
    __slots__ = ('w','p','lo','hi')
    def __init__(self, w, p, lo, hi): self.w = w; self.p = p; self.lo = lo; self.hi = hi
    def __repr__(self): return 'i%d[%d,%d]#%d' % (self.w, self.lo, self.hi, len(self.p.t))
class Ptr:
    __slots__ = ('obj','off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return 'ptr(%s+%s)' % (self.obj.name if self.obj else 'null', self.off)
class FnPtr:
    __slots__ = ('sym',)
    def __init__(self, sym): self.sym = sym
class Undef: pass
UNDEF = Undef()

class Obj:
    __slots__ = ('name','size','cells','base','const','rel','writes','id','shared','align')
    def __init__(self, name, size):
        self.id = 0; self.shared = False; self.align = None
        self.name = name; self.size = size; self.cells = {}; self.base = None; self.const = False; self.rel = None; self.writes = 0

def cval(w, c):
    c &= (1 << w) - 1
    if w > 1 and c >> (w-1): c -= 1 << w
    return Val(w, pconst(c), c, c)

class SymPtr:
    """an address with a symbolic index: one of obj+offs[k], k = idx - idx.lo"""
    def __init__(self, obj, offs, idx): self.obj = obj; self.offs = offs; self.idx = idx
def mentions(x, reg):
    if isinstance(x, (tuple, list)): return any(mentions(y, reg) for y in x) if not (len(x) == 2 and x[0] == 'v') else x[1] == reg
    if isinstance(x, dict): return any(mentions(y, reg) for y in x.values())
    return False
class Exec:
    def __init__(self, mod, ctx, contracts=None, decisions=(), opts=None):
        self.mod = mod; self.ctx = ctx; self.contracts = contracts or {}
        self.decisions = list(decisions); self.dpos = 0; self.trace = []
        self.globals = {}; self.fnobj = {}
        self.depth = 0; self.steps = 0
        self.max_steps = 80_000_000
        self.branches = []          # locations of data-dependent branches / addresses
        self.havoc = {}             # symbol -> handler
        self.inlined = set()
        self.contracted = {}
        self.stack = []
        self.objcount = 0
        self.cur_line = 0
        self.noninline = set()
        self.wlog = None            # writes, if loops are cut (see _run)
        self.objs = []; self.cutsets = {}; self.addr = {}
        self.alignv = {}; self.publics = set()          # low address bits of the caller's memory
        self.synced = False; self.sharedw = set()       # an atomic read-modify-write was executed; mutable globals written

    # ---------------------------------------------------------------- objects
    def newobj(self, name, size):
        self.objcount += 1
        o = Obj(name, size); o.id = self.objcount
        if self.wlog is not None: self.objs.append(o)
        return o
    def globj(self, sym):
        o = self.globals.get(sym)
        if o is None:
            if self.mod.has(sym) or sym not in self.mod.glob: return None
            size, items, const = self.mod.global_init(sym)
            o = Obj('@'+sym, size); self.globals[sym] = o
            if not const:       # mutable: holds anything at the start of the operation, and other threads may write it at any time
                o.shared = 'thread_local' not in self.mod.glob[sym].split('global')[0]
                return o
            o.base = bytearray(size); o.const = True; o.rel = {}
            for it in items:
                if it[1] == 'bytes': o.base[it[0]:it[0]+len(it[2])] = it[2]
                else: o.rel[it[0]] = (it[2], it[3])
            self.globals[sym] = o
        return o
    def address(self, p):
        """a disjoint layout, for order comparisons and differences of pointers into different objects (overlap checks of core::ptr)"""
        if not isinstance(p.off, int): raise Unsupported('pointer comparison')
        if p.obj is None: return p.off
        return (self.addr.setdefault(p.obj, len(self.addr) + 1) << 40) + p.off
    def gptr(self, sym, off):
        if sym in self.mod.glob and not self.mod.has(sym):
            return Ptr(self.globj(sym), off)
        return FnPtr(sym)

    def where(self):
        return ' < '.join('%s:%d' % (f.demangled.split('::')[-1] if '<' not in f.demangled else f.demangled, 0) for f in self.stack[-1:]) + ' line %d' % self.cur_line

    # ---------------------------------------------------------------- exact readings
    def refine(self, v):
        lo, hi = self.ctx.pint(v.p)
        if lo > v.lo: v.lo = lo
        if hi < v.hi: v.hi = hi
        if v.lo > v.hi: raise PathInfeasible()
    def signed(self, v):
        """Val whose polynomial equals the signed reading"""
        h = 1 << (v.w - 1)
        if -h <= v.lo and v.hi < h: return v
        self.refine(v)
        if -h <= v.lo and v.hi < h: return v
        # reduce coefficients symmetrically
        M = 1 << v.w
        t = {}
        for m, c in v.p.t.items():
            c = (c + h) % M - h
            if c: t[m] = c
        p = Poly(t); lo, hi = self.ctx.pint(p)
        if -h <= lo and hi < h: return Val(v.w, p, lo, hi)
        if len(p.t) < len(v.p.t) or max(map(abs, p.t.values())) < max(map(abs, v.p.t.values())):
            v = Val(v.w, p, lo, hi)
        f = self.ctx.floor(padd(v.p, pconst(h)), M, v.lo + h, v.hi + h)
        p = psub(v.p, pscale(f, M))
        lo, hi = self.ctx.pint(p)
        self.ctx.add_fact(p, -h, h-1)
        return Val(v.w, p, max(lo, -h), min(hi, h-1))
    def unsigned(self, v):
        M = 1 << v.w
        if 0 <= v.lo and v.hi < M: return v
        self.refine(v)
        if 0 <= v.lo and v.hi < M: return v
        t = {}
        for m, c in v.p.t.items():
            c = c % M
            if c: t[m] = c
        p = Poly(t); lo, hi = self.ctx.pint(p)
        if 0 <= lo and hi < M: return Val(v.w, p, lo, hi)
        f = self.ctx.floor(v.p, M, v.lo, v.hi)
        p = psub(v.p, pscale(f, M))
        lo, hi = self.ctx.pint(p)
        self.ctx.add_fact(p, 0, M-1)
        return Val(v.w, p, max(lo, 0), min(hi, M-1))
    def mk(self, w, p, lo, hi):
        if p.is_const():
            return cval(w, p.const())
        return Val(w, p, lo, hi)
    def const_of(self, v):
        if isinstance(v, Val) and v.p.is_const(): return v.p.const() & ((1 << v.w) - 1)
        return None

    # ---------------------------------------------------------------- bit fields
    def bits(self, v, a, b):
        """polynomial of (v mod 2^b) - (v mod 2^a), i.e. bits [a,b) in place, as a nonnegative integer; b <= width"""
        ctx = self.ctx
        fa = ctx.floor(v.p, 1 << a, v.lo, v.hi)
        fb = ctx.floor(v.p, 1 << b, v.lo, v.hi)
        p = psub(pscale(fa, 1 << a), pscale(fb, 1 << b))
        lo, hi = 0, (1 << b) - (1 << a)
        if len(p.t) <= 64:
            l2, h2 = ctx.pint(p); lo, hi = max(lo, l2), min(hi, h2)
        return p, lo, hi
    def and_const(self, v, mask):
        w = v.w; mask &= (1 << w) - 1
        if mask == 0: return cval(w, 0)
        if mask == (1 << w) - 1: return v
        p, lo, hi = ZERO, 0, 0
        a = 0
        while a < w:
            if not (mask >> a) & 1: a += 1; continue
            b = a
            while b < w and (mask >> b) & 1: b += 1
            if b == w:
                s = self.signed(v)
                q = pscale(self.ctx.floor(s.p, 1 << a, s.lo, s.hi), 1 << a)
                l, h = (s.lo >> a) << a, (s.hi >> a) << a
            else: q, l, h = self.bits(v, a, b)
            p = padd(p, q); lo += l; hi += h
            a = b
        if lo >= 0: self.ctx.add_fact(p, lo, hi)
        return self.mk(w, p, lo, hi)

    def boolval(self, v):
        """v is known to be 0/1 (as i1 or by range): boolean polynomial or None"""
        if v.w == 1:
            u = self.unsigned(v)
            return self.ctx.boolify(u.p)
        if v.lo >= 0 and v.hi <= 1: return self.ctx.boolify(v.p)
        self.refine(v)
        if v.lo >= 0 and v.hi <= 1: return self.ctx.boolify(v.p)
        return None

    def op_and(self, a, b):
        w = a.w
        ca, cb = self.const_of(a), self.const_of(b)
        if ca is not None and cb is not None: return cval(w, ca & cb)
        if cb is not None: return self.and_const(a, cb)
        if ca is not None: return self.and_const(b, ca)
        if w == 1:
            return self.mkbool(self.ctx.pmul(self.boolval(a), self.boolval(b)))
        if a.p == b.p: return a
        for x, m in ((a, b), (b, a)):
            s = self.signed(m)
            if s.lo >= -1 and s.hi <= 0:
                mb = self.ctx.boolify(pneg(s.p))
                x = self.signed(x)
                p = self.ctx.pmul(mb, x.p)
                return self.mk(w, p, min(0, x.lo), max(0, x.hi))
            if s.lo >= 0 and s.hi <= 1:
                mb = self.ctx.boolify(s.p)
                lx = self.boolval(self.and_const(x, 1))
                return self.mk(w, self.ctx.pmul(mb, lx), 0, 1)
        # low-mask generated values: x & y where y = c*bool with c a constant
        for x, m in ((a, b), (b, a)):
            s = self.unsigned(m)
            cb = self.const_times_bool(s)
            if cb:
                c, mb = cb
                y = self.and_const(x, c)
                p = self.ctx.pmul(mb, y.p)
                return self.mk(w, p, min(0, y.lo), max(0, y.hi))
        a2, b2 = self.signed(a), self.signed(b)
        pz = self.product_zero(a2, b2)
        if pz: return cval(w, 0)
        if a2.lo >= 0 and b2.lo >= 0: lo, hi = 0, min(a2.hi, b2.hi)
        elif a2.lo >= 0: lo, hi = 0, a2.hi
        elif b2.lo >= 0: lo, hi = 0, b2.hi
        else: lo, hi = self.signed_span(a2, b2)
        na, nb = self.complement(a2), self.complement(b2)
        if na and nb:                         # ~x & ~y = ~(x | y)
            r = self.op_or(na, nb)
            return self.mk(w, psub(pconst(-1), r.p), -1 - r.hi, -1 - r.lo)
        if na or nb:                          # x & ~y = x - (x & y)
            x, y = (a2, nb) if nb else (b2, na)
            r = self.op_and(x, y)
            return self.fact(self.mk(w, psub(x.p, r.p), lo, hi))
        return Val(w, self.ctx.opaque('and', a2.p, b2.p, lo, hi), lo, hi)

    def complement(self, v):
        """the value x with v = ~x, if v is written that way"""
        if v.p.t.get(()) != -1: return None
        return self.mk(v.w, psub(pconst(-1), v.p), -1 - v.hi, -1 - v.lo)
    def fact(self, v):
        if not v.p.is_const(): self.ctx.add_fact(v.p, v.lo, v.hi)
        return v

    def signed_span(self, a, b):
        """bitwise combinations of values in [-2^k, 2^k - 1] stay there"""
        k = max(x.bit_length() for x in (~a.lo if a.lo < 0 else a.lo, ~b.lo if b.lo < 0 else b.lo, ~a.hi if a.hi < 0 else a.hi, ~b.hi if b.hi < 0 else b.hi))
        return -(1 << k), (1 << k) - 1
    def const_times_bool(self, v):
        """v.p == c * (boolean polynomial)?"""
        if not v.p.t or any(x not in self.ctx.bools for m in v.p.t for x in m): return None
        import math
        g = 0
        for c in v.p.t.values(): g = math.gcd(g, abs(c))
        q = Poly({m: c//g for m, c in v.p.t.items()})
        lo, hi = self.ctx.pint(q)
        if lo >= 0 and hi <= 1: return g, q
        if lo >= -1 and hi <= 0: return -g, pneg(q)
        return None
    def product_zero(self, a, b):
        ctx = self.ctx
        if not ctx.bools: return False
        ba = {x for m in a.p.t for x in m if x in ctx.bools}
        bb = {x for m in b.p.t for x in m if x in ctx.bools}
        if not (ba & bb): return False
        if len(a.p.t)*len(b.p.t) > 4096: return False
        return not ctx.pmul(a.p, b.p).t

    def op_or(self, a, b):
        w = a.w
        ca, cb = self.const_of(a), self.const_of(b)
        if ca is not None and cb is not None: return cval(w, ca | cb)
        if ca == 0: return b
        if cb == 0: return a
        if w == 1:
            x, y = self.boolval(a), self.boolval(b)
            return self.mkbool(psub(padd(x, y), self.ctx.pmul(x, y)))
        if a.p == b.p: return a
        d = self.disjoint(a, b)
        if d: return d
        if ca is not None or cb is not None:
            x, c = (b, ca) if ca is not None else (a, cb)
            y = self.and_const(x, ~c)
            return self.mk(w, padd(y.p, pconst(c if c < 1 << (w-1) else c - (1 << w))), y.lo + (c if c < 1 << (w-1) else c - (1 << w)), y.hi + (c if c < 1 << (w-1) else c - (1 << w)))
        a2, b2 = self.signed(a), self.signed(b)
        if a2.lo >= 0 and a2.hi <= 1 and b2.lo >= 0 and b2.hi <= 1:
            x, y = self.boolval(a2), self.boolval(b2)
            return self.mk(w, psub(padd(x, y), self.ctx.pmul(x, y)), 0, 1)
        if self.product_zero(a2, b2):
            p = padd(a2.p, b2.p)
            lo, hi = min(a2.lo, b2.lo, 0), max(a2.hi, b2.hi, 0)
            l2, h2 = self.ctx.pint(p)
            return self.mk(w, p, max(lo, l2), min(hi, h2))
        for x, y in ((a2, b2), (b2, a2)):
            if x.lo >= -1 and x.hi <= 0:      # mask or y = mask + (1-m) * y
                mb = self.ctx.boolify(pneg(x.p))
                p = psub(y.p, padd(mb, self.ctx.pmul(mb, y.p)))
                return self.mk(w, p, min(-1, y.lo), max(y.hi, -1))
            cb_ = self.const_times_bool(self.unsigned(x))
            if cb_:
                c, mb = cb_
                y2 = self.op_or(y, cval(w, c))
                # mb ? y|c : y
                p = padd(y.p, self.ctx.pmul(mb, psub(y2.p, y.p)))
                return self.mk(w, p, min(y.lo, y2.lo), max(y.hi, y2.hi))
        if a2.lo >= 0 and b2.lo >= 0:
            k = max(a2.hi, b2.hi).bit_length()
            lo, hi = max(a2.lo, b2.lo), (1 << k) - 1
        else: lo, hi = self.signed_span(a2, b2)
        na, nb = self.complement(a2), self.complement(b2)
        if na and nb:                         # ~x | ~y = ~(x & y)
            r = self.op_and(na, nb)
            return self.mk(w, psub(pconst(-1), r.p), -1 - r.hi, -1 - r.lo)
        if na or nb:                          # x | ~y = ~(y - (x & y))
            x, y = (a2, nb) if nb else (b2, na)
            r = self.op_and(x, y)
            return self.fact(self.mk(w, padd(psub(r.p, y.p), pconst(-1)), lo, hi))
        return Val(w, self.ctx.opaque('or', a2.p, b2.p, lo, hi), lo, hi)

    def pow2div(self, p):
        """largest k with 2^k dividing every coefficient"""
        g = 0
        for c in p.t.values(): g |= c & -c if c else 0
        return (g & -g).bit_length() - 1 if g else 200
    def disjoint(self, a, b):
        """if one operand is a multiple of 2^k and the other lies in [0,2^k): the sum"""
        for x, y in ((a, b), (b, a)):
            k = min(self.pow2div(x.p), x.w)
            if k == 0: continue
            if not (y.lo >= 0 and y.hi < (1 << k)): self.refine(y)
            if y.lo >= 0 and y.hi < (1 << k):
                p = padd(x.p, y.p)
                lo, hi = x.lo + y.lo, x.hi + y.hi
                return self.mk(x.w, p, lo, hi)
        return None

    def op_xor(self, a, b):
        w = a.w
        ca, cb = self.const_of(a), self.const_of(b)
        if ca is not None and cb is not None: return cval(w, ca ^ cb)
        if a.p == b.p: return cval(w, 0)
        if ca == 0: return b
        if cb == 0: return a
        if w == 1:
            x, y = self.boolval(a), self.boolval(b)
            return self.mkbool(psub(padd(x, y), pscale(self.ctx.pmul(x, y), 2)))
        full = (1 << w) - 1
        if ca == full or cb == full:
            x = self.signed(b if ca == full else a)
            return self.mk(w, psub(pconst(-1), x.p), -1 - x.hi, -1 - x.lo)
        y = self.op_and(a, b)
        a, b, y = self.signed(a), self.signed(b), self.signed(y)
        if len(y.p.t) == 1:
            (m, c), = y.p.t.items()
            if len(m) == 1 and self.ctx.atoms[m[0]].kind == OPQ:
                if a.lo >= 0 and b.lo >= 0: lo, hi = 0, (1 << max(a.hi, b.hi).bit_length()) - 1
                else: lo, hi = self.signed_span(a, b)
                return Val(w, self.ctx.opaque('xor', a.p, b.p, lo, hi), lo, hi)
        p = psub(padd(a.p, b.p), pscale(y.p, 2))
        lo, hi = self.ctx.pint(p)
        return self.mk(w, p, max(lo, -(1 << (w-1))), min(hi, (1 << (w-1)) - 1))

    def mkbool(self, p):
        p = self.ctx.apply_known(p)
        if p.is_const(): return Val(1, p, p.const(), p.const())
        return Val(1, p, 0, 1)

    def arith(self, op, a, b):
        w = a.w
        if op == 'add':
            p = padd(a.p, b.p); lo, hi = a.lo + b.lo, a.hi + b.hi
            if len(p.t) < len(a.p.t) + len(b.p.t) - 1 and len(p.t) <= 64:
                l2, h2 = self.ctx.pint(p); lo, hi = max(lo, l2), min(hi, h2)
            return self.mk(w, p, lo, hi)
        if op == 'sub':
            p = psub(a.p, b.p); lo, hi = a.lo - b.hi, a.hi - b.lo
            if len(p.t) < len(a.p.t) + len(b.p.t) - 1 and len(p.t) <= 64:
                l2, h2 = self.ctx.pint(p); lo, hi = max(lo, l2), min(hi, h2)
            return self.mk(w, p, lo, hi)
        if op == 'mul':
            p = self.ctx.pmul(a.p, b.p)
            c = (a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi)
            lo, hi = min(c), max(c)
            if a.p == b.p and lo < 0: lo = 0
            return self.mk(w, p, lo, hi)
        raise Unsupported(op)

    def bin(self, op, a, b, flags=()):
        if not isinstance(a, Val) or not isinstance(b, Val):
            if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported('undefined operand')
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                return cval(64, a.off - b.off)
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr): return cval(64, self.address(a) - self.address(b))
            if op == 'and' and isinstance(a, Ptr) and self.const_of(b) is not None and self.const_of(b) < 16 and isinstance(a.off, int):
                m = self.const_of(b)
                if a.obj is None or a.obj.align is None or m < a.obj.align: return cval(64, a.off & m)
                # memory of the caller: any address that has the alignment of its type
                r = self.alignv.get(a.obj)
                if r is None:
                    q = self.ctx.fresh('align', 0, 16//a.obj.align - 1); self.publics |= {v for k in q.t for v in k}
                    r = self.alignv[a.obj] = pscale(q, a.obj.align)
                p = padd(r, pconst(a.off % 16))
                return self.op_and(self.mk(64, p, *self.ctx.pint(p)), b)
            raise Unsupported('pointer arithmetic ' + op)
        w = a.w
        if op in ('add','sub','mul'):
            if w == 1: return self.op_xor(a, b) if op != 'mul' else self.op_and(a, b)
            r = self.arith(op, a, b)
            return r
        if op == 'and': return self.op_and(a, b)
        if op == 'or': return self.op_or(a, b)
        if op == 'xor': return self.op_xor(a, b)
        cb = self.const_of(b)
        if op in ('shl','lshr','ashr'):
            if cb is None:
                cb = self.concretize(b, 'shift amount')
            if cb >= w: raise Unsupported('shift amount')
            if op == 'shl':
                return self.mk(w, pscale(a.p, 1 << cb), a.lo << cb, a.hi << cb)
            if cb == w - 1:                   # the sign of x | y, x & y, x ^ y
                sb = self.ctx.opaque_sign(self.signed(a).p)
                if sb is not None: return self.mk(w, sb if op == 'lshr' else pneg(sb), 0 if op == 'lshr' else -1, 1 if op == 'lshr' else 0)
            x = self.signed(a) if op == 'ashr' else self.unsigned(a)
            p = self.ctx.floor(x.p, 1 << cb, x.lo, x.hi)
            lo, hi = x.lo >> cb, x.hi >> cb
            self.ctx.add_fact(p, lo, hi)
            return self.mk(w, p, lo, hi)
        if op in ('udiv','urem','sdiv','srem'):
            ca = self.const_of(a)
            if cb == 0: raise PathPanic('division by zero', self.where())
            if ca is not None and cb is not None:
                if op[0] == 's':
                    sa = ca - (1 << w) if ca >> (w-1) else ca; sb = cb - (1 << w) if cb >> (w-1) else cb
                    q = abs(sa)//abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                    return cval(w, q if op == 'sdiv' else sa - q*sb)
                return cval(w, ca//cb if op == 'udiv' else ca % cb)
            if cb is None:
                cb = self.concretize(b, 'divisor')
                return self.bin(op, a, cval(w, cb))
            x = self.unsigned(a) if op[0] == 'u' else self.signed(a)
            if op[0] == 's':
                self.refine(x)
                neg = bool(cb >> (w-1)); cb = (1 << w) - cb if neg else cb
                if x.lo < 0 or neg:           # truncation towards zero: floor((x + (c-1) [x < 0]) / c)
                    s = self.ctx.ltzero(x.p)
                    q = self.ctx.floor(padd(x.p, pscale(s, cb - 1)), cb)
                    lo, hi = -(-x.lo // cb) if x.lo < 0 else x.lo // cb, x.hi // cb if x.hi >= 0 else -(-x.hi // cb)
                    if op == 'sdiv':
                        return self.mk(w, pneg(q), -hi, -lo) if neg else self.mk(w, q, lo, hi)
                    return self.fact(self.mk(w, psub(x.p, pscale(q, cb)), max(1 - cb, min(x.lo, 0)), min(cb - 1, max(x.hi, 0))))
            q = self.ctx.floor(x.p, cb, x.lo, x.hi)
            if op in ('udiv','sdiv'): return self.mk(w, q, x.lo//cb, x.hi//cb)
            p = psub(x.p, pscale(q, cb))
            lo, hi = self.ctx.pint(p)
            self.ctx.add_fact(p, 0, cb-1)
            return self.mk(w, p, max(lo, 0), min(hi, cb-1))
        raise Unsupported(op)

    def overflow(self, op, signed, a, b):
        w = a.w
        a, b = (self.signed(a), self.signed(b)) if signed else (self.unsigned(a), self.unsigned(b))
        r = self.arith(op, a, b)
        L, H = (-(1 << (w-1)), (1 << (w-1)) - 1) if signed else (0, (1 << w) - 1)
        lo, hi = r.lo, r.hi
        if r.p.is_const():      # exact value, mk() wrapped it
            p = {'add': padd, 'sub': psub, 'mul': self.ctx.pmul}[op](a.p, b.p)
            c = p.const()
            return r, self.mkbool(pconst(0 if L <= c <= H else 1))
        if L <= lo and hi <= H:
            self.ctx.ok('no arithmetic overflow', 'interval')
            return r, self.mkbool(ZERO)
        self.refine(a); self.refine(b)
        r = self.arith(op, a, b); self.refine(r)
        if L <= r.lo and r.hi <= H:
            self.ctx.ok('no arithmetic overflow', 'interval')
            return r, self.mkbool(ZERO)
        if r.lo > H or r.hi < L: return r, self.mkbool(pconst(1))
        # undecided by intervals: exact test as a boolean
        over = self.ctx.ltzero(psub(pconst(H), r.p)) if r.hi > H else ZERO
        under = self.ctx.ltzero(psub(r.p, pconst(L))) if r.lo < L else ZERO
        return r, self.mkbool(padd(over, under))

    def icmp(self, pred, a, b):
        ctx = self.ctx
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, Val) and self.const_of(a) is not None: a = Ptr(None, self.const_of(a))
            if isinstance(b, Val) and self.const_of(b) is not None: b = Ptr(None, self.const_of(b))
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                if isinstance(a, FnPtr) and isinstance(b, FnPtr): e = a.sym == b.sym
                elif isinstance(a, Ptr) and a.obj is None or isinstance(b, Ptr) and b.obj is None: e = False
                else: raise Unsupported('function pointer comparison')
                return self.mkbool(pconst(int(e == (pred == 'eq'))))
            if a.obj is b.obj:
                x, y = a.off, b.off
                r = {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
                return self.mkbool(pconst(int(r)))
            if pred in ('eq','ne'): return self.mkbool(pconst(int(pred == 'ne')))
            x, y = self.address(a), self.address(b)
            return self.mkbool(pconst(int({'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred])))
        w = a.w
        if w == 1:
            x, y = self.boolval(a), self.boolval(b)
            ne = psub(padd(x, y), pscale(ctx.pmul(x, y), 2))
            if pred == 'ne': return self.mkbool(ne)
            if pred == 'eq': return self.mkbool(psub(pconst(1), ne))
            if pred == 'ult': return self.mkbool(ctx.pmul(psub(pconst(1), x), y))
            raise Unsupported('i1 icmp ' + pred)
        if pred in ('eq','ne'):
            if a.p == b.p: e = pconst(1)
            else:
                ua = ub = None
                if 0 <= a.lo and 0 <= b.lo: x, y = self.unsigned(a), self.unsigned(b)
                else: x, y = self.signed(a), self.signed(b)
                d = psub(x.p, y.p)
                if x.hi < y.lo or y.hi < x.lo: e = ZERO
                else: e = ctx.eqzero(d)
            return self.mkbool(e if pred == 'eq' else psub(pconst(1), e))
        s = pred[0] == 's'
        x, y = (self.signed(a), self.signed(b)) if s else (self.unsigned(a), self.unsigned(b))
        k = pred[1:]
        if k == 'gt': x, y, k = y, x, 'lt'
        elif k == 'ge': x, y, k = y, x, 'le'
        if k == 'lt':
            if x.hi < y.lo: return self.mkbool(pconst(1))
            if x.lo >= y.hi: return self.mkbool(ZERO)
            return self.mkbool(ctx.ltzero(psub(x.p, y.p)))
        if x.hi <= y.lo: return self.mkbool(pconst(1))
        if x.lo > y.hi: return self.mkbool(ZERO)
        return self.mkbool(psub(pconst(1), ctx.ltzero(psub(y.p, x.p))))

    def cast(self, op, v, t1, t2):
        if op in ('bitcast','freeze'): return v
        if op == 'ptrtoint': return v
        if op == 'inttoptr':
            if isinstance(v, (Ptr, FnPtr)): return v
            c = self.const_of(v)
            if c is None: raise Unsupported('inttoptr of a symbolic value')
            return Ptr(None, c)
        if isinstance(v, (Ptr, FnPtr)): raise Unsupported('cast of a pointer')
        if isinstance(v, Undef): return v
        w2 = int(t2[1:])
        if op == 'trunc':
            c = self.const_of(v)
            if c is not None: return cval(w2, c)
            if w2 == 1:
                x = self.and_const(v, 1)
                return self.mkbool(self.ctx.boolify(x.p)) if not x.p.is_const() else self.mkbool(pconst(x.p.const()))
            return Val(w2, v.p, v.lo, v.hi)
        x = self.unsigned(v) if op == 'zext' else self.signed(v)
        if v.w == 1 and op == 'sext':
            b = self.boolval(v); return self.mk(w2, pneg(b), -1, 0)
        return self.mk(w2, x.p, x.lo, x.hi)

    # ---------------------------------------------------------------- decisions
    def decide(self, p, what='branch'):
        """p boolean polynomial -> 0/1, forking if needed"""
        ctx = self.ctx
        p = ctx.apply_known(p)
        if p.is_const(): return p.const()
        lo, hi = ctx.pint(p)
        if lo == hi: return lo
        loc = self.where()
        if self.dpos < len(self.decisions):
            d = self.decisions[self.dpos]; self.dpos += 1
            if d >= 2:      # forced (see below)
                self.trace.append((d, loc, what)); self.assume(p, d - 2); return d - 2
        else:
            # is each outcome possible?  (an impossible one is no fork: the decision is forced)
            import lia
            for d in (0, 1):
                ctx.path.append((p, d))
                r = lia.feasible(ctx, timeout=10)[0]
                ctx.path.pop()
                if r == 'unsat':
                    ctx.ok('branch outcome impossible', 'solver')
                    self.decisions.append(3 - d); self.dpos += 1
                    self.trace.append((3 - d, loc, what))
                    self.assume(p, 1 - d); return 1 - d
            d = 0
            self.decisions.append(0); self.dpos += 1
        self.trace.append((d, loc, what))
        if not self.public(p): self.branches.append((loc, what))
        self.assume(p, d)
        return d
    def public(self, p):
        """does p depend on nothing but the alignment of the caller's memory?"""
        if not self.publics: return False
        def ok(v, n=0):
            if v in self.publics: return True
            a = self.ctx.atoms[v]
            q = a.data[0] if a.kind == FLOOR else a.data if a.kind in (BOOL, EQ) else None
            return isinstance(q, Poly) and n < 20 and all(ok(x, n + 1) for m in q.t for x in m)
        return all(ok(v) for m in p.t for v in m)
    def assume(self, p, d):
        ctx = self.ctx
        ctx.path.append((p, d))
        if len(p.t) <= 2:
            ms = [m for m in p.t if m]
            if len(ms) == 1 and len(ms[0]) == 1:
                c = p.t[ms[0]]; k = p.t.get((), 0)
                val = (d - k)//c
                a = ctx.atoms[ms[0][0]]
                ctx.known[a.id] = val
                if a.kind == EQ:
                    if val == 1: ctx.add_fact(a.data, 0, 0)
                    else:
                        lo, hi = ctx.pint(a.data)
                        if lo == 0: ctx.add_fact(a.data, 1, hi)
                        elif hi == 0: ctx.add_fact(a.data, lo, -1)
                elif a.kind == BOOL:
                    q = a.data
                    ctx.add_fact(q, val, val)
                    # q = c0 + c1*floor(x/K): bound x
                    mm = [m for m in q.t if m]
                    if len(mm) == 1 and len(mm[0]) == 1:
                        fa = ctx.atoms[mm[0][0]]
                        if fa.kind == FLOOR and q.t[mm[0]] in (1, -1):
                            fv = (val - q.t.get((), 0))*q.t[mm[0]]
                            x, K = fa.data
                            lo, hi = ctx.pint(x)
                            lo, hi = max(lo, fv*K), min(hi, fv*K + K - 1)
                            if lo > hi: raise PathInfeasible()
                            ctx.add_fact(x, lo, hi)
                    if val in (0, 1) and not any(len(m) > 1 for m in q.t):
                        lo, hi = ctx.pint(q)
                        if lo > val or hi < val: raise PathInfeasible()
    def concretize(self, v, what='address'):
        """value of v as an unsigned concrete integer, forking over its range"""
        c = self.const_of(v)
        if c is not None: return c
        u = self.unsigned(v); self.refine(u)
        if u.hi - u.lo > 1024:
            for i in sorted({i for m in u.p.t for i in m})[:6]:     # one of a few values, told apart by conditions
                if (self.ctx.atoms[i].lo, self.ctx.atoms[i].hi) == (0, 1): self.decide(Poly({(i,): 1}), what)
            p = self.ctx.apply_known(u.p)
            if p.is_const(): return p.const() & ((1 << v.w) - 1)
            self.branches.append((self.where(), what))
            raise Unsupported('symbolic value where a concrete one is needed')
        for k in range(u.lo, u.hi):
            e = self.icmp('eq', u, cval(v.w, k))
            if self.decide(e.p, what): return k
        return u.hi

    # ---------------------------------------------------------------- loads at a symbolic index
    def symbolic_gep(self, f, code, ins, env, base):
        """an address with one symbolic index that is only used by loads in the same block -> SymPtr, else None"""
        if not isinstance(base, Ptr) or base.obj is None or not isinstance(base.off, int): return None
        key = (f, ins[1]); ok = self.mod.only_loaded.get(key)
        if ok is None:
            uses = sum(1 for b in f.blocks.values() for i in b if i is not ins and mentions(i, ins[1]))
            ok = self.mod.only_loaded[key] = uses > 0 and uses == sum(1 for i in code if i[0] == 'load' and i[4] == ('v', ins[1]) and i[3][0] == 'i')
        if not ok: return None
        vals, sym = [], None
        for t, o in ins[5]:
            c = o[1] if o[0] == 'c' else self.const_of(env[o[1]])
            if c is None:
                if sym is not None: return None
                sym = (len(vals), env[o[1]])
            elif o[0] != 'c' and c >> (env[o[1]].w - 1): c -= 1 << env[o[1]].w
            vals.append(c)
        u = self.unsigned(sym[1]); self.refine(u)
        if u.hi - u.lo > 255 or u.hi >> 31: return None
        offs = []
        for k in range(u.lo, u.hi + 1):
            vals[sym[0]] = k; offs.append(base.off + self.mod.gep_const(ins[3], vals))
        if min(offs) < 0 or max(offs) >= base.obj.size: return None
        self.branches.append((self.where(), 'address'))
        return SymPtr(base.obj, offs, u)
    def table_load(self, sp, ty):
        xs = [self.load(Ptr(sp.obj, o), ty) for o in sp.offs]
        i = sp.idx; cs = [self.const_of(x) for x in xs]
        if None not in cs: 
            return Val(xs[0].w, self.ctx.lookup(i.p, i.lo, cs), min(cs), max(cs))
        xs = [self.signed(x) for x in xs]; p = ZERO
        for k, x in enumerate(xs): p = padd(p, self.ctx.pmul(self.ctx.eqzero(psub(i.p, pconst(i.lo + k))), x.p))
        return Val(xs[0].w, p, min(x.lo for x in xs), max(x.hi for x in xs))

    # ---------------------------------------------------------------- memory
    def load(self, ptr, ty):
        if not isinstance(ptr, Ptr) or ptr.obj is None: raise Unsupported('load through non-object pointer')
        if ty[0] in '{[<':
            if ty[0] == '[':
                m = re.match(r'\[(\d+) x (.*)\]$', ty); n, et = int(m.group(1)), m.group(2); es = type_size(et)
                return [self.load(Ptr(ptr.obj, ptr.off + i*es), et) for i in range(n)]
            return [self.load(Ptr(ptr.obj, ptr.off + o), e) for o, e in struct_offsets(ty)]
        o, off = ptr.obj, ptr.off
        if not isinstance(off, int): raise Unsupported('symbolic address')
        n = type_size(ty)
        if off < 0 or off + n > o.size: raise ObligationFailed('memory access in bounds', 'load %s+%d size %d' % (o.name, off, o.size))
        if o.shared and not self.synced: self.clear(o, off, n)      # another thread executing the same code may have written it since
        c = o.cells.get(off)
        w = 64 if ty == 'ptr' else int(ty[1:])
        if c is not None and c[0] == n:
            v = c[1]
            if isinstance(v, Val):
                if ty == 'ptr':
                    k = self.const_of(v)
                    if k is None: raise Unsupported('pointer from data')
                    return Ptr(None, k)
                if v.w == w: return v
                if w < v.w: return self.cast('trunc', v, '', 'i%d' % w)
                return self.cast('zext', v, '', 'i%d' % w)
            return v
        if o.base is not None and not any(k < off + n and k + cc[0] > off for k, cc in o.cells.items()):
            if o.rel and off in o.rel:
                s, a = o.rel[off]
                return self.gptr(s, a)
            v = int.from_bytes(o.base[off:off+n], 'little')
            if ty == 'ptr': return Ptr(None, v)
            return cval(w, v)
        if ty == 'ptr':
            if o.base is None and not any(k < off + n and k + cc[0] > off for k, cc in o.cells.items()): return UNDEF     # never written; any use is rejected
            raise Unsupported('partial pointer read')
        if o.base is None and w == 8*n and n <= 8 and not any(k < off + n and k + cc[0] > off for k, cc in o.cells.items()):
            v = Val(w, self.ctx.fresh('undef', -(1 << (w-1)), (1 << (w-1)) - 1), -(1 << (w-1)), (1 << (w-1)) - 1)
            o.cells[off] = (n, v); return v     # uninitialised memory: an arbitrary value
        # assemble from bytes
        p, lo, hi = ZERO, 0, 0
        i = 0
        while i < n:
            b, sz = self.piece(o, off + i, n - i)
            u = self.unsigned(b)
            p = padd(p, pscale(u.p, 1 << (8*i))); lo += u.lo << (8*i); hi += u.hi << (8*i)
            i += sz
        r = self.mk(8*n, p, lo, hi)
        return r if 8*n == w else self.cast('trunc', r, '', 'i%d' % w)
    def piece(self, o, off, maxn):
        """largest available piece at off (unsigned Val, size)"""
        c = o.cells.get(off)
        if c is not None and c[0] <= maxn:
            if not isinstance(c[1], Val): raise Unsupported('partial read of a pointer')
            v = c[1]
            return (Val(8*c[0], v.p, v.lo, v.hi) if v.w != 8*c[0] else v), c[0]
        for k, cc in o.cells.items():
            if k <= off < k + cc[0]:
                if not isinstance(cc[1], Val): raise Unsupported('partial read of a pointer')
                a = off - k
                sz = min(cc[0] - a, maxn)
                x = cc[1]
                q, l, h = self.bits(Val(8*cc[0], x.p, x.lo, x.hi), 8*a, 8*(a+sz))
                return self.mk(8*sz, Poly({m: cf >> (8*a) for m, cf in q.t.items()}), l >> (8*a), h >> (8*a)), sz
        if o.base is not None:
            return cval(8, o.base[off]), 1
        # uninitialised memory: an arbitrary byte
        v = Val(8, self.ctx.fresh('undef', 0, 255), 0, 255)
        o.cells[off] = (1, v)
        return v, 1
    def clear(self, o, off, n):
        hit = [k for k in o.cells if k < off + n and k + o.cells[k][0] > off] if len(o.cells) < 24 or n > 8 else \
              [k for k in range(off - 15, off + n) if k in o.cells and k + o.cells[k][0] > off]
        for k in hit:
            sz, v = o.cells[k]
            if k >= off and k + sz <= off + n: del o.cells[k]; continue
            if not isinstance(v, Val): raise Unsupported('partial overwrite of a pointer')
            pieces = []
            for i in range(sz):
                if not (off <= k + i < off + n): 
                    b, _ = self.piece(o, k + i, 1); pieces.append((k + i, b))
            del o.cells[k]
            for q, b in pieces: o.cells[q] = (1, b)
    def store(self, ptr, v, ty):
        if not isinstance(ptr, Ptr) or ptr.obj is None: raise Unsupported('store through non-object pointer')
        if isinstance(v, list):
            if ty[0] == '[':
                m = re.match(r'\[(\d+) x (.*)\]$', ty); et = m.group(2); es = type_size(et)
                for i, x in enumerate(v): self.store(Ptr(ptr.obj, ptr.off + i*es), x, et)
            else:
                for (o, e), x in zip(struct_offsets(ty), v): self.store(Ptr(ptr.obj, ptr.off + o), x, e)
            return
        o, off = ptr.obj, ptr.off
        if not isinstance(off, int): raise Unsupported('symbolic address')
        n = type_size(ty)
        if o.const: raise ObligationFailed('no write to constant memory', o.name)
        if off < 0 or off + n > o.size: raise ObligationFailed('memory access in bounds', 'store %s+%d size %d' % (o.name, off, o.size))
        if o.shared: self.sharedw.add(o.name)
        o.writes += 1
        if self.wlog is not None: self.wlog.append((o, off, n))
        c = o.cells.get(off)
        if c is None or c[0] != n: self.clear(o, off, n)
        if isinstance(v, Undef):
            o.cells.pop(off, None); return
        if isinstance(v, Val) and v.w == 1: v = Val(8, v.p, v.lo, v.hi)
        o.cells[off] = (n, v)
    def memcpy(self, d, s, n):
        if n == 0: return
        so, do = s.obj, d.obj
        if so is None or do is None: raise Unsupported('memcpy through non-object pointer')
        if s.off < 0 or s.off + n > so.size or d.off < 0 or d.off + n > do.size:
            raise ObligationFailed('memory access in bounds', 'memcpy')
        if do.const: raise ObligationFailed('no write to constant memory', do.name)
        if so.shared and not self.synced: self.clear(so, s.off, n)
        if do.shared: self.sharedw.add(do.name)
        new = []
        for k, (sz, v) in list(so.cells.items()):
            if k + sz <= s.off or k >= s.off + n: continue
            if k >= s.off and k + sz <= s.off + n: new.append((k - s.off, sz, v))
            else:
                for i in range(sz):
                    if s.off <= k + i < s.off + n:
                        b, _ = self.piece(so, k + i, 1); new.append((k + i - s.off, 1, b))
        base = []
        if so.base is not None:
            cov = set()
            for k, sz, v in new: cov.update(range(k, k + sz))
            i = 0
            while i < n:
                if i in cov: i += 1; continue
                if so.rel and s.off + i in so.rel:
                    sy, a = so.rel[s.off + i]; base.append((i, 8, self.gptr(sy, a))); i += 8; continue
                step = 8 if (i % 8 == 0 and i + 8 <= n and not any(j in cov for j in range(i, i+8)) and not (so.rel and any(s.off + j in so.rel for j in range(i+1, i+8)))) else 1
                base.append((i, step, cval(8*step, int.from_bytes(so.base[s.off+i:s.off+i+step], 'little')))); i += step
        self.clear(do, d.off, n)
        do.writes += 1
        if self.wlog is not None: self.wlog.append((do, d.off, n))
        for k, sz, v in new: do.cells[d.off + k] = (sz, v)
        for k, sz, v in base: do.cells[d.off + k] = (sz, v)

    # ---------------------------------------------------------------- running
    def op(self, env, o, ty=None):
        k = o[0]
        if k == 'v': return env[o[1]]
        if k == 'c':
            if ty is None: raise Unsupported('untyped constant')
            return cval(int(ty[1:]), o[1])
        if k == 'g': return self.gptr(o[1], o[2])
        if k == 'null': return Ptr(None, 0)
        if k == 'intptr': return Ptr(None, o[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero_of(o[1])
        if k == 'agg': return [self.op(env, x, t) for t, x in o[1]]
        raise Unsupported('operand %r' % (o,))
    def zero_of(self, ty):
        if ty == 'ptr': return Ptr(None, 0)
        if ty[0] == 'i': return cval(int(ty[1:]), 0)
        if ty[0] == '[':
            m = re.match(r'\[(\d+) x (.*)\]$', ty); return [self.zero_of(m.group(2)) for _ in range(int(m.group(1)))]
        return [self.zero_of(e) for _, e in struct_offsets(ty)]

    def call(self, sym, args):
        h = self.havoc.get(sym)
        if h is not None: return h(self, args)
        c = self.contracts.get(sym)
        if c is not None and sym not in self.noninline:
            self.contracted[c.name] = self.contracted.get(c.name, 0) + 1
            return c.apply(self, args)
        if not self.mod.has(sym): return self.external(sym, args)
        self.depth += 1
        if self.depth > 1200: raise Unsupported('call depth')
        self.inlined.add(sym)
        try: return self.run(self.mod.func(sym), args)
        finally: self.depth -= 1

    def external(self, sym, args):
        d = self.mod.demangled.get(sym, sym)
        if sym in self.mod.decl_noreturn or 'panic' in d or d.startswith('core::panicking') or 'fail' in d.split('::')[-1]:
            raise PathPanic(d, self.where())
        if sym in ('memcmp', 'bcmp'):
            n = self.concretize(args[2])
            e = pconst(1)
            i = 0
            while i < n:
                st = 8 if i % 8 == 0 and i + 8 <= n else 1
                t = 'i%d' % (8*st)
                x = self.load(Ptr(args[0].obj, args[0].off+i), t); y = self.load(Ptr(args[1].obj, args[1].off+i), t)
                e = self.ctx.pmul(e, self.icmp('eq', x, y).p); i += st
            e = self.ctx.apply_known(e)
            if not e.is_const(): self.branches.append((self.where(), 'end of a memory comparison'))
            if sym == 'bcmp' or (e.is_const() and e.const() == 1): return self.mk(32, psub(pconst(1), e), 0, 1)
            return Val(32, self.ctx.opaque('memcmp', psub(pconst(1), e), ZERO, -1, 1), -1, 1)      # only compared with zero
        m = re.match(r'core::slice::copy_from_slice_impl::<([iu])(8|16|32|64|128|size)>$', d)
        if m:
            n, k = self.concretize(args[1], 'slice length'), self.concretize(args[3], 'slice length')
            if n != k: raise PathPanic('copy_from_slice: lengths differ', self.where())
            self.memcpy(args[0], args[2], n * (8 if m.group(2) == 'size' else int(m.group(2))//8)); return None
        m = re.search(r'(?:^|::)__rust_(alloc|alloc_zeroed|dealloc|realloc|no_alloc_shim_is_unstable_v2)$', d) or re.search(r'___rust_(alloc|alloc_zeroed|dealloc|realloc)$', sym)
        if m:
            k = m.group(1)
            if k in ('dealloc', 'no_alloc_shim_is_unstable_v2'): return None
            if k == 'realloc':
                n, old = self.concretize(args[3], 'allocation size'), self.concretize(args[1], 'allocation size')
                o = self.newobj('heap%d' % self.objcount, n); self.memcpy(Ptr(o, 0), args[0], min(n, old)); return Ptr(o, 0)
            n = self.concretize(args[0], 'allocation size'); o = self.newobj('heap%d' % self.objcount, n)
            if k == 'alloc_zeroed': o.base = bytearray(n)
            return Ptr(o, 0)
        m = re.match(r'<alloc::raw_vec::RawVec<([iu])(8|16|32|64|128|size)>>::grow_one$', d)
        if m:       # precompiled in liballoc: RawVec is { cap, ptr }
            e = 8 if m.group(2) == 'size' else int(m.group(2))//8
            v = args[0]; cp = Ptr(v.obj, v.off + 8)
            cap = self.concretize(self.load(v, 'i64'), 'capacity'); new = max(8 if e == 1 else 4, 2*cap)
            o = self.newobj('heap%d' % self.objcount, new*e)
            if cap: self.memcpy(Ptr(o, 0), self.load(cp, 'ptr'), cap*e)
            self.store(v, cval(64, new), 'i64'); self.store(cp, Ptr(o, 0), 'ptr'); return None
        raise Unsupported('external function ' + d)

    def run(self, f, args):
        if len(args) != len(f.params): raise Unsupported('argument count of ' + f.demangled)
        env = {}
        for (n, t, _), a in zip(f.params, args): env[n] = a
        self.stack.append(f)
        saved = self.cur_line
        try: return self._run(f, env)
        finally:
            self.stack.pop(); self.cur_line = saved

    def _run(self, f, env):
        blk = f.entry; prev = None
        blocks = f.blocks
        heads = f.loop_heads() if self.wlog is not None else ()
        seen = {}
        while True:
            code = blocks[blk]
            if blk in heads and code[0][0] == 'phi': seen.clear()
            elif blk in heads: self.loop_head(f, blk, seen)
            nxt = None
            for ins in code:
                self.steps += 1
                k = ins[0]
                self.cur_line = ins[2] or self.cur_line
                if k == 'bin':
                    ty = ins[4]
                    if ty[0] != 'i': raise Unsupported('vector operation')
                    env[ins[1]] = self.bin(ins[3], self.op(env, ins[5], ty), self.op(env, ins[6], ty), ins[7])
                elif k == 'load':
                    p = self.op(env, ins[4])
                    env[ins[1]] = self.table_load(p, ins[3]) if isinstance(p, SymPtr) else self.load(self.fixptr(p), ins[3])
                elif k == 'store':
                    self.store(self.fixptr(self.op(env, ins[5])), self.op(env, ins[4], ins[3] if ins[3][0] == 'i' else None), ins[3])
                elif k == 'gep':
                    base = self.op(env, ins[4])
                    idx = ins[5]
                    vals = []
                    for t, o in idx:
                        if o[0] == 'c': vals.append(o[1])
                        else:
                            v = env[o[1]]
                            c = self.const_of(v)
                            if c is None:
                                sp = self.symbolic_gep(f, code, ins, env, base)
                                if sp is not None: break
                                c = self.concretize(v)
                            if c >> (v.w - 1): c -= 1 << v.w
                            vals.append(c)
                    if len(vals) < len(idx): env[ins[1]] = sp; continue
                    off = self.mod.gep_const(ins[3], vals)
                    if isinstance(base, FnPtr): raise Unsupported('gep on function')
                    env[ins[1]] = Ptr(base.obj, base.off + off)
                elif k == 'call':
                    fn = ins[4]
                    if fn[0] == 'g': sym = fn[1]
                    elif fn[0] == 'v':
                        fp = env[fn[1]]
                        if not isinstance(fp, FnPtr): raise Unsupported('indirect call')
                        sym = fp.sym
                    elif re.match(r'asm (sideeffect |inteldialect |alignstack )*"", "[^"=]*"$', fn[1].strip()) and ins[3] == 'void': continue      # no instructions, no outputs (black_box)
                    else: raise Unsupported('inline assembly')
                    if sym.startswith('llvm.'):
                        r = self.intrinsic(sym, ins, env)
                    else:
                        av = [self.op(env, o, t if t[0] == 'i' else None) for t, o in ins[5]]
                        r = self.call(sym, av)
                    if ins[1]: env[ins[1]] = r
                    if ins[6]: nxt = ins[6]
                elif k == 'extractvalue':
                    v = self.op(env, ins[3])
                    for i in ins[4]: v = v[i]
                    env[ins[1]] = v
                elif k == 'cbr':
                    c = self.op(env, ins[3], 'i1')
                    if isinstance(c, Undef): raise Unsupported('branch on undefined value')
                    if c.p.is_const():
                        d = c.p.const() & 1
                        t = ins[5] if d else ins[4]
                        if self.dies(f, t): self.ctx.ok('panic branch unreachable', 'constant')
                    else:
                        d = self.decide(self.boolval(c))
                    nxt = ins[4] if d else ins[5]
                elif k == 'br': nxt = ins[3]
                elif k == 'alloca':
                    env[ins[1]] = Ptr(self.newobj('%s%s' % (f.demangled.split('::')[-1], ins[1]), ins[3]), 0)
                    if ins[4]: env[ins[1]].obj.align = 1        # an array of bytes
                elif k == 'icmp':
                    ty = ins[4] if ins[4][0] == 'i' else None
                    env[ins[1]] = self.icmp(ins[3], self.op(env, ins[5], ty), self.op(env, ins[6], ty))
                elif k == 'cast':
                    v = self.op(env, ins[5], ins[4] if ins[4][0] == 'i' else None)
                    env[ins[1]] = self.cast(ins[3], v, ins[4], ins[6])
                elif k == 'ret':
                    if ins[3] is None: return None
                    return self.op(env, ins[4], ins[3] if ins[3][0] == 'i' else None)
                elif k == 'phi':
                    env['\0'+ins[1]] = self.op(env, ins[4][prev], ins[3] if ins[3][0] == 'i' else None)
                    # phis read simultaneously: committed below
                    j = code.index(ins)
                    if j + 1 >= len(code) or code[j+1][0] != 'phi':
                        for q in code[:j+1]:
                            env[q[1]] = env.pop('\0'+q[1])
                elif k == 'select':
                    c = self.op(env, ins[3], 'i1')
                    tv, fv = ins[4], ins[5]
                    a = self.op(env, tv[1], tv[0] if tv[0][0] == 'i' else None); b = self.op(env, fv[1], fv[0] if fv[0][0] == 'i' else None)
                    env[ins[1]] = self.select(c, a, b)
                elif k == 'insertvalue':
                    t, o = ins[3]
                    agg = self.op(env, o)
                    if isinstance(agg, Undef):
                        n = len(struct_offsets(t)) if t[0] in '{<' else int(re.match(r'\[(\d+)', t).group(1))
                        agg = [UNDEF]*n
                    agg = list(agg)
                    et, eo = ins[4]
                    if len(ins[5]) != 1: raise Unsupported('nested insertvalue')
                    agg[ins[5][0]] = self.op(env, eo, et if et[0] == 'i' else None)
                    env[ins[1]] = agg
                elif k == 'switch':
                    v = self.op(env, ins[4], ins[3])
                    c = self.const_of(v)
                    w = v.w
                    if c is None:
                        nxt = ins[5]
                        for cv, lab in ins[6]:
                            if self.decide(self.icmp('eq', v, cval(w, cv)).p): nxt = lab; break
                    else:
                        nxt = ins[5]
                        for cv, lab in ins[6]:
                            if (cv & ((1 << w) - 1)) == c: nxt = lab; break
                elif k == 'unreachable':
                    raise PathPanic('unreachable executed', self.where())
                elif k == 'nop': pass
                elif k == 'atomicrmw':
                    self.synced = True
                    p = self.fixptr(self.op(env, ins[4])); old = self.load(p, ins[5]); v = self.op(env, ins[6], ins[5])
                    if ins[3] == 'xchg': new = v
                    elif ins[3] in ('add','sub','and','or','xor'): new = self.bin(ins[3], old, v)
                    elif ins[3] in ('max','min','umax','umin'): new = self.select(self.icmp({'max':'sgt','min':'slt','umax':'ugt','umin':'ult'}[ins[3]], old, v), old, v)
                    else: raise Unsupported('atomicrmw ' + ins[3])
                    self.store(p, new, ins[5]); env[ins[1]] = old
                elif k == 'cmpxchg':
                    self.synced = True
                    p = self.fixptr(self.op(env, ins[3])); t = ins[4]; old = self.load(p, t)
                    e = self.icmp('eq', old, self.op(env, ins[5], t)); self.store(p, self.select(e, self.op(env, ins[6], t), old), t)
                    env[ins[1]] = [old, e]
                else: raise Unsupported('instruction %r' % (ins,))
            if self.steps > self.max_steps: raise Unsupported('step limit')
            prev, blk = blk, nxt

    CUT_AFTER = 12
    def loop_head(self, f, blk, seen):
        """classical loop rule.  A loop known to CUTSETS: everything it writes is havocked at the first arrival, and a path that comes
        back, having written nothing else that existed at the loop head, ends there.  Any other loop: an iteration that writes nothing
        that existed at the loop head is back in the same state, so the paths from the first arrival cover the rest; otherwise the loop
        is simply executed, and entered into CUTSETS if it goes on for too long."""
        cut = self.cutsets.get((f.name, blk))
        if blk not in seen:
            if cut is not None:
                for o in self.objs:
                    for name, off, n in cut:
                        if o.name != name: continue
                        if o.base is not None: raise Unsupported('loop over initialised memory')
                        self.clear(o, off, n)
            seen[blk] = (self.objcount, len(self.wlog), 1); return
        mark, at, k = seen[blk]
        ws = {(o.name, off, n) for o, off, n in self.wlog[at:] if o.id <= mark}
        if ws <= (cut or set()): self.ctx.ok('loop invariant preserved by the iteration', 'frame'); raise PathInfeasible()
        if cut is not None or k >= self.CUT_AFTER: raise LoopRestart((f.name, blk), ws | (cut or set()))
        seen[blk] = (self.objcount, len(self.wlog), k + 1)

    def fixptr(self, p):
        if isinstance(p, Ptr): return p
        raise Unsupported('memory access through %r' % (p,))

    def dies(self, f, blk):
        c = f.blocks[blk]
        return c[-1][0] == 'unreachable'

    def select(self, c, a, b):
        if c.p.is_const(): return a if c.p.const() & 1 else b
        p = self.boolval(c)
        p = self.ctx.apply_known(p)
        if p.is_const(): return a if p.const() else b
        if isinstance(a, Val) and isinstance(b, Val):
            q = padd(b.p, self.ctx.pmul(p, psub(a.p, b.p)))
            if a.w == 1: return self.mkbool(q)
            return self.mk(a.w, q, min(a.lo, b.lo), max(a.hi, b.hi))
        return a if self.decide(p, 'pointer select') else b

    def intrinsic(self, sym, ins, env):
        av = lambda i: self.op(env, ins[5][i][1], ins[5][i][0] if ins[5][i][0][0] == 'i' else None)
        m = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)', sym)
        if m:
            r, o = self.overflow(m.group(2), m.group(1) == 's', av(0), av(1))
            return [r, o]
        if sym.startswith('llvm.memcpy') or sym.startswith('llvm.memmove'):
            n = self.concretize(av(2)); self.memcpy(av(0), av(1), n); return None
        if sym.startswith('llvm.memset'):
            n = self.concretize(av(2)); b = self.const_of(av(1)); d = av(0)
            self.clear(d.obj, d.off, n)
            if b is None:
                v = av(1); d.obj.writes += 1
                if self.wlog is not None: self.wlog.append((d.obj, d.off, n))
                if not isinstance(v, Undef):        # (uninitialized memory stays so)
                    for i in range(n): d.obj.cells[d.off + i] = (1, v)
                return None
            i = 0
            d.obj.writes += 1
            if self.wlog is not None: self.wlog.append((d.obj, d.off, n))
            while i < n:
                st = 8 if i + 8 <= n else 1
                d.obj.cells[d.off+i] = (st, cval(8*st, int.from_bytes(bytes([b])*st, 'little'))); i += st
            return None
        if sym.startswith(('llvm.lifetime','llvm.dbg','llvm.assume','llvm.experimental.noalias')): return None
        if sym.startswith('llvm.is.constant'): return self.mkbool(ZERO)
        if sym.startswith('llvm.expect'): return av(0)
        m = re.match(r'llvm\.(smax|smin|umax|umin)\.i(\d+)', sym)
        if m:
            a, b = av(0), av(1)
            c = self.icmp({'smax':'sgt','smin':'slt','umax':'ugt','umin':'ult'}[m.group(1)], a, b)
            return self.select(c, a, b)
        m = re.match(r'llvm\.abs\.i(\d+)', sym)
        if m:
            a = self.signed(av(0)); c = self.icmp('slt', a, cval(a.w, 0))
            return self.select(c, self.mk(a.w, pneg(a.p), -a.hi, -a.lo), a)
        m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)', sym)
        if m:
            w = int(m.group(2)); k = self.concretize(av(2), 'shift amount') % w
            if k == 0: return av(0) if m.group(1) == 'fshl' else av(1)
            if m.group(1) == 'fshr': k = w - k
            return self.op_or(self.bin('shl', av(0), cval(w, k)), self.bin('lshr', av(1), cval(w, w - k)))
        m = re.match(r'llvm\.bswap\.i(\d+)', sym)
        if m:
            w = int(m.group(1)); u = self.unsigned(av(0)); p = ZERO
            for i in range(w//8):
                q = psub(self.ctx.floor(u.p, 1 << (8*i), u.lo, u.hi), pscale(self.ctx.floor(u.p, 1 << (8*i+8), u.lo, u.hi), 256))
                p = padd(p, pscale(q, 1 << (w - 8 - 8*i)))
            return self.mk(w, p, 0, (1 << w) - 1)
        m = re.match(r'llvm\.([us])(add|sub)\.sat\.i(\d+)', sym)
        if m:
            a, b = av(0), av(1); w = a.w; sg = m.group(1) == 's'
            a, b = (self.signed(a), self.signed(b)) if sg else (self.unsigned(a), self.unsigned(b))
            L, H = (-(1 << (w-1)), (1 << (w-1)) - 1) if sg else (0, (1 << w) - 1)
            r = self.arith(m.group(2), a, b)
            if r.p.is_const(): return cval(w, max(L, min(H, {'add': padd, 'sub': psub}[m.group(2)](a.p, b.p).const())))
            if r.lo >= L and r.hi <= H: return r
            over = self.ctx.ltzero(psub(pconst(H), r.p)) if r.hi > H else ZERO
            under = self.ctx.ltzero(psub(r.p, pconst(L))) if r.lo < L else ZERO
            r = Val(w, r.p, r.lo, r.hi)
            q = padd(r.p, padd(self.ctx.pmul(over, psub(pconst(H), r.p)), self.ctx.pmul(under, psub(pconst(L), r.p))))
            return Val(w, q, max(L, r.lo), min(H, r.hi))
        m = re.match(r'llvm\.([us])cmp\.i(\d+)\.i(\d+)', sym)
        if m:
            a, b = av(0), av(1); w = int(m.group(2))
            g = self.boolval(self.icmp(m.group(1) + 'gt', a, b)); l = self.boolval(self.icmp(m.group(1) + 'lt', a, b))
            return self.mk(w, psub(g, l), -1, 1)
        m = re.match(r'llvm\.(ctlz|cttz|ctpop)\.i(\d+)', sym)
        if m:
            w = int(m.group(2)); c = self.const_of(av(0))
            if c is not None:
                n = {'ctpop': bin(c).count('1'), 'ctlz': w - c.bit_length(), 'cttz': (c & -c).bit_length() - 1 if c else w}[m.group(1)]
                return cval(w, n)
        if sym.startswith('llvm.threadlocal.address'): return av(0)      # one thread; mutable globals hold anything anyway
        raise Unsupported('intrinsic ' + sym)
