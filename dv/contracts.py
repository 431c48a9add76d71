"""Contracts of the functions of one field: how elements are laid out, pre- and postconditions, their use at call sites."""
from core import *
from sym import *
import lia

class FieldCtx(Ctx):
    """a Ctx with the value map of one field: integer polynomials -> polynomials over F_p"""
    def __init__(self, F):
        Ctx.__init__(self)
        self.F = F; self.ghostint = {}; self._fpa = {}
        self.canon_of = {}       # limb atom id -> (element id, index) for canonical elements
        self.canon_fp = []       # element id -> Fp value
    def to_fp(self, poly):
        p = self.F.p; t = {}
        for m, c in poly.t.items():
            c %= p
            if not c: continue
            gd = None
            for x in m:
                if x in self.ghostdef: gd = True; break
            if gd is None:
                d = {}
                for x in m: d[x] = 1 if x in self.bools else d.get(x, 0) + 1
                k = tuple(sorted(d.items()))
                n = (t.get(k, 0) + c) % p
                if n: t[k] = n
                else: t.pop(k, None)
            else:
                f = fconst(c, p)
                for x in m:
                    f = fmul(f, self.ghostdef[x] if x in self.ghostdef else fvar(x, p), self.bools)
                for k, v in f.t.items():
                    n = (t.get(k, 0) + v) % p
                    if n: t[k] = n
                    else: t.pop(k, None)
        return Fp(t, p)
    def to_int(self, fp):
        """integer polynomial with symmetric coefficients representing an F_p polynomial (ghosts expanded to words)"""
        r = ZERO; p = self.F.p
        for m, c in fp.t.items():
            if c > p//2: c -= p
            q = pconst(c)
            for x, e in m:
                if e > 3: return None
                for _ in range(e): q = self.pmul(q, self.ghostint.get(x) or Poly({(x,): 1}))
            r = padd(r, q)
        return r
    def defghost(self, atoms, val):
        """make word 0 of an element stand for (value - higher words)"""
        F = self.F; p = F.p
        rest = Fp({((a, 1),): (1 << (F.w*i)) % p for i, a in enumerate(atoms) if i}, p)
        self.ghostdef[atoms[0]] = fsub(val, rest)

def limb_poly(F, polys):
    r = ZERO
    for i, q in enumerate(polys): r = padd(r, pscale(q, 1 << (F.w*i)))
    return r

def fresh_elem(ex, name, fp=None, mode='rep'):
    """a fresh element: list of Vals (words) and its F_p value.  mode rep / canon / garbage"""
    ctx = ex.ctx; F = ctx.F
    ids, vals = [], []
    for i in range(F.n):
        lo, hi = {'rep': F.lrange, 'canon': F.crange, 'garbage': lambda i: (-(1 << 63), (1 << 63)-1)}[mode](i)
        q = ctx.fresh('%s[%d]' % (name, i), lo, hi); a = next(iter(q.t))[0]
        ids.append(a); vals.append(Val(64, q, lo, hi))
    if mode == 'garbage': return vals, ids, None
    if fp is None:
        g = ctx.ghost(name); fp = fvar(g, F.p)
        ctx.ghostint[g] = limb_poly(F, [v.p for v in vals])
    ctx.defghost(ids, fp)
    if mode == 'canon':
        ctx.add_fact(limb_poly(F, [v.p for v in vals]), 0, F.p - 1)
        e = len(ctx.canon_fp); ctx.canon_fp.append(fp)
        for i, a in enumerate(ids): ctx.canon_of[a] = (e, i)
    return vals, ids, fp

def store_elem(ex, ptr, vals):
    for i, v in enumerate(vals): ex.store(Ptr(ptr.obj, ptr.off + 8*i), v, 'i64')
def load_elem(ex, ptr):
    return [ex.signed(ex.load(Ptr(ptr.obj, ptr.off + 8*i), 'i64')) for i in range(ex.ctx.F.n)]
def elem_val(ex, limbs): return limb_poly(ex.ctx.F, [v.p for v in limbs])

def check_range(ex, what, v, lo, hi):
    """obligation: value in [lo,hi]"""
    ctx = ex.ctx
    if v.lo >= lo and v.hi <= hi: ctx.ok(what, 'interval'); return
    l, h = ctx.pint(v.p)
    if max(l, v.lo) >= lo and min(h, v.hi) <= hi: ctx.ok(what, 'interval'); return
    if getattr(ex, 'no_solver', False): raise ObligationFailed(what, 'not discharged by intervals: [%d,%d] in [%d,%d]' % (l, h, lo, hi))
    r, model, exact, s = lia.prove_range(ctx, v.p, lo, hi, want_model=True)
    if r == 'unsat': ctx.ok(what, s); return
    raise ObligationFailed(what, 'value range [%d,%d] not within [%d,%d] (%s)' % (max(l, v.lo), min(h, v.hi), lo, hi, r), {'model': model, 'exact': exact})

def check_rep(ex, what, limbs, mode='rep'):
    F = ex.ctx.F
    for i, v in enumerate(limbs):
        lo, hi = F.lrange(i) if mode == 'rep' else F.crange(i)
        check_range(ex, '%s: word %d in range' % (what, i), v, lo, hi)

def sem_fp(ctx, sem, vs):
    if sem == 'add': return fadd(vs[0], vs[1])
    if sem == 'sub': return fsub(vs[0], vs[1])
    if sem == 'mul': return fmul(vs[0], vs[1], ctx.bools)
    if sem == 'neg': return fneg(vs[0])
    if sem == 'square': return fmul(vs[0], vs[0], ctx.bools)
    raise Unsupported(sem)

class ArithContract:
    """requires: operands satisfy the representation invariant; ensures: *arg0 satisfies it and has the given value;
    assigns only *arg0"""
    def __init__(self, F, name, args, sem): self.F = F; self.name = name; self.args = args; self.sem = sem
    def apply(self, ex, args):
        ctx = ex.ctx; vs = []
        for l, a in zip(self.args, args):
            if l in 'mr':
                limbs = load_elem(ex, a)
                check_rep(ex, 'precondition of ' + self.name, limbs)
                vs.append(ctx.to_fp(elem_val(ex, limbs)))
            else: vs.append(ctx.to_fp(ex.signed(a).p))
        fp = sem_fp(ctx, self.sem, vs)
        vals, ids, _ = fresh_elem(ex, '%s.result%d' % (self.name, len(ctx.atoms)), fp)
        store_elem(ex, args[0], vals)
        return None

class NormalizeContract:
    """requires representation invariant; ensures canonical words, same residue"""
    args = 'm'; name = 'normalize'; sem = 'normalize'
    def __init__(self, F): self.F = F
    def apply(self, ex, args):
        ctx = ex.ctx
        limbs = load_elem(ex, args[0])
        check_rep(ex, 'precondition of normalize', limbs)
        v = elem_val(ex, limbs)
        if v.is_const():
            store_elem(ex, args[0], [cval(64, x) for x in self.F.canon(v.const())]); return None
        fp = ctx.to_fp(v)
        # normalize is a function of the residue: the same value gives the same canonical words
        for e, f in enumerate(ctx.canon_fp):
            if f.t == fp.t:
                ids = sorted((i, a) for a, (x, i) in ctx.canon_of.items() if x == e)
                store_elem(ex, args[0], [Val(64, Poly({(a,): 1}), ctx.atoms[a].lo, ctx.atoms[a].hi) for i, a in ids]); return None
        vals, ids, _ = fresh_elem(ex, 'canon%d' % len(ctx.atoms), fp, 'canon')
        store_elem(ex, args[0], vals)
        return None

CORE = [('add_assign_ref', 'mr', 'add'), ('sub_assign_ref', 'mr', 'sub'), ('mul_assign_ref', 'mr', 'mul'), ('square', 'm', 'square'),
        ('small_add_assign', 'm3', 'add'), ('small_sub_assign', 'm3', 'sub'), ('small_mul_assign', 'm3', 'mul')]

def target_of(mod, wrapper):
    """symbol of the function that a harness entry point calls"""
    f = mod.func(wrapper)
    for b in f.blocks.values():
        for ins in b:
            if ins[0] == 'call' and ins[4][0] == 'g' and not ins[4][1].startswith('llvm.') and mod.has(ins[4][1]): return ins[4][1]
    raise Unsupported('no target in ' + wrapper)

def last_segment(d):
    d = d.split('::<')[0] if d.endswith('>') and '::<' in d else d
    return d.rsplit('::', 1)[-1]

def core_target(mod, F, opname):
    """symbol under contract for a core operation, or None when it is not a function of its own (e.g. forced inline)"""
    method = {'add_assign_ref': 'add_assign', 'sub_assign_ref': 'sub_assign', 'mul_assign_ref': 'mul_assign'}.get(opname, opname)
    try: t = target_of(mod, 'h_%s_%s' % (F.name, opname))
    except Unsupported: return None
    return t if last_segment(mod.demangled.get(t, t)) == method else None

def field_contracts(mod, F, with_normalize=True):
    r = {}
    for n, args, sem in CORE:
        t = core_target(mod, F, n)
        if t: r[t] = ArithContract(F, n, args, sem)
    if with_normalize:
        t = core_target(mod, F, 'normalize')
        if t: r[t] = NormalizeContract(F)
    return r
