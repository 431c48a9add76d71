"""Contracts and verification jobs of the Edwards curve points.
A valid point with affine coordinates (x, y) and scaling z has coordinate values X = x z, Y = y z, Z = z, T = x y z
with z != 0 and x^2 + y^2 = 1 + d x^2 y^2; point operations are checked against the affine Edwards addition law as
polynomial identities over F_p modulo the curve equations."""
import time
from core import *
from sym import *
from contracts import *
from jobs import *
import lia, llir
from fields import CURVES

POPS = {  # name: args (as in gen_harness.point_ops), kind
    'padd_assign_ref': ('mr', 'add'), 'padd_assign_val': ('mr', 'add'), 'padd_refs': ('orr', 'add'), 'padd_vals': ('orr', 'add'),
    'pzero': ('o', 'zero'), 'pinit': ('okk', 'init'), 'pdouble': ('m', 'double'), 'pdoubled': ('or', 'double'),
    'ptriple': ('m', 'triple'), 'ptripled': ('or', 'triple'),
    'pscalar_mult': ('ms', 'smul'), 'pscalar_mult_normalized': ('mk', 'smul'), 'pdval': ('t', 'dval')}

# ---------------------------------------------------------------- polynomials modulo curve equations
def var_fp(v, p): return fvar(v, p)
def nf(fp, pairs, d, bools=()):
    """normal form modulo d x^2 y^2 = x^2 + y^2 - 1 for every (x, y) in pairs (a Groebner basis: coprime leading terms)"""
    p = fp.p; di = pow(d % p, -1, p)
    work = dict(fp.t); out = {}
    while work:
        m, c = work.popitem()
        e = dict(m)
        hit = None
        for x, y in pairs:
            if e.get(x, 0) >= 2 and e.get(y, 0) >= 2: hit = (x, y); break
        if hit is None:
            n = (out.get(m, 0) + c) % p
            if n: out[m] = n
            else: out.pop(m, None)
            continue
        x, y = hit
        for ex_, ey_, k in ((2, 0, di), (0, 2, di), (0, 0, p - di)):
            e2 = dict(e); e2[x] = e[x] - 2 + ex_; e2[y] = e[y] - 2 + ey_
            for v in (x, y):
                if not e2[v]: del e2[v]
            m2 = tuple(sorted(e2.items()))
            n = (work.get(m2, 0) + c*k) % p
            if n: work[m2] = n
            else: work.pop(m2, None)
    return Fp(out, p)

class Law:
    """fractions of polynomials: points (Nx, Dx, Ny, Dy) with x = Nx/Dx, y = Ny/Dy"""
    def __init__(self, p, d, pairs): self.p = p; self.d = d; self.pairs = pairs
    def red(self, f): return nf(f, self.pairs, self.d)
    def mul(self, a, b): return self.red(fmul(a, b))
    def point(self, x, y): one = fconst(1, self.p); return (fvar(x, self.p), one, fvar(y, self.p), one)
    def add(self, P, Q):
        """affine addition law with cleared denominators; returns the point and the two factors whose non-vanishing it needs"""
        m = self.mul
        nx1, dx1, ny1, dy1 = P; nx2, dx2, ny2, dy2 = Q
        k = fscale(m(m(nx1, nx2), m(ny1, ny2)), self.d)          # d x1 x2 y1 y2 times D
        D = m(m(dx1, dx2), m(dy1, dy2))
        plus, minus = self.red(fadd(D, k)), self.red(fsub(D, k))
        # x3 = (x1 y2 + x2 y1)/(1 + k/D) ; numerator over D: (nx1 ny2 dx2 dy1 + nx2 ny1 dx1 dy2)/D
        nx = self.red(fadd(m(m(nx1, ny2), m(dx2, dy1)), m(m(nx2, ny1), m(dx1, dy2))))
        ny = self.red(fsub(m(m(ny1, ny2), m(dx1, dx2)), m(m(nx1, nx2), m(dy1, dy2))))
        # y3 = (y1 y2 - x1 x2)/(1 - k/D), numerator over D: (ny1 ny2 dx1 dx2 - nx1 nx2 dy1 dy2)/D
        return (nx, plus, ny, minus), [plus, minus]

def strip_vars(fp, zs):
    """fp = prod z^k * rest with rest free of zs, or None"""
    t = {}; common = None
    for m, c in fp.t.items():
        e = tuple((v, k) for v, k in m if v in zs)
        if common is None: common = e
        elif common != e: return None
        t[tuple((v, k) for v, k in m if v not in zs)] = c
    return Fp(t, fp.p)

def is_unit_product(law, fp, factors, maxdeg=6):
    """fp = c * product of the given never-vanishing factors, modulo the curve equations"""
    fp = law.red(fp)
    if not fp.t: return None
    seen = {}
    one = fconst(1, fp.p)
    level = [((0,)*len(factors), one)]
    for _ in range(maxdeg + 1):
        for e, q in level:
            if len(q.t) == len(fp.t):
                m = next(iter(fp.t))
                if m in q.t:
                    c = fp.t[m]*pow(q.t[m], -1, fp.p) % fp.p
                    if fscale(q, c).t == fp.t: return e
        nxt = {}
        for e, q in level:
            for i, f in enumerate(factors):
                e2 = tuple(k + (j == i) for j, k in enumerate(e))
                if e2 not in nxt: nxt[e2] = None
                if nxt[e2] is None: nxt[e2] = law.mul(q, f)
        level = list(nxt.items())
    return None

# ---------------------------------------------------------------- lemmas about the addition law (no code involved)
def group_lemmas(C):
    """ring identities behind `n copies': closure, commutativity, identity, associativity.  -> [(name, ok)]"""
    p, d = C.F.p, C.d % C.F.p
    x1, y1, x2, y2, x3, y3 = range(6)
    law = Law(p, d, [(x1, y1), (x2, y2), (x3, y3)])
    P, Q, R = law.point(x1, y1), law.point(x2, y2), law.point(x3, y3)
    one = fconst(1, p); res = []
    def same(A, B):
        return law.red(fsub(law.mul(A[0], B[1]), law.mul(B[0], A[1]))).t == {} and law.red(fsub(law.mul(A[2], B[3]), law.mul(B[2], A[3]))).t == {}
    S, _ = law.add(P, Q)
    # closure: Nx^2 Dy^2 + Ny^2 Dx^2 = Dx^2 Dy^2 + d Nx^2 Ny^2
    sq = lambda f: law.mul(f, f)
    l = fadd(law.mul(sq(S[0]), sq(S[3])), law.mul(sq(S[2]), sq(S[1])))
    r = fadd(law.mul(sq(S[1]), sq(S[3])), fscale(law.mul(sq(S[0]), sq(S[2])), d))
    res.append(('closure of the addition law', law.red(fsub(l, r)).t == {}))
    res.append(('commutativity of the addition law', same(S, law.add(Q, P)[0])))
    O = (fconst(0, p), one, one, one)
    res.append(('(0,1) is the identity', same(law.add(P, O)[0], P)))
    res.append(('associativity of the addition law', same(law.add(S, R)[0], law.add(P, law.add(Q, R)[0])[0])))
    res.append(('d is a non-square (completeness: no denominator vanishes)', pow(d, (p-1)//2, p) == p - 1))
    return res

# ---------------------------------------------------------------- contracts used by scalar multiplication
class PointTable:
    """group value of point coordinates: ghost variable -> (point id, coordinate)"""
    def __init__(self): self.var = {}; self.m = []
def new_point(ex, name, m):
    """fresh valid point with group value m (an integer polynomial: the multiple of the base)"""
    ctx = ex.ctx; T = ctx.points; pid = len(T.m); T.m.append(m)
    out = []
    for c in range(4):
        g = ctx.ghost('%s.%s' % (name, 'XYZT'[c])); T.var[g] = (pid, c)
        vals, ids, _ = fresh_elem(ex, '%s.%s' % (name, 'XYZT'[c]), fvar(g, ctx.F.p))
        out.append(vals)
    return out
def classify(ctx, coords):
    """multiple represented by four coordinate values (F_p), or None"""
    T = ctx.points
    ids = set(); 
    for c, f in enumerate(coords):
        if len(f.t) == 1:
            (m, k), = f.t.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in T.var and T.var[m[0][0]][1] == c:
                ids.add(T.var[m[0][0]][0]); continue
        ids.add(None)
    if len(ids) == 1 and None not in ids: return T.m[ids.pop()]
    k = []
    for f in coords:
        if not f.t: k.append(0)
        elif len(f.t) == 1 and () in f.t: k.append(f.t[()])
        else: return None
    if k[0] == 0 and k[3] == 0 and k[1] == k[2] and k[2]: return ZERO
    return None
def point_multiple(ex, what, coords):
    """coords: 4 lists of word Vals -> integer polynomial m; obligation: a valid point in every case of the boolean atoms"""
    ctx = ex.ctx
    polys = [elem_val(ex, w) for w in coords]
    polys = [ctx.apply_known(q) for q in polys]
    bl = sorted({a for q in polys for a in q.atoms() if a in ctx.bools})
    for w in coords: check_rep(ex, what, w)
    if len(bl) > 6: raise Unsupported('point depends on %d boolean values' % len(bl))
    vals = []
    for bits in range(1 << len(bl)):
        env = {bl[i]: (bits >> i) & 1 for i in range(len(bl))}
        m = classify(ctx, [ctx.to_fp(ctx.subst_bools(q, env)) for q in polys])
        if m is None: raise ObligationFailed(what, 'coordinates are not those of a known valid point (case %s)' % {ctx.atoms[a].name: v for a, v in env.items()})
        vals.append(m)
    ctx.ok(what, 'ring')
    # multilinear interpolation
    r = ZERO
    for bits, m in enumerate(vals):
        q = m
        for i, a in enumerate(bl):
            b = Poly({(a,): 1})
            q = ctx.pmul(q, b if bits >> i & 1 else psub(pconst(1), b))
        r = padd(r, q)
    return r

class PointContract:
    """requires valid point(s); ensures *arg0 is a valid point equal to the given combination"""
    def __init__(self, C, name, kind): self.C = C; self.name = name; self.kind = kind
    def apply(self, ex, args):
        mod, C = ex.mod, self.C
        a = point_multiple(ex, 'precondition of %s: left operand is a valid point' % self.name, load_point(ex, C, args[0]))
        if self.kind == 'add':
            b = point_multiple(ex, 'precondition of %s: right operand is a valid point' % self.name, load_point(ex, C, args[1]))
            m = padd(a, b)
        else: m = pscale(a, 2 if self.kind == 'double' else 3)
        out = new_point(ex, '%s.result%d' % (self.name, len(ex.ctx.points.m)), m)
        store_point(ex, C, args[0], out)

def layout(mod, C):
    """offsets of the words of X, Y, Z, T inside a point, determined by running the coordinate hooks"""
    key = 'layout_' + C.name
    r = getattr(mod, key, None)
    if r is not None: return r
    F = C.F; n = F.n
    ctx = FieldCtx(F); ex = Exec(mod, ctx, {})
    pt = ex.newobj('p', 32*n); k = ex.newobj('k', 32*n)
    ids = {}
    for i in range(4*n):
        q = ctx.fresh('w%d' % i, 0, 5); ids[8*i] = next(iter(q.t))[0]; pt.cells[8*i] = (8, Val(64, q, 0, 5))
    ex.call('h_%s_pcoords' % C.name, [Ptr(k, 0), Ptr(pt, 0)])
    back = {v: o for o, v in ids.items()}
    r = []
    for c in range(4):
        row = []
        for i in range(n):
            v = ex.load(Ptr(k, 8*(c*n + i)), 'i64')
            row.append(back[next(iter(v.p.t))[0]])
        r.append(row)
    setattr(mod, key, r)
    return r
def load_point(ex, C, ptr):
    return [[ex.signed(ex.load(Ptr(ptr.obj, ptr.off + o), 'i64')) for o in row] for row in layout(ex.mod, C)]
def store_point(ex, C, ptr, coords):
    for row, vals in zip(layout(ex.mod, C), coords):
        for o, v in zip(row, vals): ex.store(Ptr(ptr.obj, ptr.off + o), v, 'i64')

def point_core(mod, C, opname):
    method = {'padd_assign_ref': 'add_assign', 'pdouble': 'double', 'ptriple': 'triple', 'pscalar_mult_normalized': 'scalar_mult_normalized'}[opname]
    try: t = target_of(mod, 'h_%s_%s' % (C.name, opname))
    except Unsupported: return None
    return t if last_segment(mod.demangled.get(t, t)) == method else None
def point_contracts(mod, C):
    r = {}
    for n, k in (('padd_assign_ref', 'add'), ('pdouble', 'double'), ('ptriple', 'triple')):
        t = point_core(mod, C, n)
        if t: r[t] = PointContract(C, n, k)
    return r

def expand_bools(ctx, p, limit=20000):
    """replace BOOL atoms by their defining polynomials (only where they occur linearly)"""
    for _ in range(50):
        t = {}; ch = False
        for m, c in p.t.items():
            if len(m) == 1 and ctx.atoms[m[0]].kind == BOOL:
                ch = True
                for m2, c2 in ctx.atoms[m[0]].data.t.items():
                    n = t.get(m2, 0) + c*c2
                    if n: t[m2] = n
                    else: t.pop(m2, None)
            else:
                n = t.get(m, 0) + c
                if n: t[m] = n
                else: t.pop(m, None)
        p = Poly(t)
        if not ch: break
    return p

# ---------------------------------------------------------------- one point operation
class PointJob:
    firstpath = False
    def __init__(self, C, opname, variant='', idx=None, without=()):
        self.C = C; self.F = C.F; self.opname = opname; self.args, self.kind = POPS[opname]; self.variant = variant; self.without = frozenset(without)
        self.key = '%s.%s%s' % (C.name, opname, '.' + variant if variant else '')
    def run(self, mod):
        res = Result(self.key); t0 = time.time()
        C, F = self.C, self.F
        wrapper = 'h_%s_%s' % (C.name, self.opname)
        cons = field_contracts(mod, F)
        if self.kind == 'smul': cons.update(point_contracts(mod, C))
        for s in [s for s, c in cons.items() if c.name in self.without]: del cons[s]
        havoc = havocs(mod, F)
        def mkctx():
            ctx = FieldCtx(F); ctx.points = PointTable(); return ctx
        def mkexec(ctx, dec):
            ex = Exec(mod, ctx, cons, dec); ex.havoc = havoc; return ex
        try: explore(res, mkctx, mkexec, lambda ex: self.body(mod, ex, wrapper), self.firstpath)
        except (Unsupported, llir.Unsupported) as e: res.error = 'unsupported: %s' % e
        except RecursionError: res.error = 'unsupported: recursion'
        res.wall = time.time() - t0
        return res

    def body(self, mod, ex, wrapper):
        C, F, ctx = self.C, self.F, ex.ctx
        p = F.p; d = C.d % p
        k = self.kind; n = F.n
        args, olds, pts, zs, scal = [], [], [], [], None
        ex.inputs = []
        share = None
        fails = []
        def add(f):
            if f: fails.append(f)
        for j, ch in enumerate(self.args):
            nm = 'PQR'[j]
            if ch in 'mr' and k != 'smul' and share is not None and self.variant == 'alias':
                args.append(share[0]); pts.append(share[1]); olds.append(share[2]); continue
            if ch in 'mr' and k == 'smul':
                o = ex.newobj(nm, 32*n); co = new_point(ex, nm, pconst(1))
                store_point(ex, C, Ptr(o, 0), co); args.append(Ptr(o, 0)); olds.append(co)
            elif ch in 'mr':
                o = ex.newobj(nm, 32*n)
                x, y, z = (ctx.ghost(nm + s) for s in ('.x', '.y', '.z'))
                fx, fy, fz = fvar(x, p), fvar(y, p), fvar(z, p)
                co = []
                for c, f in zip('XYZT', (fmul(fx, fz), fmul(fy, fz), fz, fmul(fmul(fx, fy), fz))):
                    vals, ids, _ = fresh_elem(ex, '%s.%s' % (nm, c), f); co.append(vals)
                store_point(ex, C, Ptr(o, 0), co); args.append(Ptr(o, 0)); olds.append(co)
                pts.append((x, y)); zs.append(z)
                if ch == 'r': share = (args[-1], pts[-1], co)
            elif ch == 'o':
                o = ex.newobj(nm, 32*n)
                co = [fresh_elem(ex, '%s.%s' % (nm, c), None, 'garbage')[0] for c in 'XYZT']
                store_point(ex, C, Ptr(o, 0), co); args.append(Ptr(o, 0)); olds.append(None)
            elif ch == 't':
                o = ex.newobj(nm, 8*n); v, ids, fp = fresh_elem(ex, nm, None, 'garbage'); store_elem(ex, Ptr(o, 0), v)
                args.append(Ptr(o, 0)); olds.append(None)
            elif ch in 'ks':
                o = ex.newobj(nm, 8*n)
                v, ids, fp = fresh_elem(ex, nm, None, 'canon' if (ch == 'k' and k == 'smul') else 'rep')
                store_elem(ex, Ptr(o, 0), v); args.append(Ptr(o, 0)); olds.append((v, fp)); scal = fp
        ex.call(wrapper, args)
        law = None
        def rep(what, words):
            try: check_rep(ex, what, words); return True
            except ObligationFailed as e: fails.append(Failure('range', e.name, e.detail)); return False
        # frame
        for j, ch in enumerate(self.args):
            if ch == 'r':
                for c, row in enumerate(layout(mod, C)):
                    now = [ex.load(Ptr(args[j].obj, o), 'i64') for o in row]
                    for a, b in zip(now, olds[j][c]):
                        if a.p.t != b.p.t: add(Failure('frame', 'operand %s unchanged' % 'PQR'[j], 'coordinate %s' % 'XYZT'[c])); break
                    else: ctx.ok('operand unchanged', 'ring')
            elif ch == 'k': add(same_words(ex, 'operand %s' % 'PQR'[j], args[j], olds[j][0]))
            elif ch == 's':
                w = load_elem(ex, args[j]); rep('scalar operand', w)
                add(compare_fp(ex, 'scalar operand changes at most in representation', elem_val(ex, w), olds[j][1]))
        if k == 'dval':
            w = load_elem(ex, args[0]); got = [ex.const_of(x) for x in w]
            if got == F.canon(C.d): ctx.ok('d is the documented coefficient', 'constant')
            else: add(Failure('value', 'd is the documented coefficient', '%s instead of %s' % (got, F.canon(C.d))))
            return fails
        words = load_point(ex, C, args[0])
        if k == 'smul':
            m = point_multiple(ex, 'result is a valid point', words)
            # the canonical integer value of the scalar
            job = FieldJob(F, 'add_refs')
            n_ = limb_poly(F, [v.p for v in job.canon_words(ex, scal)])
            dd = expand_bools(ctx, ctx.apply_known(psub(m, n_)))
            if not dd.t: ctx.ok('multiple equals the scalar', 'ring')
            else: add(compare_int(ex, 'multiple equals the scalar', dd, ZERO))
            return fails
        for c in range(4): rep('result coordinate ' + 'XYZT'[c], words[c])
        X, Y, Z, T = [ctx.to_fp(ctx.apply_known(elem_val(ex, w))) for w in words]
        law = Law(p, d, list(dict.fromkeys(pts)))
        def zero(what, f):
            if not law.red(f).t: ctx.ok(what, 'ring'); return
            add(Failure('value', what, 'polynomials over F_p differ in %d monomials modulo the curve equations' % len(law.red(f).t)))
        one = fconst(1, p)
        factors = []
        if k == 'zero': want = (fconst(0, p), one, one, one)
        elif k == 'init':
            fx, fy = olds[1][1], olds[2][1]
            want = (fx, one, fy, one)
        elif k == 'add':
            P, Q = law.point(*pts[0]), law.point(*pts[-1]); want, factors = law.add(P, Q)
        elif k == 'double':
            P = law.point(*pts[0]); want, factors = law.add(P, P)
        else:
            P = law.point(*pts[0]); D, f1 = law.add(P, P); want, f2 = law.add(D, P); factors = f1 + f2
        zero('T Z = X Y', fsub(fmul(T, Z), fmul(X, Y)))
        zero('affine x of the result', fsub(fmul(X, want[1]), fmul(Z, want[0])))
        zero('affine y of the result', fsub(fmul(Y, want[3]), fmul(Z, want[2])))
        r = strip_vars(law.red(Z), set(zs))
        if r is None or is_unit_product(law, r, factors) is None:
            add(Failure('value', 'Z of the result is non-zero', 'Z is not a product of never-vanishing factors'))
        else: ctx.ok('Z of the result is non-zero', 'ring')
        return fails
