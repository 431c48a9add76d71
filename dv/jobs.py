"""Verification jobs: one public operation (in one aliasing variant) of one field, all paths, all obligations."""
import time
from core import *
from sym import *
from contracts import *
import lia, llir
from optab import OPS, INTS

class Failure:
    def __init__(self, tag, name, detail, path=None, model=None):
        self.tag = tag; self.name = name; self.detail = detail; self.path = path or []; self.model = model; self.atoms = (); self.models = []
    def __repr__(self): return '%s: %s (%s)' % (self.tag, self.name, str(self.detail)[:300])

class Result:
    def __init__(self, job):
        self.job = job; self.failures = []; self.count = {}; self.contracted = {}; self.inlined = set(); self.branches = []
        self.sharedw = set()
        self.paths = 0; self.completed = 0; self.solver_s = 0.0; self.solver_calls = 0; self.wall = 0.0; self.error = None; self.steps = 0
    def merge(self, ctx, ex):
        for k, v in ctx.count.items(): self.count[k] = self.count.get(k, 0) + v
        for k, v in ex.contracted.items(): self.contracted[k] = self.contracted.get(k, 0) + v
        self.sharedw |= ex.sharedw
        self.inlined |= ex.inlined; self.solver_s += ctx.solver_s; self.solver_calls += ctx.solver_calls; self.steps += ex.steps
        for b in ex.branches:
            if b not in self.branches: self.branches.append(b)

MAXPATHS = 600
def explore(res, mkctx, mkexec, body, firstpath=False):
    """run body on every path; body(ex) performs the checks and returns a list of Failures"""
    todo = [[]]
    while todo:
        if firstpath and res.paths: break
        dec = todo.pop()
        ctx = mkctx(); ex = mkexec(ctx, dec)
        res.paths += 1
        if res.paths > MAXPATHS: raise Unsupported('more than %d paths' % MAXPATHS)
        fails = []
        try:
            try: fails = body(ex) or []
            except PathPanic as e: fails = [Failure('panic', 'no panic', '%s at %s' % (e.what, e.where))]
            except ObligationFailed as e: fails = [Failure('panic' if 'memory' in e.name or 'constant' in e.name else 'pre' if e.name.startswith('precondition') else 'range' if 'range' in e.name else 'other', e.name, e.detail, model=(e.info or {}).get('model'))]
            except PathInfeasible: fails = []
            else: res.completed += 1
        except (Unsupported, llir.Unsupported, RecursionError):
            res.merge(ctx, ex); raise
        # schedule the alternatives of the decisions taken beyond the given prefix
        tr = [d for d, _, _ in ex.trace]
        for i in range(len(dec), len(tr)):
            if tr[i] < 2: todo.append(tr[:i] + [1 - tr[i]])
        if fails:
            path = ['%s -> %d' % (loc, d % 2) for d, loc, _ in ex.trace]
            model = None
            if ctx.path:
                r, model, exact, s = lia.feasible(ctx, want_model=True)
                if r == 'unsat':
                    ctx.ok('path infeasible', s); fails = []
            for f in fails:
                f.path = path[-6:]
                if f.model is None: f.model = model
                f.inputs = getattr(ex, 'inputs', None)
                if f.atoms and getattr(ex, 'inputs', None) and len(res.failures) < 4: f.models = directed_models(ctx, ex, f)
                if f.model is not None: f.model = concretize_model(ctx, ex, f.model)
        res.merge(ctx, ex)
        res.failures.extend(fails)
        if len(res.failures) >= 8: break
    if not res.failures and not (res.completed and res.count): res.error = 'vacuous: no path reaches the postcondition'
    return res

def directed_models(ctx, ex, f):
    """inputs on the failing path that make the derived quantities (floors, booleans) in the difference non-zero"""
    base = {i for l, ids in ex.inputs if isinstance(ids, (list, tuple)) for i in ids}
    at = [i for i in sorted(f.atoms, reverse=True) if i not in base and ctx.atoms[i].kind in (FLOOR, BOOL, EQ, OPQ, TAB)][:8]
    out = []; t0 = time.time()
    for i in at:
        if time.time() - t0 > 12: break
        r, model, exact, s = lia.query(ctx, lambda e: ['(not (= 0 %s))' % e.atom(i)], want_model=True, timeout=3, solvers=('z3',))
        if model: out.append(concretize_model(ctx, ex, model))
    return out
def models_of(failures):
    return [m for f in failures for m in [f.model] + f.models if m]
def concretize_model(ctx, ex, model):
    """input words from a solver model (atoms the solver did not mention get a value in range)"""
    out = []
    for letter, ids in getattr(ex, 'inputs', []):
        if ids is None or isinstance(ids, int): out.append((letter, None)); continue
        out.append((letter, [model.get(i) for i in ids]))
    return out

def compare_fp(ex, what, got_poly, want):
    """obligation: value of got_poly is `want' in F_p"""
    ctx = ex.ctx
    got = ctx.to_fp(ctx.apply_known(got_poly))
    if got.t == want.t: ctx.ok(what, 'ring'); return None
    d = fsub(got, want)
    # modulo path facts / linear arithmetic: the difference as an integer
    di = ctx.to_int(d) if len(d.t) < 4000 else None
    if di is not None:
        di = ctx.apply_known(di)
        if not di.t: ctx.ok(what, 'ring'); return None
        if len(di.t) < 300:
            r, model, exact, s = lia.prove_zero(ctx, di, want_model=True, timeout=10)
            if r == 'unsat': ctx.ok(what, s); return None
            return with_atoms(Failure('value', what, 'polynomials over F_p differ in %d monomials (%s)' % (len(d.t), r), model=model if exact else None), di)
    return with_atoms(Failure('value', what, 'polynomials over F_p differ in %d monomials' % len(d.t)), d)
def with_atoms(f, d):
    if len(d.t) < 3000: f.atoms = tuple({x for m in d.t for x in (k[0] if isinstance(k, tuple) else k for k in m)})
    return f

def compare_int(ex, what, got, want, tag='value'):
    """obligation: two integer polynomials are equal"""
    ctx = ex.ctx
    d = ctx.apply_known(psub(got, want))
    if not d.t: ctx.ok(what, 'ring'); return None
    lo, hi = ctx.pint(d)
    if lo == hi == 0: ctx.ok(what, 'interval'); return None
    r, model, exact, s = lia.prove_zero(ctx, d, want_model=True, timeout=15)
    if r == 'unsat': ctx.ok(what, s); return None
    return with_atoms(Failure(tag, what, 'integer expressions differ (%s)' % r, model=model), d)

def same_words(ex, what, obj_ptr, vals, tag='frame'):
    now = [ex.load(Ptr(obj_ptr.obj, obj_ptr.off + 8*i), 'i64') for i in range(len(vals))]
    for i, (x, y) in enumerate(zip(now, vals)):
        if x.p.t != y.p.t:
            f = compare_int(ex, '%s: word %d unchanged' % (what, i), ex.signed(x).p, y.p, tag)
            if f: return f
        else: ex.ctx.ok(what + ': unchanged', 'ring')
    return None

def red_exp(fp, var, mod):
    """reduce the exponents of var modulo mod into 1..mod (equal as functions wherever var^mod = 1)"""
    t = {}
    for m, c in fp.t.items():
        k = []
        for v, e in m:
            if v == var: e = (e - 1) % mod + 1
            k.append((v, e))
        k = tuple(k); n = (t.get(k, 0) + c) % fp.p
        if n: t[k] = n
        else: t.pop(k, None)
    return Fp(t, fp.p)

# ---------------------------------------------------------------- one operation
class FieldJob:
    firstpath = False; probe = None
    def __init__(self, F, opname, variant='', idx=None, without=()):
        self.F = F; self.op = OPS[opname]; self.opname = opname; self.variant = variant; self.idx = idx; self.without = frozenset(without)
        self.key = '%s.%s%s%s' % (F.name, opname, '.' + variant if variant else '', '' if idx is None else '[%d]' % idx)
    def run(self, mod):
        res = Result(self.key); t0 = time.time()
        F = self.F; op = self.op
        wrapper = 'h_%s_%s' % (F.name, op.name)
        cons = field_contracts(mod, F, with_normalize=(op.kind != 'normalize'))
        if op.kind == 'normalize': cons = {}
        own = core_target(mod, F, op.name)
        if own in cons: del cons[own]
        for s in [s for s, c in cons.items() if c.name in self.without]: del cons[s]
        havoc = havocs(mod, F)
        def mkctx(): return FieldCtx(F)
        def mkexec(ctx, dec):
            ex = Exec(mod, ctx, cons, dec); ex.havoc = havoc; ex.cutsets = cutsets; return ex
        cutsets = {}
        try:
            for _ in range(8):
                try: explore(res, mkctx, mkexec, lambda ex: self.body(mod, ex, wrapper), self.firstpath); break
                except LoopRestart as e: cutsets[e.loop] = e.writes; res = Result(self.key)
            else: raise Unsupported('loop without a stable frame')
        except (Unsupported, llir.Unsupported) as e: res.error = 'unsupported: %s' % e
        except RecursionError: res.error = 'unsupported: recursion'
        res.wall = time.time() - t0
        return res

    def body(self, mod, ex, wrapper):
        F, op, ctx = self.F, self.op, ex.ctx
        k = op.kind
        canon_first = k in ('bitop_n',)
        args, objs, fps, vals, inputs = [], [], [], [], []
        ex.inputs = inputs
        share = None
        for j, ch in enumerate(op.args):
            nm = 'abcdef'[j]
            if ch in 'mMrco':
                if ch in 'rc' and share is not None and self.variant == 'alias':
                    o, v, fp = share
                    inputs.append((ch, inputs[-1][1]))
                else:
                    o = ex.newobj(nm, 8*F.n)
                    mode = 'garbage' if ch == 'o' else 'rep' if self.variant == 'loose' else 'canon' if (ch == 'c' or (canon_first and ch == 'M') or self.variant == 'canon') else 'rep'
                    v, ids, fp = fresh_elem(ex, nm, None, mode)
                    store_elem(ex, Ptr(o, 0), v)
                    inputs.append((ch, ids))
                    if ch == 'r': share = (o, v, fp)
                args.append(Ptr(o, 0)); objs.append(o); fps.append(fp); vals.append(v)
            elif ch in '318':
                w = INTS[ch]
                q = ctx.fresh(nm, -(1 << (w-1)), (1 << (w-1)) - 1)
                inputs.append((ch, [next(iter(q.t))[0]]))
                args.append(Val(w, q, -(1 << (w-1)), (1 << (w-1)) - 1)); objs.append(None); vals.append(None); fps.append(ctx.to_fp(q))
            elif ch == 'b':
                q = ctx.fresh(nm, 0, 1, True); inputs.append((ch, [next(iter(q.t))[0]]))
                args.append(Val(1, q, 0, 1)); objs.append(None); vals.append(q); fps.append(None)
            elif ch == 'u':
                inputs.append((ch, self.idx)); args.append(cval(64, self.idx)); objs.append(None); vals.append(None); fps.append(None)
            elif ch in 'STP':
                nb = F.nbytes; extra = 5 if ch == 'T' else 0
                o = ex.newobj(nm, nb + extra); o.align = 1; bv = []; ids = []
                for i in range(nb + extra):
                    hi = 255
                    if ch == 'S' and i == nb - 1 and self.variant != 'loose': hi = (1 << (F.N - 8*(nb-1))) - 1
                    q = ctx.fresh('%s[%d]' % (nm, i), 0, hi); ids.append(next(iter(q.t))[0])
                    v = Val(8, q, 0, hi); bv.append(v); o.cells[i] = (1, v)
                if ch == 'S' and self.variant != 'loose':
                    tot = ZERO
                    for i, v in enumerate(bv): tot = padd(tot, pscale(v.p, 1 << (8*i)))
                    ctx.add_fact(tot, 0, F.p - 1)
                inputs.append((ch, ids))
                args.append(Ptr(o, 0))
                if ch != 'P': args.append(cval(64, nb + extra))
                objs.append(o); vals.append(bv); fps.append(None)
            elif ch == 'R':
                o = ex.newobj('rng', 136); ex.rnd = []; ex.wlog = []
                inputs.append((ch, ex.rnd)); args.append(Ptr(o, 0)); objs.append(o); vals.append(None); fps.append(None)
            elif ch == 'F':
                o = ex.newobj('formatter', 256); ex.fmt_out = []
                inputs.append((ch, None)); args.append(Ptr(o, 0)); objs.append(o); vals.append(None); fps.append(None)
            else: raise Unsupported('argument ' + ch)
        ret = ex.call(wrapper, args)
        if self.probe: self.probe(ex, objs, ret); ctx.ok('probe', 'execution'); return []
        fails = []
        def add(f):
            if f: fails.append(f)
        def rep(what, limbs, mode='rep'):
            try: check_rep(ex, what, limbs, mode)
            except ObligationFailed as e: fails.append(Failure('range', e.name, e.detail, model=e.info.get('model')))
        if self.variant == 'loose':     # safety only: no panic, no overflow, elements stay in range
            for j, ch in enumerate(op.args):
                if ch in 'mMo': rep('element', load_elem(ex, args[j]))
            ctx.ok('no panic', 'execution'); return fails
        # frame: by-reference right operands are untouched
        for j, ch in enumerate(op.args):
            if ch in 'rc': add(same_words(ex, 'operand %s' % 'abc'[j], args[j if 'S' not in op.args else j], vals[j]))
        if k in ('arith', 'invert', 'div', 'legendre', 'sqrt'):
            out = load_elem(ex, args[0]); rep('result', out)
            poly = elem_val(ex, out)
            ins = [fps[j] for j, ch in enumerate(op.args) if ch != 'o']
        if k == 'arith':
            # integer on the left of a subtraction does not exist; the operation is symmetric otherwise
            add(compare_fp(ex, '%s: value' % op.sem, poly, sem_fp(ctx, op.sem, ins)))
        elif k in ('invert', 'div', 'legendre', 'sqrt'):
            got = ctx.to_fp(ctx.apply_known(poly)); p = F.p
            v = ins[-1]; (mon,), var = tuple(v.t), None
            var = mon[0][0]
            if k == 'invert':
                r = red_exp(fmul(got, v), var, p - 1); want = fconst(1, p)
                # exponent p-1 of a non-zero value is 1
                r = drop_full(r, var, p - 1)
                what = 'inverse times operand is one'
            elif k == 'div':
                if self.variant == 'alias': r = drop_full(red_exp(got, var, p - 1), var, p - 1); want = fconst(1, p)
                else: r = drop_full(red_exp(fmul(got, v), var, p - 1), var, p - 1); want = ins[0]
                what = 'quotient times divisor is dividend'
            elif k == 'legendre':
                r = red_exp(got, var, p - 1); want = Fp({((var, (p-1)//2),): 1}, p); what = 'legendre symbol (Euler criterion)'
            else:
                r = red_exp(fmul(got, got), var, (p-1)//2); want = v; what = 'square of the square root'
            if r.t == want.t: ctx.ok(what, 'ring')
            elif k == 'sqrt' and select_cases(ex, fmul(got, got), var, want): ctx.ok(what, 'ring')
            else: add(Failure('value', what, 'polynomials over F_p differ in %d monomials' % len(fsub(r, want).t)))
        elif k == 'normalize':
            out = load_elem(ex, args[0]); rep('canonical', out, 'canon'); poly = elem_val(ex, out)
            try: check_range(ex, 'canonical: 0 <= value < p', Val(2*F.N, poly, *ctx.pint(poly)), 0, F.p - 1)
            except ObligationFailed as e: fails.append(Failure('value', e.name, e.detail, model=e.info.get('model')))
            add(compare_fp(ex, 'residue preserved', poly, fps[0]))
        elif k == 'eq':
            for j in (0, 1):
                if op.args[j] in 'mM':
                    out = load_elem(ex, args[j]); rep('canonical operand', out, 'canon')
                    add(self.is_canonical(ex, 'operand %s left canonical' % 'ab'[j], out, fps[j]))
            x, y = load_elem(ex, args[0]), load_elem(ex, args[1])
            e = pconst(1)
            for i in range(F.n): e = ctx.pmul(e, ctx.eqzero(psub(x[i].p, y[i].p)))
            e = ctx.apply_known(e)
            add(compare_int(ex, 'true iff congruent', self.boolret(ex, ret), e))
        elif k == 'unpack':
            out = load_elem(ex, args[0]); rep('result', out)
            tot = ZERO
            for i, v in enumerate(vals[1]): tot = padd(tot, pscale(v.p, 1 << (8*i)))
            add(compare_fp(ex, 'value of the encoding', elem_val(ex, out), ctx.to_fp(tot)))
            add(self.same_bytes(ex, 'input bytes', objs[1], vals[1]))
        elif k == 'pack':
            out = load_elem(ex, args[0])
            if op.args[0] != 'c': add(self.is_canonical(ex, 'operand canonical or same residue', out, fps[0], weak=True))
            # the value that is encoded: canonical words of the operand
            cw = out if op.args[0] == 'c' else self.canon_words(ex, fps[0])
            tot = limb_poly(F, [x.p for x in cw])
            for i in range(F.nbytes):
                want = psub(ctx.floor(tot, 1 << (8*i)), pscale(ctx.floor(tot, 1 << (8*i+8)), 256)) if i < F.nbytes - 1 else ctx.floor(tot, 1 << (8*i))
                got = ex.unsigned(ex.load(Ptr(objs[1], i), 'i8')).p
                add(compare_int(ex, 'byte %d of the encoding' % i, got, want))
            for i in range(F.nbytes, objs[1].size):
                got = ex.load(Ptr(objs[1], i), 'i8')
                add(compare_int(ex, 'byte %d beyond the encoding untouched' % i, ex.unsigned(got).p, vals[1][i].p, 'frame'))
        elif k in ('nbytes', 'nbits'):
            c = ex.const_of(ret); want = F.nbytes if k == 'nbytes' else F.N
            if c == want: ctx.ok(k, 'constant')
            else: add(Failure('value', k, '%r instead of %d' % (c, want)))
        elif k == 'bit':
            out = load_elem(ex, args[0])
            cw = out if op.args[0] == 'c' else self.canon_words(ex, fps[0])
            if op.args[0] != 'c': add(self.is_canonical(ex, 'operand canonical or same residue', out, fps[0], weak=True))
            tot = limb_poly(F, [x.p for x in cw]); i = self.idx
            want = ctx.boolify(psub(ctx.floor(tot, 1 << i), pscale(ctx.floor(tot, 1 << (i+1)), 2)))
            add(compare_int(ex, 'bit %d' % i, self.boolret(ex, ret), want))
        elif k in ('bitop', 'bitop_n'):
            out = load_elem(ex, args[0]); rep('result', out)
            cs = []
            for j in (0, 1):
                if op.args[j] in 'mM' and k == 'bitop': cs.append(self.canon_words(ex, fps[j]))
                else: cs.append(vals[j])
            if op.args[1] == 'M': add(self.is_canonical(ex, 'right operand canonical or same residue', load_elem(ex, args[1]), fps[1], weak=True))
            f = ex.op_and if op.sem == 'and' else ex.op_or
            want = limb_poly(F, [ex.signed(f(x, y)).p for x, y in zip(*cs)])
            add(compare_int(ex, 'bitwise ' + op.sem, elem_val(ex, out), want))
        elif k == 'fill':
            out = load_elem(ex, args[0]); b = vals[1]
            for i in range(F.n):
                add(compare_int(ex, 'mask word %d' % i, out[i].p, pneg(b)))
        elif k == 'const':
            out = load_elem(ex, args[0]); want = F.canon(op.sem) if op.sem != 'p' else [(F.p >> (F.w*i)) & ((1 << F.w) - 1) for i in range(F.n)]
            got = [ex.const_of(x) for x in out]
            if got == want: ctx.ok('constant value', 'constant')
            else: add(Failure('value', 'constant value', '%s instead of %s' % (got, want)))
        elif k == 'rand':
            out = load_elem(ex, args[0]); rep('canonical', out, 'canon'); poly = elem_val(ex, out)
            try: check_range(ex, 'canonical: 0 <= value < p', Val(2*F.N, poly, *ctx.pint(poly)), 0, F.p - 1)
            except ObligationFailed as e: fails.append(Failure('value', e.name, e.detail, model=e.info.get('model')))
        elif k == 'debug':
            if not isinstance(ret, Val) or ex.const_of(ret) is None: raise Unsupported('symbolic formatting result')
            if ex.const_of(ret) == 0: ctx.ok('debug formatting succeeds when the writer does', 'constant')
            else: add(Failure('value', 'debug formatting succeeds when the writer does', 'returned Err'))
        elif k == 'hex':
            from fmtcheck import check_hex
            for f in check_hex(self, ex, fps[0], ret): add(f)
        else: raise Unsupported('kind ' + k)
        return fails

    def boolret(self, ex, ret):
        if not isinstance(ret, Val): raise Unsupported('no boolean result')
        return ex.ctx.apply_known(ex.boolval(ret))
    def canon_words(self, ex, fp):
        """the canonical words of the residue fp (the specification's view)"""
        o = ex.newobj('spec', 8*self.F.n)
        ctx = ex.ctx
        for e, f in enumerate(ctx.canon_fp):
            if f.t == fp.t:
                ids = sorted((i, a) for a, (x, i) in ctx.canon_of.items() if x == e)
                return [Val(64, Poly({(a,): 1}), ctx.atoms[a].lo, ctx.atoms[a].hi) for i, a in ids]
        vals, ids, _ = fresh_elem(ex, 'spec%d' % len(ctx.atoms), fp, 'canon')
        return vals
    def is_canonical(self, ex, what, limbs, fp, weak=False):
        ctx = ex.ctx
        cw = self.canon_words(ex, fp)
        if all(a.p.t == b.p.t for a, b in zip(limbs, cw)): ctx.ok(what, 'ring'); return None
        if weak:
            try: check_rep(ex, what, limbs)
            except ObligationFailed as e: return Failure('range', e.name, e.detail)
            return compare_fp(ex, what, elem_val(ex, limbs), fp)
        for a, b in zip(limbs, cw):
            f = compare_int(ex, what, a.p, b.p)
            if f: return f
        return None
    def same_bytes(self, ex, what, obj, vals):
        for i, v in enumerate(vals):
            x = ex.load(Ptr(obj, i), 'i8')
            if x.p.t != v.p.t: return Failure('frame', what + ' unchanged', 'byte %d' % i)
        ex.ctx.ok(what + ' unchanged', 'ring')
        return None

def select_cases(ex, r, var, want):
    """r = want for every square x (= var), where r selects among values by tests 'V(x) = 0' made on the words of a canonical element:
    the cases x = 0, x^((p-1)/4) = 1 and x^((p-1)/4) = -1 cover all squares, and each decides the tests"""
    ctx = ex.ctx; F = ctx.F; p = F.p
    ids = sorted({v for m in r.t for v, e in m if v != var})
    if not ids or len(ids) != F.n or any(ctx.atoms[v].kind != EQ for v in ids): return False
    full = set(ids)
    if any(s and s != full for s in ({v for v, e in m if v != var} for m in r.t)): return False      # all the words are tested together
    ws = sorted((ctx.atoms[v].data for v in ids), key=lambda w: sorted(w.t))       # in the order the words of one element were created (any order that passes is sound)
    try:        # sum of the words = 0 <=> every word = 0; 0 <= sum < p: sum = 0 <=> its residue is 0
        if not all(ctx.pint(w)[0] >= 0 for w in ws): return False
        V = limb_poly(F, ws); check_range(ex, 'tested element is canonical', Val(2*F.N, V, *ctx.pint(V)), 0, p - 1)
    except ObligationFailed: return False
    V = ctx.to_fp(ctx.apply_known(V))
    if any(v != var for m in V.t for v, e in m): return False
    def at(fp, case, b):
        """fp in the given case, with the conjunction of the tests = b"""
        t = {}
        for m, c in fp.t.items():
            if any(v != var for v, e in m) and not b: continue
            e = dict(m).get(var, 0)
            if case == 0:
                if e: continue
            else:
                q, e = divmod(e, (p-1)//4 if p % 4 == 1 else (p-1)//2)
                if case == -1 and q & 1: c = -c
            k = ((var, e),) if e else ()
            n = (t.get(k, 0) + c) % p
            if n: t[k] = n
            else: t.pop(k, None)
        return Fp(t, p)
    for case in (0, 1, -1) if p % 4 == 1 else (0, 1):
        d = at(V, case, 0)
        if len(d.t) > 1: return False       # a single power of x is not zero, as x is not (or is the constant of case 0)
        b = 0 if d.t else 1
        if at(r, case, b).t != at(want, case, b).t: return False
    return True

def drop_full(fp, var, mod):
    """var^mod = 1 for non-zero var"""
    t = {}
    for m, c in fp.t.items():
        k = tuple((v, e) for v, e in m if not (v == var and e == mod))
        n = (t.get(k, 0) + c) % fp.p
        if n: t[k] = n
        else: t.pop(k, None)
    return Fp(t, fp.p)

def havocs(mod, F):
    h = getattr(mod, '_havocs', None)
    if h is not None: return h
    from fmtcheck import formatter_havocs
    h = mod._havocs = formatter_havocs(mod)
    def word(w):
        def next_word(ex, args):
            ex.contracted['random generator: any word'] = ex.contracted.get('random generator: any word', 0) + 1
            q = ex.ctx.fresh('rnd%d' % len(ex.ctx.atoms), 0, (1 << w) - 1)
            ex.rnd.append(next(iter(q.t))[0])
            return Val(w, q, 0, (1 << w) - 1)
        return next_word
    h['verif_next_u64'] = word(64); h['verif_next_u32'] = word(32)
    return h

# ---------------------------------------------------------------- masks (composition of several public operations)
class MaskJob:
    """and/or with masks made by fill or filled, on elements in any representation"""
    firstpath = False
    VARIANTS = ['and1', 'and0', 'or0', 'select', 'select_swapped']
    def __init__(self, F, how, variant, idx=None, without=()):
        self.F = F; self.how = how; self.variant = variant; self.opname = 'mask'; self.without = frozenset(without)
        self.key = '%s.mask.%s.%s' % (F.name, how, variant)
    def run(self, mod):
        res = Result(self.key); t0 = time.time(); F = self.F
        cons = field_contracts(mod, F); havoc = havocs(mod, F)
        for s in [s for s, c in cons.items() if c.name in self.without]: del cons[s]
        def mkexec(ctx, dec):
            ex = Exec(mod, ctx, cons, dec); ex.havoc = havoc; return ex
        try: explore(res, lambda: FieldCtx(F), mkexec, lambda ex: self.body(ex), self.firstpath)
        except (Unsupported, llir.Unsupported) as e: res.error = 'unsupported: %s' % e
        except RecursionError: res.error = 'unsupported: recursion'
        res.wall = time.time() - t0
        return res
    def body(self, ex):
        F, ctx = self.F, ex.ctx; ex.inputs = []
        call = lambda op, *a: ex.call('h_%s_%s' % (F.name, op), list(a))
        def elem(nm, mode='rep'):
            o = ex.newobj(nm, 8*F.n); v, ids, fp = fresh_elem(ex, nm, None, mode); store_elem(ex, Ptr(o, 0), v)
            if mode == 'rep': ex.inputs.append(('m', ids))
            return Ptr(o, 0), v
        def mask(nm, bit):
            m, _ = elem(nm, 'garbage' if self.how == 'filled' else 'rep')
            if self.how == 'fill': ex.inputs.pop()
            call(self.how, m, bit); return m
        one, zero = ex.mkbool(pconst(1)), ex.mkbool(ZERO)
        def same(what, ptr, vals):
            fs = []
            for i, x in enumerate(load_elem(ex, ptr)):
                f = compare_int(ex, '%s: word %d' % (what, i), x.p, vals[i].p)
                if f: fs.append(f)
            return fs
        zeros = [cval(64, 0)]*F.n
        a, av = elem('a')
        v = self.variant
        if v == 'and1':
            call('normalized_bitand', a, mask('m', one)); return same('and with ones leaves the element unchanged', a, av)
        if v == 'and0':
            call('normalized_bitand', a, mask('m', zero)); return same('and with zeros clears the element', a, zeros)
        if v == 'or0':
            z, _ = elem('z', 'garbage'); store_elem(ex, z, zeros)
            call('normalized_bitor', a, z); fs = same('or with zero leaves the element unchanged', a, av)
            b, bv = elem('b'); m = mask('m', zero)
            call('normalized_bitor', b, m); return fs + same('or with a cleared mask leaves the element unchanged', b, bv)
        b, bv = elem('b')
        bit = ctx.fresh('bit', 0, 1, True); ex.inputs.append(('b', [next(iter(bit.t))[0]]))
        nb = psub(pconst(1), bit)
        m, mc = mask('m', ex.mkbool(bit)), mask('mc', ex.mkbool(nb))
        call('normalized_bitand', a, m); call('normalized_bitand', b, mc)
        want = [Val(64, padd(ctx.pmul(bit, x.p), ctx.pmul(nb, y.p)), min(x.lo, y.lo), max(x.hi, y.hi)) for x, y in zip(av, bv)]
        if v == 'select': call('normalized_bitor', a, b); return same('(a & mask) | (b & ~mask) selects', a, want)
        call('normalized_bitor', b, a); return same('(b & ~mask) | (a & mask) selects', b, want)
