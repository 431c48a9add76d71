"""Integer polynomials over named atoms, interval facts, floor atoms, polynomials over F_p, obligations."""
import math
import time

class Unsupported(Exception): pass

class Poly:
    """integer polynomial: dict monomial(tuple of sorted atom ids) -> coefficient"""
    __slots__ = ('t','_k')
    def __init__(self, t): self.t = t; self._k = None
    def key(self):
        if self._k is None: self._k = frozenset(self.t.items())
        return self._k
    def __eq__(self, o): return self.t == o.t
    def __hash__(self): return hash(self.key())
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self): return self.t.get((), 0)
    def atoms(self):
        s = set()
        for m in self.t: s.update(m)
        return s

ZERO = Poly({})
def pconst(c): return Poly({(): c}) if c else ZERO
def padd(a, b):
    if not a.t: return b
    if not b.t: return a
    if len(a.t) < len(b.t): a, b = b, a
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) + c
        if n: t[m] = n
        else: del t[m]
    return Poly(t)
def pneg(a): return Poly({m: -c for m, c in a.t.items()})
def psub(a, b):
    if not b.t: return a
    t = dict(a.t)
    for m, c in b.t.items():
        n = t.get(m, 0) - c
        if n: t[m] = n
        else: del t[m]
    return Poly(t)
def pscale(a, k):
    if k == 0: return ZERO
    if k == 1: return a
    return Poly({m: c*k for m, c in a.t.items()})

class Atom:
    __slots__ = ('id','name','kind','lo','hi','data','isbool')
    def __repr__(self): return self.name

BASE, FLOOR, BOOL, EQ, OPQ, GHOST, TAB = 'base', 'floor', 'bool', 'eq', 'opaque', 'ghost', 'table'

class Ctx:
    def __init__(self):
        self.atoms = []
        self.bykey = {}
        self.bools = set()
        self.facts = {}        # poly key (no constant term) -> (lo, hi)
        self.path = []         # [(kind, poly, value)] path constraints of the current path
        self.known = {}        # bool atom id -> 0/1 on the current path
        self.obs = []          # obligations
        self.count = {}        # backend -> discharged count
        self.ghostdef = {}     # atom id -> FpPoly (value in F_p of a limb-0 atom)
        self.solver_s = 0.0
        self.solver_calls = 0
        self._pint = {}

    # ---------- atoms
    def new(self, name, kind, lo, hi, data=None, isbool=False):
        a = Atom(); a.id = len(self.atoms); a.name = name; a.kind = kind; a.lo = lo; a.hi = hi; a.data = data; a.isbool = isbool
        self.atoms.append(a)
        if isbool: self.bools.add(a.id)
        return a
    def fresh(self, name, lo, hi, isbool=False):
        return Poly({(self.new(name, BASE, lo, hi, None, isbool).id,): 1})
    def ghost(self, name):
        return self.new(name, GHOST, None, None).id

    # ---------- polynomial product with idempotent boolean atoms
    def pmul(self, a, b):
        if not a.t or not b.t: return ZERO
        if len(a.t) == 1 and () in a.t: return pscale(b, a.t[()])
        if len(b.t) == 1 and () in b.t: return pscale(a, b.t[()])
        t = {}
        bl = self.bools
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                if not m1: m = m2
                elif not m2: m = m1
                else:
                    m = tuple(sorted(m1 + m2))
                    if bl:
                        for i in range(len(m)-1):
                            if m[i] == m[i+1] and m[i] in bl:
                                r = []
                                for x in m:
                                    if r and r[-1] == x and x in bl: continue
                                    r.append(x)
                                m = tuple(r); break
                n = t.get(m, 0) + c1*c2
                if n: t[m] = n
                else: t.pop(m, None)
        if len(t) > 200000: raise Unsupported('polynomial too large')
        return Poly(t)

    # ---------- intervals
    def _mono_int(self, m):
        lo, hi = 1, 1
        i = 0
        while i < len(m):
            a = self.atoms[m[i]]
            alo, ahi = a.lo, a.hi
            k = self.known.get(a.id)
            if k is not None: alo = ahi = k
            else:
                f = self.facts.get(frozenset([((a.id,), 1)]))
                if f: alo, ahi = max(alo, f[0]), min(ahi, f[1])
            if i + 1 < len(m) and m[i+1] == m[i]:
                sq = (alo*alo, ahi*ahi)
                alo, ahi = (0 if alo <= 0 <= ahi else min(sq)), max(sq)
                i += 1
            c = (lo*alo, lo*ahi, hi*alo, hi*ahi)
            lo, hi = min(c), max(c)
            i += 1
        return lo, hi

    def pint(self, p):
        """interval of a polynomial from atom ranges and facts"""
        c = p.t.get((), 0)
        bl = [a for a in p.atoms() if a in self.bools and a not in self.known] if self.bools else []
        if 0 < len(bl) <= 3:
            los, his = [], []
            for bits in range(1 << len(bl)):
                env = {bl[i]: (bits >> i) & 1 for i in range(len(bl))}
                l, h = self._pint0(self.subst_bools(p, env))
                los.append(l); his.append(h)
            lo, hi = min(los), max(his)
        else: lo, hi = self._pint0(p)
        return lo, hi

    def _pint0(self, p):
        lo = hi = 0
        for m, c in p.t.items():
            if not m: lo += c; hi += c; continue
            l, h = self._mono_int(m)
            if c > 0: lo += c*l; hi += c*h
            else: lo += c*h; hi += c*l
        f = self.fact(p)
        if f: lo, hi = max(lo, f[0]), min(hi, f[1])
        return lo, hi

    def subst_bools(self, p, env):
        t = {}
        for m, c in p.t.items():
            if m:
                keep = []
                for x in m:
                    v = env.get(x)
                    if v is None: keep.append(x)
                    elif v == 0: c = 0; break
                if not c: continue
                m = tuple(keep)
            n = t.get(m, 0) + c
            if n: t[m] = n
            else: t.pop(m, None)
        return Poly(t)

    def _norm(self, p):
        """strip constant, sign-normalise -> (key, const, sign)"""
        c = p.t.get((), 0)
        q = p
        if c:
            t = dict(p.t); del t[()]; q = Poly(t)
        if not q.t: return None, c, 1
        m0 = min(q.t)
        s = 1
        if q.t[m0] < 0: s = -1; q = pneg(q)
        return q.key(), c, s
    def fact(self, p):
        if not self.facts: return None
        k, c, s = self._norm(p)
        f = self.facts.get(k)
        if not f: return None
        return (f[0]+c, f[1]+c) if s > 0 else (-f[1]+c, -f[0]+c)
    def add_fact(self, p, lo, hi):
        k, c, s = self._norm(p)
        if k is None: return
        lo, hi = (lo-c, hi-c) if s > 0 else (c-hi, c-lo)
        f = self.facts.get(k)
        if f: lo, hi = max(lo, f[0]), min(hi, f[1])
        self.facts[k] = (lo, hi)

    # ---------- floor(p / d)
    def floor(self, p, d, lo=None, hi=None):
        """polynomial equal to floor(p/d); lo/hi: known interval of p"""
        if d == 1: return p
        if lo is None: lo, hi = self.pint(p)
        else:
            if lo//d != hi//d:
                l2, h2 = self.pint(p) if len(p.t) <= 64 else (lo, hi)
                lo, hi = max(lo, l2), min(hi, h2)
        if lo//d == hi//d: return pconst(lo//d)
        q, r = {}, {}
        for m, c in p.t.items():
            if c % d == 0: q[m] = c//d
            elif not m:
                if c//d: q[m] = c//d
                r[m] = c % d
            else: r[m] = c
        qp, rp = Poly(q), Poly(r)
        d0 = d
        # common factor of the non-constant coefficients and d
        import math
        g = d
        for m, c in r.items():
            if m: g = math.gcd(g, c)
            if g == 1: break
        if g > 1:
            t = {m: c//g for m, c in r.items() if m}
            c0 = r.get((), 0)//g
            if c0: t[()] = c0
            rp = Poly(t); d = d//g
            if d == 1: return padd(qp, rp)
        # drop a low part that cannot carry: floor((g*x + r)/(g*e)) = floor((x+k)/e) when floor(r/g) = k
        if d & (d-1) == 0 and 2 <= len(rp.t) <= 48:
            s = self._split(rp, d)
            if s is not None: return padd(qp, self.floor(s[0], s[1]))
        # boolean polynomials: tabulate
        if all(x in self.bools for m in rp.t for x in m):
            bl = sorted(rp.atoms())
            if len(bl) <= 4: return padd(qp, self._tabulate(rp, d, bl))
        # nested floor: floor((floor(x/e)+y)/d) = floor((x+e*y)/(e*d))
        fl = [(m, c) for m, c in rp.t.items() if len(m) == 1 and self.atoms[m[0]].kind == FLOOR]
        if len(fl) == 1 and fl[0][1] == 1 and not any(len(m) > 1 for m in rp.t):
            a = self.atoms[fl[0][0][0]]
            x, e = a.data
            t = dict(rp.t); del t[fl[0][0]]
            rp = padd(x, pscale(Poly(t), e)); d = d*e
            return padd(qp, self._mkfloor(rp, d, lo, hi, qp, d0))
        return padd(qp, self._mkfloor(rp, d, lo, hi, qp, d0))

    def _split(self, rp, d):
        val = {}
        for m, c in rp.t.items(): val.setdefault((c & -c).bit_length() - 1, []).append((m, c))
        ks = sorted(val)
        if len(ks) < 2: return None
        low = {}
        best = None
        D = d.bit_length() - 1
        for i, k in enumerate(ks[:-1]):
            low.update(val[k])
            g = min(ks[i+1], D)
            l, h = self.pint(Poly(dict(low)))
            if l >> g == h >> g: best = (g, l >> g, set(low))
        if best is None: return None
        g, k, lowm = best
        t = {m: c >> g for m, c in rp.t.items() if m not in lowm}
        if k:
            c0 = t.get((), 0) + k
            if c0: t[()] = c0
            else: t.pop((), None)
        return Poly(t), d >> g
    def _tabulate(self, rp, d, bl):
        """multilinear polynomial of floor(rp/d) over boolean atoms bl"""
        res = {}
        n = len(bl)
        vals = {}
        for bits in range(1 << n):
            env = {bl[i]: (bits >> i) & 1 for i in range(n)}
            vals[bits] = self.subst_bools(rp, env).const() // d
        # Moebius transform
        for i in range(n):
            for bits in range(1 << n):
                if bits >> i & 1: vals[bits] -= vals[bits ^ (1 << i)]
        for bits, c in vals.items():
            if c: res[tuple(bl[i] for i in range(n) if bits >> i & 1)] = c
        return Poly(res)

    def _mkfloor(self, rp, d, lo, hi, qp, d0):
        l, h = self.pint(rp)
        # interval through the original: floor(p/d0) - q
        if not qp.t: l2, h2 = lo//d0, hi//d0
        else:
            ql, qh = self.pint(qp); l2, h2 = lo//d0 - qh, hi//d0 - ql
        fl, fh = max(l//d, l2), min(h//d, h2)
        if fl == fh: return pconst(fl)
        # normalise again: pull out multiples after a merge
        q, r = {}, {}
        for m, c in rp.t.items():
            if c % d == 0: q[m] = c//d
            elif not m:
                if c//d: q[m] = c//d
                if c % d: r[m] = c % d
            else: r[m] = c
        rp = Poly(r); qq = Poly(q)
        key = (FLOOR, rp.key(), d)
        a = self.bykey.get(key)
        if a is None:
            if qq.t:
                ql, qh = self.pint(qq); fl, fh = fl - qh, fh - ql
                l, h = self.pint(rp); fl, fh = max(fl, l//d), min(fh, h//d)
                if fl == fh: return padd(qq, pconst(fl))
            a = self.new('fl%d' % len(self.atoms), FLOOR, fl, fh, (rp, d), fl == 0 and fh == 1)
            self.bykey[key] = a
        else:
            pass
        return padd(qq, Poly({(a.id,): 1}))

    # ---------- booleans (polynomials with value 0 or 1)
    def boolify(self, p):
        """p has value in {0,1}: return an equal polynomial that is multilinear in boolean atoms"""
        if all(all(x in self.bools for x in m) for m in p.t): return self.apply_known(p)
        q = psub(pconst(1), p)
        k1, k2 = (BOOL, p.key()), (BOOL, q.key())
        a = self.bykey.get(k1)
        if a: return self.apply_known(Poly({(a.id,): 1}))
        a = self.bykey.get(k2)
        if a: return self.apply_known(psub(pconst(1), Poly({(a.id,): 1})))
        a = self.new('b%d' % len(self.atoms), BOOL, 0, 1, p, True)
        self.bykey[k1] = a
        return Poly({(a.id,): 1})
    def eqzero(self, d):
        """boolean polynomial for d == 0"""
        k, c, s = self._norm(d)
        if k is None: return pconst(1 if c == 0 else 0)
        lo, hi = self.pint(d)
        if lo > 0 or hi < 0: return ZERO
        if lo == hi == 0: return pconst(1)
        g = 0
        for c in d.t.values(): g = math.gcd(g, c)
        if g > 1:
            d = Poly({m: c//g for m, c in d.t.items()}); l2, h2 = self.pint(d); lo, hi = max(-(-lo//g), l2), min(hi//g, h2)
            if lo > 0 or hi < 0: return ZERO
            if lo == hi == 0: return pconst(1)
        if lo >= 0 and hi <= 1: return psub(pconst(1), self.boolify(d))
        if lo >= -1 and hi <= 0: return psub(pconst(1), self.boolify(pneg(d)))
        if len(d.t) == 1:
            (m, cc), = d.t.items()
            if len(m) == 1 and self.atoms[m[0]].kind == OPQ:
                op, x, y = self.atoms[m[0]].data
                if op == 'or': return self.pmul(self.eqzero(x), self.eqzero(y))
                if op == 'xor': return self.eqzero(psub(x, y))
                if op == 'memcmp': return self.apply_known(psub(pconst(1), padd(x, y)))     # (x, y) = (0, differs)
        if s < 0: d = pneg(d)
        key = (EQ, d.key())
        a = self.bykey.get(key)
        if a is None:
            a = self.new('eq%d' % len(self.atoms), EQ, 0, 1, d, True)
            self.bykey[key] = a
        return self.apply_known(Poly({(a.id,): 1}))
    def lookup(self, i, first, table):
        """table[i - first] for an index polynomial i with values in first .. first+len(table)-1"""
        n = len(table); d = table[1] - table[0] if n > 1 else 0
        if all(t == table[0] + d*k for k, t in enumerate(table)): return padd(pscale(i, d), pconst(table[0] - d*first))
        key = (TAB, i.key(), first, tuple(table)); a = self.bykey.get(key)
        if a is None:
            a = self.bykey[key] = self.new('tab%d' % len(self.atoms), TAB, min(table), max(table), (i, first, tuple(table)))
        return Poly({(a.id,): 1})
    def ltzero(self, d):
        lo, hi = self.pint(d)
        if hi < 0: return pconst(1)
        if lo >= 0: return ZERO
        if any(self.atoms[x].kind == OPQ and self.atoms[x].data[0] == 'memcmp' for m in d.t for x in m): raise Unsupported('order of memory contents')
        b = self.opaque_sign(d)
        if b is not None: return self.apply_known(b)
        K = 1 << 63
        while -lo > K or hi >= K: K <<= 1
        return self.boolify(pneg(self.floor(d, K, lo, hi)))
    def opaque_sign(self, d):
        """is +-(x op y) negative, from the signs of x and y (two's complement)"""
        if len(d.t) != 1: return None
        (m, c), = d.t.items()
        if len(m) != 1 or c not in (1, -1) or self.atoms[m[0]].kind != OPQ: return None
        op, x, y = self.atoms[m[0]].data
        if op not in ('or', 'and', 'xor'): return None
        if c == -1:
            v = pneg(d)
            return psub(pconst(1), self.eqzero(v)) if self.pint(v)[0] >= 0 else None
        sx, sy = self.ltzero(x), self.ltzero(y); b = self.pmul(sx, sy)
        return b if op == 'and' else psub(padd(sx, sy), pscale(b, 1 if op == 'or' else 2))
    def opaque(self, op, a, b, lo, hi):
        ks = sorted([a, b], key=lambda p: sorted(p.t.items()))
        key = (op, ks[0].key(), ks[1].key())
        x = self.bykey.get(key)
        if x is None:
            x = self.new('%s%d' % (op, len(self.atoms)), OPQ, lo, hi, (op, ks[0], ks[1]))
            self.bykey[key] = x
        return Poly({(x.id,): 1})
    def apply_known(self, p):
        if not self.known: return p
        if any(x in self.known for m in p.t for x in m): return self.subst_bools(p, self.known)
        return p

    # ---------- obligations
    def ok(self, kind, backend): 
        k = (kind, backend)
        self.count[k] = self.count.get(k, 0) + 1

    # ---------- evaluation of atoms under an assignment of base atoms (for counterexamples)
    def evalp(self, p, env):
        s = 0
        for m, c in p.t.items():
            v = c
            for x in m: v *= self.evala(x, env)
            s += v
        return s
    def evala(self, i, env):
        v = env.get(i)
        if v is not None: return v
        a = self.atoms[i]
        if a.kind == FLOOR: v = self.evalp(a.data[0], env)//a.data[1]
        elif a.kind == BOOL: v = self.evalp(a.data, env)
        elif a.kind == EQ: v = int(self.evalp(a.data, env) == 0)
        elif a.kind == TAB: v = a.data[2][self.evalp(a.data[0], env) - a.data[1]]
        elif a.kind == OPQ:
            x, y = self.evalp(a.data[1], env), self.evalp(a.data[2], env)
            v = x + y if a.data[0] == 'memcmp' else (x | y) if a.data[0] == 'or' else (x & y) if a.data[0] == 'and' else x ^ y
        else: raise KeyError(a.name)
        env[i] = v
        return v

# ------------------------------------------------------------------ polynomials over F_p
class Fp:
    """polynomial over F_p; monomials are tuples of (variable id, exponent)"""
    __slots__ = ('t','p')
    def __init__(self, t, p): self.t = t; self.p = p

def fconst(c, p):
    c %= p
    return Fp({(): c} if c else {}, p)
def fvar(v, p): return Fp({((v, 1),): 1}, p)
def fadd(a, b):
    p = a.p; t = dict(a.t)
    for m, c in b.t.items():
        n = (t.get(m, 0) + c) % p
        if n: t[m] = n
        else: t.pop(m, None)
    return Fp(t, p)
def fneg(a): return Fp({m: a.p - c for m, c in a.t.items()}, a.p)
def fsub(a, b): return fadd(a, fneg(b))
def fscale(a, k):
    k %= a.p
    if not k: return Fp({}, a.p)
    return Fp({m: c*k % a.p for m, c in a.t.items()}, a.p)
def _mm(m1, m2, bools):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for v, e in m2:
        if v in d: d[v] = 1 if v in bools else d[v] + e
        else: d[v] = e
    return tuple(sorted(d.items()))
def fmul(a, b, bools=()):
    p = a.p; t = {}
    if len(a.t)*len(b.t) > 4000000: raise Unsupported('F_p polynomial too large')
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mm(m1, m2, bools)
            n = (t.get(m, 0) + c1*c2) % p
            if n: t[m] = n
            else: t.pop(m, None)
    return Fp(t, p)
def fpow(a, n, bools=()):
    r = fconst(1, a.p)
    while n:
        if n & 1: r = fmul(r, a, bools)
        a = fmul(a, a, bools) if n > 1 else a
        n >>= 1
    return r
def feq(a, b): return a.t == b.t
