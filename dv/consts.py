"""Published constants: what their names and documentation say, evaluated on the words the crate's accessor functions return."""
import time
from core import *
from sym import *
from contracts import *
from jobs import Failure, Result, explore
from fields import FIELDS, CURVES
from gen_harness import CONSTS

MONTGOMERY = {'M221': ('221_3', 117050), 'CURVE25519': ('255_19', 486662), 'M383': ('383_187', 2065150), 'CURVE383187': ('383_187', 229969), 'M511': ('511_187', 530438)}
EDWARDS = {'E222': 'e222', 'CURVE1174': 'c1174', 'E382': 'e382', 'CURVE41417': 'c41417', 'E521': 'e521'}

def is_prime(n):
    """True: a certificate in lemmas/primes.json proves n prime; False: n is composite; None: neither is known"""
    import primes
    if primes.certified(n): return True
    return None if n > 3 and n % 2 and all(pow(a, n-1, n) == 1 for a in (2, 3, 5, 7, 11, 13)) else False

def ed_add(p, d, P, Q):
    (x1, y1), (x2, y2) = P, Q
    k = d*x1*x2*y1*y2 % p
    return (x1*y2 + x2*y1)*pow(1 + k, -1, p) % p, (y1*y2 - x1*x2)*pow(1 - k, -1, p) % p
def mont_add(p, A, P, Q):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3*P[0]**2 + 2*A*P[0] + 1)*pow(2*P[1], -1, p)
    else: l = (Q[1] - P[1])*pow(Q[0] - P[0], -1, p)
    x = (l*l - A - P[0] - Q[0]) % p
    return x, (l*(P[0] - x) - P[1]) % p
def multiple(add, O, n, P):
    R = O
    for b in bin(n)[2:]:
        R = add(R, R)
        if b == '1': R = add(R, P)
    return R

def judge(F, name, get):
    """get(NAME) -> words of a published constant of field F.  -> list of (obligation, ok, detail)"""
    p = F.p; w = get(name); v = F.val(w); r = []
    def ob(what, ok, detail=''): r.append((what, bool(ok), detail))
    plain = {'ZERO': 0, 'ONE': 1, 'M_ONE': p - 1, 'M_HALF': (p - 1)//2, 'MODULUS': p}
    if name in plain:
        want = [(plain[name] >> (F.w*i)) & ((1 << F.w) - 1) for i in range(F.n)]
        ob('%s has the named value in canonical words' % name, w == want, '%s instead of %s' % (w, want)); return r
    canon = all(F.crange(i)[0] <= x <= F.crange(i)[1] for i, x in enumerate(w)) and 0 <= v < p
    ob('%s is in canonical form' % name, canon, str(w))
    curve, what = name.split('_', 1)
    if what == 'D':
        d = CURVES[EDWARDS[curve]].d
        ob('%s is the documented coefficient %d' % (name, d), (v - d) % p == 0, str(v))
        ob('%s is a non-square' % name, pow(v, (p-1)//2, p) == p - 1)
        return r
    g = lambda s: F.val(get(curve + s)) % p
    x, y, n = g('_BASE_X'), g('_BASE_Y'), F.val(get(curve + '_ORDER'))
    if curve in EDWARDS:
        d = CURVES[EDWARDS[curve]].d; on = (x*x + y*y - 1 - d*x*x*y*y) % p == 0; O = (0, 1); add = lambda a, b: ed_add(p, d, a, b)
    else:
        A = MONTGOMERY[curve][1]; on = (y*y - x**3 - A*x*x - x) % p == 0; O = None; add = lambda a, b: mont_add(p, A, a, b)
    if what in ('BASE_X', 'BASE_Y'): ob('%s base point is on the curve' % curve, on)
    else:
        prime = is_prime(n)
        if prime is None: raise Unsupported('no primality certificate for the published order %d' % n)
        ob('%s order is prime' % curve, prime, str(n))
        ob('%s base point is on the curve' % curve, on)
        ok = False
        if on:
            try: ok = multiple(add, O, n, (x, y)) == O and (x, y) != O
            except ValueError: ok = False
        ob('%s order annihilates the base point, which is not the identity' % curve, ok)
    return r

class ConstJob:
    """a published constant, read by executing an accessor that returns it (no inputs: evaluation is a proof)"""
    firstpath = False
    def __init__(self, F, name, variant='', idx=None, without=()):
        self.F = F; self.opname = self.name = name; self.key = '%s.const.%s' % (F.name, name)
    def run(self, mod):
        res = Result(self.key); t0 = time.time(); F = self.F
        cons = {}; havoc = {}
        def mkexec(ctx, dec): return Exec(mod, ctx, cons, dec)
        try: explore(res, lambda: FieldCtx(F), mkexec, self.body)
        except Exception as e:
            if not isinstance(e, Unsupported) and type(e).__name__ != 'Unsupported': raise
            res.error = 'unsupported: %s' % e
        res.wall = time.time() - t0
        return res
    def body(self, ex):
        F = self.F; ex.inputs = []
        def get(name):
            o = ex.newobj(name, 8*F.n)
            for i in range(F.n): o.cells[8*i] = (8, cval(64, 7))
            ex.call('h_%s_const_%s' % (F.name, name), [Ptr(o, 0)])
            r = []
            for v in load_elem(ex, Ptr(o, 0)):
                if ex.const_of(v) is None: raise Unsupported('constant is not constant')
                r.append(v.p.const())
            return r
        fails = []
        for what, ok, detail in judge(F, self.name, get):
            if ok: ex.ctx.ok(what, 'evaluation')
            else: fails.append(Failure('value', what, detail))
        return fails

def const_search(rp, F, name):
    def get(nm):
        out = rp.batch(['%s const_%s %s' % (F.name, nm, ','.join(['7']*F.n))])[0]
        return [int(x) for x in out.split(',')]
    try: js = judge(F, name, get)
    except Unsupported: return None
    except ValueError as e: return {'field': F.name, 'op': 'const_' + name, 'problem': str(e), 'tag': 'value', 'kind': 'const'}
    for what, ok, detail in js:
        if not ok: return {'kind': 'const', 'field': F.name, 'op': 'const_' + name, 'const': name, 'output': get(name), 'problem': 'fails: %s %s' % (what, detail), 'tag': 'value'}
    return None
