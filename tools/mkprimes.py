#!/usr/bin/env python3
"""Generates lemmas/primes.json: primality certificates (Atkin-Morain elliptic curve proofs and Pocklington steps), which dv/primes.py checks.
The generator is not trusted; only the checker is.  usage: mkprimes.py"""
import sys, os, math, random, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'dv'))
import mpmath
import primes as chk
random.seed(7)
def prp(n):
    if n < 2: return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % q == 0: return n == q
    d, s = n-1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n-1): continue
        for _ in range(s-1):
            x = x*x % n
            if x == n-1: break
        else: return False
    return True
def sieve(B):
    s = bytearray([1])*(B+1); s[0:2] = b'\0\0'
    for i in range(2, int(B**.5)+1):
        if s[i]: s[i*i::i] = bytes(len(s[i*i::i]))
    return [i for i in range(B+1) if s[i]]
PR = sieve(1 << 21)
def prod(l):
    while len(l) > 1: l = [l[i]*l[i+1] if i+1 < len(l) else l[i] for i in range(0, len(l), 2)]
    return l[0]
PRIMORIAL = prod(PR)
def smooth(m):
    """-> cofactor of m without primes below 2^21"""
    while True:
        g = math.gcd(m, PRIMORIAL % m)
        if g == 1: return m
        m //= g
def jacobi(a, n):
    a %= n; t = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5): t = -t
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3: t = -t
        a %= n
    return t if n == 1 else 0
def sqrtmod(a, p):
    a %= p
    if p % 4 == 3: r = pow(a, (p+1)//4, p); return r if r*r % p == a else None
    q, s = p-1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while jacobi(z, p) != -1: z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q+1)//2, p)
    while t != 1:
        if t == 0: return 0
        i, x = 0, t
        while x != 1:
            x = x*x % p; i += 1
            if i == m: return None
        b = pow(c, 1 << (m-i-1), p); m = i; c = b*b % p; t = t*c % p; r = r*b % p
    return r
def cornacchia4(N, D):
    if jacobi(-D, N) != 1: return None
    x = sqrtmod(-D, N)
    if x is None: return None
    if (x - D) % 2: x = N - x
    a, b, l = 2*N, x, math.isqrt(4*N)
    while b > l: a, b = b, a % b
    r = 4*N - b*b
    if r % D: return None
    v = math.isqrt(r//D)
    return (b, v) if v*v == r//D else None
def forms(D):
    r = []
    b = D % 2
    while b*b <= D/3:
        q = (b*b + D)//4
        a = max(b, 1)
        while a*a <= q:
            if q % a == 0:
                c = q//a
                if math.gcd(math.gcd(a, b), c) == 1:
                    r.append((a, b, c))
                    if 0 < b < a < c: r.append((a, -b, c))
            a += 1
        b += 2
    return r
def hilbert(D):
    fs = forms(D)
    prec = int(math.pi*math.sqrt(D)*sum(1/a for a, _, _ in fs)/math.log(2)) + 80
    mpmath.mp.prec = prec
    P = [mpmath.mpc(1)]
    for a, b, c in fs:
        tau = mpmath.mpc(-b, mpmath.sqrt(D))/(2*a)
        q = mpmath.exp(2j*mpmath.pi*tau)
        # j = (1 + 240 sum sigma3 q^n)^3 / Delta, with eta products
        def eta24(q):
            s = mpmath.mpc(1); n = 1
            while True:
                t = (-1)**n*(q**(n*(3*n-1)//2) + q**(n*(3*n+1)//2)); s += t
                if abs(t) < mpmath.mpf(2)**(-prec): return s**24
                n += 1
        f = (eta24(q*q)*q*q)/(eta24(q)*q)      # Delta(2tau)/Delta(tau)
        j = (256*f + 1)**3/f
        P = [(P[i-1] if i else 0) - j*(P[i] if i < len(P) else 0) for i in range(len(P)+1)]
    out = []
    for x in P:
        n = int(mpmath.nint(x.real)); assert abs(x.real - n) < 0.01 and abs(x.imag) < 0.01, D
        out.append(n)
    return out          # low degree first
def pmul(a, b, H, N):
    r = [0]*(len(a)+len(b)-1)
    for i, x in enumerate(a):
        for j, y in enumerate(b): r[i+j] += x*y
    return pmod([x % N for x in r], H, N)
def pmod(a, H, N):
    a = a[:]; d = len(H)-1
    while len(a) > d:
        c = a.pop()
        if c:
            for i in range(d): a[len(a)-d+i] = (a[len(a)-d+i] - c*H[i]) % N
    while a and a[-1] == 0: a.pop()
    return a
def pgcd(a, b, N):
    while b:
        inv = pow(b[-1], -1, N); b = [x*inv % N for x in b]
        a, b = b, pmod(a, b, N)
    inv = pow(a[-1], -1, N)
    return [x*inv % N for x in a]
def root(H, N):
    H = [x % N for x in H]
    while len(H) > 2:
        r = [random.randrange(N), 1]; x = [1]; e = (N-1)//2
        for b in bin(e)[2:]:
            x = pmul(x, x, H, N)
            if b == '1': x = pmul(x, r, H, N)
        if not x: continue
        x[0] = (x[0] - 1) % N
        while x and x[-1] == 0: x.pop()
        if not x: continue
        g = pgcd(H, x, N)
        if 1 < len(g) < len(H):
            q = H[:]                                   # pick the smaller factor
            if len(g)-1 <= (len(H)-1)//2: H = g
            else:
                quo = []
                while len(q) >= len(g):
                    c = q[-1]; quo.append(c); k = len(q)-len(g)
                    for i in range(len(g)): q[k+i] = (q[k+i] - c*g[i]) % N
                    q.pop()
                H = quo[::-1]
    return -H[0]*pow(H[1], -1, N) % N

DS = []
for D in range(3, 6000):
    if D % 4 not in (0, 3): continue
    # fundamental
    m = D
    ok = True
    if m % 4 == 0:
        m //= 4
        if m % 4 == 3: continue      # -4m with m = 3 mod 4 is not fundamental
    for q in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73):
        if m % (q*q) == 0: ok = False
    if D % 4 == 0 and m % 4 == 0: ok = False
    if not ok: continue
    h = len(forms(D))
    if h <= 24: DS.append((h, D))
DS.sort()

def steps(N):
    """candidate steps for N, best first: ('ecpp', D, m, q) or ('pock', q)"""
    lim = (math.isqrt(math.isqrt(N)) + 2)**2
    q = smooth(N-1)
    if q*q > N*4 and prp(q): yield ('pock', q)
    for h, D in DS:
        uv = cornacchia4(N, D)
        if not uv: continue
        u, v = uv
        ms = [N+1-u, N+1+u]
        if D == 4: ms += [N+1-2*v, N+1+2*v] if True else []
        if D == 3: ms += [N+1+(u+3*v)//2, N+1-(u+3*v)//2, N+1+(u-3*v)//2, N+1-(u-3*v)//2]
        for m in ms:
            q = smooth(m)
            if q == m or q <= lim or q >= N: continue
            if prp(q): yield ('ecpp', D, m, q)
def curve(N, D, m, q):
    if D == 3: cands = [(0, b) for b in range(1, 60)]
    elif D == 4: cands = [(a, 0) for a in range(1, 60)]
    else:
        j = root(hilbert(D), N); k = j*pow(1728 - j, -1, N) % N
        cands = []
        for c in (1, 2, 3, 5, 6, 7, 10, 11, 13):
            cands.append((3*k*c*c % N, 2*k*c*c*c % N))
    for a, b in cands:
        for x in range(1, 40):
            y2 = (x**3 + a*x + b) % N
            if jacobi(y2, N) != 1: continue
            y = sqrtmod(y2, N)
            step = {'a': a, 'b': b, 'x': x, 'y': y, 'm': m, 'q': q}
            st = chk.ec_multiple(N, a, (x, y), m)
            if st == 'O':
                P = chk.ec_multiple(N, a, (x, y), m//q)
                if P not in ('O', None): return step
            else: break
    return None
def prove(N, depth=0):
    if N < 1 << 40: return []
    for s in steps(N):
        print(' '*depth, N.bit_length(), s[0], s[1] if s[0] == 'ecpp' else '', '->', s[-1].bit_length(), flush=True)
        if s[0] == 'pock':
            q = s[1]
            for a in range(2, 50):
                if pow(a, N-1, N) == 1 and math.gcd(pow(a, (N-1)//q, N) - 1, N) == 1: st = {'pock': a, 'q': q}; break
            else: continue
        else:
            st = curve(N, *s[1:])
            if st is None: print('no curve'); continue
        rest = prove(s[-1], depth+1)
        if rest is not None: return [st] + rest
    return None
if __name__ == '__main__':
    from fields import FIELDS
    targets = {'field ' + f: F.p for f, F in FIELDS.items()}
    targets.update(chk.ORDERS)
    out = {}
    for n, N in targets.items():
        print(n, N.bit_length(), flush=True)
        c = prove(N); assert c is not None and chk.check(N, c), n
        out[n] = {'n': N, 'steps': c}
    json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lemmas', 'primes.json'), 'w'), indent=0)
