"""Checks the primality certificates in lemmas/primes.json (generated by tools/mkprimes.py, which is not trusted).
A certificate of N is a list of steps, each reducing the primality of N to that of a smaller q, down to a number settled by trial division:
 - Pocklington: q | N-1, q > sqrt(N), a^(N-1) = 1, gcd(a^((N-1)/q) - 1, N) = 1
 - Goldwasser-Kilian: on E: y^2 = x^3 + a x + b over Z/N, gcd(4a^3 + 27b^2, N) = 1, the point P has m P = O and (m/q) P != O
   (every inversion on the way is of a unit), q | m, q > (N^(1/4) + 1)^2."""
import os, json, math

def ec_add(N, a, P, Q):
    """-> point, 'O', or None when a denominator is neither 0 nor a unit"""
    if P == 'O': return Q
    if Q == 'O': return P
    (x1, y1), (x2, y2) = P, Q
    if (x1 - x2) % N == 0:
        if (y1 + y2) % N == 0: return 'O'
        if (y1 - y2) % N: return None
        n, d = 3*x1*x1 + a, 2*y1
    else: n, d = y2 - y1, x2 - x1
    if math.gcd(d, N) != 1: return None
    l = n*pow(d, -1, N) % N
    x = (l*l - x1 - x2) % N
    return x, (l*(x1 - x) - y1) % N
def ec_multiple(N, a, P, k):
    R = 'O'
    for b in bin(k)[2:]:
        R = ec_add(N, a, R, R)
        if R is None: return None
        if b == '1':
            R = ec_add(N, a, R, P)
            if R is None: return None
    return R

def small_prime(n):
    if n < 2: return False
    return all(n % q for q in range(2, math.isqrt(n) + 1)) if n < 1 << 40 else False

def check(N, steps):
    """True if the steps prove N prime"""
    for s in steps:
        q = int(s['q'])
        if N < 3 or N % 2 == 0 or N % 3 == 0 or not 1 < q < N: return False
        if 'pock' in s:
            if (N-1) % q or q*q <= N: return False
            if pow(s['pock'], N-1, N) != 1 or math.gcd(pow(s['pock'], (N-1)//q, N) - 1, N) != 1: return False
        else:
            a, b, x, y, m = (int(s[k]) for k in 'abxym')
            r = math.isqrt(math.isqrt(N)) + 2                    # > N^(1/4) + 1
            if m % q or q <= r*r: return False
            if math.gcd(4*a**3 + 27*b*b, N) != 1 or (y*y - x**3 - a*x - b) % N: return False
            P = ec_multiple(N, a, (x % N, y % N), m//q)
            if P in ('O', None) or ec_multiple(N, a, P, q) != 'O': return False
        N = q
    return small_prime(N)

_cache = {}
def certified(n):
    """True if the certificate file holds a valid proof that n is prime"""
    if n in _cache: return _cache[n]
    try: certs = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lemmas', 'primes.json')))
    except (OSError, ValueError): certs = {}
    _cache[n] = any(int(c['n']) == n and check(n, c['steps']) for c in certs.values())
    return _cache[n]

# prime orders of the published base points (what the certificates of tools/mkprimes.py are made for; the checks certify whatever number the crate publishes)
ORDERS = {
    'order M221': 421249166674228746791672110734682167926895081980396304944335052891,
    'order E222': 1684996666696914987166688442938726735569737456760058294185521417407,
    'order CURVE1174': 904625697166532776746648320380374280092339035279495474023489261773642975601,
    'order CURVE25519': 7237005577332262213973186563042994240857116359379907606001950938285454250989,
    'order E382': 2462625387274654950767440006258975862817483704404090416745738034557663054564649171262659326683244604346084081047321,
    'order M383': 2462625387274654950767440006258975862817483704404090416746934574041288984234680883008327183083615266784870011007447,
    'order CURVE383187': 2462625387274654950767440006258975862817483704404090416747124418612574880605944350369924877650606926799392131911201,
    'order CURVE41417': 5288447750321988791615322464262168318627237463714249754277190328831105466135348245791335989419337099796002495788978276839289,
    'order M511': 837987995621412318723376562387865382967460363787024586107722590232610251879607410804876779383055508762141059258497448934987052508775626162460930737942299,
    'order E521': 1716199415032652428745475199770348304317358825035826352348615864796385795849413675475876651663657849636693659065234142604319282948702542317993421293670108523}
