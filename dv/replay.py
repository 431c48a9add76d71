"""Concrete oracle and search: runs the compiled crate (harness replay binary) on given words and compares with integer arithmetic."""
import subprocess, random, math
from fields import FIELDS, CURVES
from optab import OPS, INTS

class Replay:
    def __init__(self, binary): self.binary = binary
    def batch(self, lines, timeout=60):
        """one output line per input line; CRASH / HANG for a line that ends or blocks the process (output is flushed per line)"""
        out = []; todo = list(lines); bad = 0
        while todo:
            if bad >= 3: out += ['SKIPPED']*len(todo); break
            hang = False
            try:
                r = subprocess.run([self.binary], input='\n'.join(todo) + '\n', capture_output=True, text=True, timeout=timeout)
                txt, rc = r.stdout, r.returncode
            except subprocess.TimeoutExpired as e:
                txt = e.stdout or b''; txt = txt.decode() if isinstance(txt, bytes) else txt; rc = 0; hang = True
            got = txt.split('\n')[:-1][:len(todo)]
            out += got; todo = todo[len(got):]
            if todo:
                if hang and got and timeout >= 30: out += ['SKIPPED']*len(todo); break      # slow, not blocked
                out.append('HANG' if hang else 'CRASH rc=%d' % rc); todo = todo[1:]; bad += 1
        return out

def fmt(letter, v):
    if letter in 'mMrco': return ','.join(str(x) for x in v)
    if letter in 'STP': return '#' + bytes(v).hex()
    if letter == 'R': return ','.join(str(x - (1 << 64) if x >> 63 else x) for x in v)
    return str(int(v))
def line(F, op, args, alias=False):
    same = alias and op.args.count('r') == 2 and 'F' not in op.args        # one element passed twice
    return ' '.join([F.name, op.name + '@same'*same] + [fmt(l, v) for l, v in zip(op.args, args)])
def words(s): return [int(x) for x in s.split(',')] if s else []

def root_ok(F, v): return v % F.p == 0 or pow(v % F.p, (F.p-1)//2, F.p) == 1

def check(F, op, args, out):
    """None if the output line agrees with the mathematical meaning, else (tag, description)"""
    if out == 'SKIPPED': return None
    if out.startswith(('PANIC', 'CRASH', 'HANG')): return 'panic', out
    e = check1(F, op, args, out)
    if e is None: return None
    return ('frame' if 'was modified' in e else 'range' if 'out of range' in e or 'outside the representation' in e else 'value'), e
def check1(F, op, args, out):
    p = F.p
    toks = out.split(' ')
    post = {}; j = 0
    for i, l in enumerate(op.args):
        if l in 'mMrcoSTP' and op.kind not in ('hex', 'debug') or (op.kind in ('hex', 'debug') and i == 0):
            t = toks[j]; j += 1
            post[i] = list(bytes.fromhex(t[1:])) if l in 'STP' else words(t)
    ret = toks[j] if op.ret and j < len(toks) else None
    for i, l in enumerate(op.args):
        if l in 'rcS' and post[i] != list(args[i]): return 'operand %d was modified: %s -> %s' % (i, args[i], post[i])
    k = op.kind; val = F.val
    ins = [val(a) if l in 'mMrc' else a for l, a in zip(op.args, args) if l != 'o']
    if k in ('arith', 'invert', 'div', 'legendre', 'sqrt'):
        o = post[0]; v = val(o)
        if not F.in_rep(o): return 'result words outside the representation range: %s' % o
        if k == 'arith':
            e = {'add': lambda: ins[0]+ins[1], 'sub': lambda: ins[0]-ins[1], 'mul': lambda: ins[0]*ins[1], 'neg': lambda: -ins[0], 'square': lambda: ins[0]**2}[op.sem]()
            if (v - e) % p: return 'value: got %d, expected %d (mod p)' % (v % p, e % p)
        elif k == 'invert':
            if ins[0] % p and (v*ins[0] - 1) % p: return 'inverse times operand is %d' % (v*ins[0] % p)
        elif k == 'div':
            if ins[1] % p and (v*ins[1] - ins[0]) % p: return 'quotient times divisor is %d, dividend %d' % (v*ins[1] % p, ins[0] % p)
        elif k == 'legendre':
            if (v - pow(ins[0] % p, (p-1)//2, p)) % p: return 'legendre %d, expected %d' % (v % p, pow(ins[0] % p, (p-1)//2, p))
        else:
            if root_ok(F, ins[0]) and (v*v - ins[0]) % p: return 'square of the root is %d, operand %d' % (v*v % p, ins[0] % p)
        return None
    if k == 'normalize':
        return None if post[0] == F.canon(ins[0]) else 'got %s, canonical form is %s' % (post[0], F.canon(ins[0]))
    if k == 'eq':
        for i in (0, 1):
            if op.args[i] in 'mM' and post[i] != F.canon(ins[i]): return 'operand %d left as %s, canonical form is %s' % (i, post[i], F.canon(ins[i]))
        want = int((ins[0] - ins[1]) % p == 0)
        return None if int(ret) == want else 'returned %s, expected %d' % (ret, want)
    if k == 'unpack':
        v = int.from_bytes(bytes(args[1]), 'little')
        if (val(post[0]) - v) % p or not F.in_rep(post[0]): return 'unpacked %s, expected value %d' % (post[0], v)
        return None
    if k == 'pack':
        want = list((ins[0] % p).to_bytes(F.nbytes, 'little'))
        got = post[1]
        if got[:F.nbytes] != want: return 'packed %s, expected %s' % (bytes(got).hex(), bytes(want).hex())
        if got[F.nbytes:] != list(args[1][F.nbytes:]): return 'bytes beyond the encoding changed'
        if (val(post[0]) - ins[0]) % p or not F.in_rep(post[0]): return 'operand changed value: %s' % post[0]
        return None
    if k in ('nbytes', 'nbits'):
        want = F.nbytes if k == 'nbytes' else F.N
        return None if int(ret) == want else 'returned %s, expected %d' % (ret, want)
    if k == 'bit':
        want = (ins[0] % p) >> args[1] & 1
        if (val(post[0]) - ins[0]) % p: return 'operand changed value'
        return None if int(ret) == want else 'bit %d: got %s, expected %d' % (args[1], ret, want)
    if k in ('bitop', 'bitop_n'):
        x, y = ins[0] % p, ins[1] % p
        want = x & y if op.sem == 'and' else x | y
        if not F.in_rep(post[0]): return 'result words out of range: %s' % post[0]
        if (val(post[1]) - ins[1]) % p: return 'right operand changed value'
        return None if (val(post[0]) - want) % p == 0 else 'got %d, expected %d' % (val(post[0]), want)
    if k == 'fill':
        want = [-int(args[1])]*F.n
        return None if post[0] == want else 'mask words %s, expected %s' % (post[0], want)
    if k == 'const':
        want = F.canon(op.sem) if op.sem != 'p' else [(p >> (F.w*i)) & ((1 << F.w) - 1) for i in range(F.n)]
        return None if post[0] == want else 'constant is %s, expected %s' % (post[0], want)
    if k == 'rand':
        o = post[0]
        return None if o == F.canon(val(o)) else 'random element %s is not canonical' % o
    if k == 'hex':
        want = '%0*x' % (2*F.nbytes, ins[0] % p)
        if op.sem == 'X': want = want.upper()
        if post[0] != list(args[0]): return 'operand was modified'
        return None if toks[1] == want else 'printed %s, expected %s' % (toks[1], want)
    return None

# ---------------------------------------------------------------- inputs
def rand_elem(F, rng, mode='rep'):
    r = rng.random()
    if mode == 'garbage': return [rng.choice([0, -1, rng.getrandbits(63), -rng.getrandbits(63) - 1]) for _ in range(F.n)]
    if mode == 'canon':
        if r < .3: v = rng.choice([0, 1, 2, F.p-1, F.p-2, F.p//2, F.p-F.c, F.c, (1 << F.w) - 1, 1 << F.w, rng.getrandbits(F.w)])
        elif r < .5: v = sum(rng.choice([0, (1 << F.w) - 1, 1, 1 << (F.w-1), rng.getrandbits(F.w)]) << (F.w*i) for i in range(F.n))
        else: v = rng.getrandbits(F.N + 8)
        return F.canon(v)
    if r < .25:
        v = rng.choice([0, 1, F.p-1, F.p, F.p+1, F.c, F.p-F.c, 1 << F.N, rng.randrange(-F.c*4, F.c*4), F.p + rng.randrange(-F.c*4, F.c*4), 2*F.p + rng.randrange(-F.c*4, F.c*4)])
        k = rng.choice([0, 0, 1, -1, 2, -2])
        v += k*F.p
        out = [(v >> (F.w*i)) & ((1 << F.w) - 1) for i in range(F.n-1)]; out.append(v >> (F.w*(F.n-1)))
        if F.in_rep(out): return out
    if r < .4:
        return rand_elem(F, rng, 'canon')
    out = []
    for i in range(F.n):
        lo, hi = F.lrange(i)
        x = rng.random()
        if x < .5: out.append(rng.randint(lo, hi))
        elif x < .75: out.append(rng.choice([lo, hi, 0, 1, hi//2, hi//4, hi//4 + 1]))
        elif x < .85: out.append(max(lo, min(hi, rng.choice([1, -1])*(1 << rng.randrange(0, 60)))))
        else: out.append(max(lo, min(hi, rng.choice([lo, hi]) + rng.randrange(-3, 4))))
    return out
def rand_arg(F, op, i, rng, idx=None):
    l = op.args[i]
    if l == 'o': return rand_elem(F, rng, 'garbage')
    if l == 'c' or (op.kind == 'bitop_n'): return rand_elem(F, rng, 'canon')
    if l in 'mMr': return rand_elem(F, rng)
    if l in '318':
        w = INTS[l]; m = 1 << (w-1)
        return rng.choice([0, 1, -1, m-1, -m, -m+1, m-2, rng.randrange(-m, m), rng.randrange(-m, m), rng.randrange(-m, m) >> rng.randrange(w)])
    if l == 'b': return rng.randrange(2)
    if l == 'u': return idx if idx is not None else rng.randrange(F.N)
    if l == 'S': return list(F.val(rand_elem(F, rng, 'canon')).to_bytes(F.nbytes, 'little'))
    if l == 'T': return [rng.randrange(256) for _ in range(F.nbytes + 5)]
    if l == 'P': return [rng.randrange(256) for _ in range(F.nbytes)]
    if l == 'R':
        m = [(F.p >> (F.w*i)) & ((1 << F.w) - 1) for i in range(F.n)]
        def w(i):
            r = rng.random(); b = m[i % F.n]
            if r < .3: return b - 1
            if r < .4: return rng.choice([0, b, b + 1, b - 2, (1 << 64) - 1, 1 << 63, 2*b, 2*b - 1])
            return rng.getrandbits(64) if r < .7 else rng.randrange(b + 2)
        if rng.random() < .3:                   # all words at a boundary together
            c = rng.choice([-1, 0, 1, -2]); mx = rng.random() < .3
            return [max(0, m[i] + (rng.choice([-1, 0, 1]) if mx else c)) for i in range(F.n)] + [0]*(16 - F.n)
        return [w(i) for i in range(16)]
    if l == 'F': return 0
def lanes(F, rng, bits):
    """an integer made of half-word lanes that are extreme by themselves or after multiplication by c"""
    w = F.w//2; M = 1 << w; ci = pow(F.c, -1, M); v = 0; r0 = rng.random(); pl = [0, 0, M-1, 1, ci, M-ci, M-ci-1, 2*ci % M, (M-1)//F.c, (M-1)//F.c + 1]
    for i in range(0, bits, w):
        x = rng.choice(pl) if rng.random() < r0 else rng.getrandbits(w)
        v |= (x if rng.random() < .9 else max(0, min(M-1, x + rng.randrange(-2, 3)))) << i
    return v & ((1 << bits) - 1)
def product_args(F, op, a, rng, alias):
    """operands whose product has chosen high half, chosen low half, or chosen residue"""
    N, p = F.N, F.p; r = rng.random(); sq = op.sem == 'square' or alias
    if r < .6:
        k = N if rng.random() < .7 else rng.choice([F.w*F.n, F.w*(F.n-1), F.w*(F.n-1) + F.w//2, N - 1])
        P = lanes(F, rng, N) << k
        if sq: x = y = math.isqrt(max(0, P - 1)) + 1
        else:
            x = rng.choice([rng.getrandbits(N) | 1 << (N-1), lanes(F, rng, N) | 1 << (N-1), p - 1 - rng.getrandbits(8)])
            y = -(-P//x)
    elif r < .8:
        x = (rng.getrandbits(N) | 1) if rng.random() < .5 else lanes(F, rng, N) | 1
        y = x if sq else lanes(F, rng, N)*pow(x, -1, 1 << N) % (1 << N)
    else:
        x = rng.randrange(1, p); t = rng.choice([0, 1, -1, F.c, -F.c, 1 << (N-1), lanes(F, rng, N)]) + rng.randrange(-2, 3)
        y = x if sq else t*pow(x, -1, p) % p
    if not sq and rng.random() < .5: x, y = y, x
    es = [i for i, l in enumerate(op.args) if l in 'mMr']
    for i, v in zip(es, (x, y)):
        v %= 1 << N
        w = [(v >> (F.w*j)) & ((1 << F.w) - 1) for j in range(F.n)]
        if F.in_rep(w): a[i] = w
    return a

def rand_args(F, op, rng, alias=False, idx=None):
    a = [rand_arg(F, op, i, rng, idx) for i in range(len(op.args))]
    if op.sem in ('mul', 'square') and op.kind == 'arith' and all(l in 'mro' for l in op.args) and rng.random() < .4: return product_args(F, op, a, rng, alias)
    ps = [i for i, l in enumerate(op.args) if l in 'mMrc']
    if len(ps) == 2 and (alias or rng.random() < .2): 
        a[ps[1]] = list(a[ps[0]]) if op.args[ps[1]] != 'c' or op.args[ps[0]] == 'c' else F.canon(F.val(a[ps[0]]))
    elif len(ps) == 2 and rng.random() < .4:
        cn = op.args[ps[1]] == 'c' or op.kind == 'bitop_n' or rng.random() < .5
        if cn: a[ps[0]] = F.canon(F.val(a[ps[0]]))
        a[ps[1]] = relate(F, a[ps[0]], rng, cn)
    return a

def relate(F, x, rng, canon):
    """words close to x: some words changed, by amounts that cancel or repeat"""
    y = list(x); top = F.n
    rg = F.crange if canon else F.lrange
    r = rng.random(); k = rng.choice([1, 2, 2, 2, 3, 4]); ws = rng.sample(range(top), min(k, top))
    if r < .35:
        d = rng.choice([1, 2, 1 << rng.randrange(0, 30), rng.getrandbits(20) + 1])
        for j, i in enumerate(ws): y[i] += d if j % 2 else -d
    elif r < .5:
        d = rng.choice([1, 1 << rng.randrange(0, 40)])
        for i in ws: y[i] ^= d
    elif r < .6 and len(ws) > 1: y[ws[0]], y[ws[1]] = y[ws[1]], y[ws[0]]
    elif r < .7: y[ws[0]] = rng.choice([0, 1, rg(ws[0])[1], y[ws[0]] + 1, y[ws[0]] - 1])
    else:
        z = rand_elem(F, rng, 'canon' if canon else 'rep')
        for i in ws: y[i] = z[i]
    for i in range(top):
        lo, hi = rg(i)
        if not lo <= y[i] <= hi: y[i] = x[i]
    return F.canon(F.val(y)) if canon else y

def model_args(F, op, model, rng, idx=None):
    """arguments from a solver model: [(letter, words or None)]; missing entries are random"""
    a = rand_args(F, op, rng, idx=idx)
    for i, (l, v) in enumerate(model or []):
        if i >= len(a) or v is None or l in 'oFu': continue
        if l == 'R':
            for j, x in enumerate(v[:16]):
                if x is not None: a[i][j] = x
            continue
        if l in '318b':
            if v and v[0] is not None: a[i] = v[0]
        else: a[i] = [x if x is not None else a[i][j] for j, x in enumerate(v)]
    return a

def valid_args(F, op, args):
    for l, a in zip(op.args, args):
        if l == 'c' or (op.kind == 'bitop_n' and l == 'M'):
            if list(a) != F.canon(F.val(a)): return False
        elif l in 'mMr' and not F.in_rep(a): return False
        elif l == 'S' and int.from_bytes(bytes(a), 'little') >= F.p: return False
    return True

def from_pool(F, op, pool, rng, idx=None, alias=False):
    """arguments built from words on which a callee is known to misbehave"""
    a = rand_args(F, op, rng, alias, idx)
    for i, l in enumerate(op.args):
        if l in 'mMr' and op.kind != 'bitop_n' and pool: a[i] = list(rng.choice(pool))
        elif l in 'cM' and pool: a[i] = F.canon(F.val(rng.choice(pool)))
        elif l == 'S' and pool: a[i] = list((F.val(rng.choice(pool)) % F.p).to_bytes(F.nbytes, 'little'))
    ps = [i for i, l in enumerate(op.args) if l in 'mMr']
    if alias and len(ps) == 2: a[ps[1]] = list(a[ps[0]])
    return a

def reachable(rp, F, seed, chains=60, steps=40):
    """representations that histories of public operations leave behind, starting from canonical elements"""
    rng = random.Random('%s/%s/reach' % (seed, F.name))
    light = [o for o in HIST if o.kind not in ('invert', 'legendre', 'sqrt', 'div', 'bitop', 'bit', 'eq', 'pack') and 'm' in o.args]
    state = [[rand_elem(F, rng, 'canon'), rand_elem(F, rng, 'canon')] for _ in range(chains)]
    for i in range(0, chains, 5): state[i] = [F.canon(-1), F.canon(-1)]
    for i in range(1, chains, 5): state[i] = [F.canon(0), F.canon(0)]
    mode = [rng.choice(light) for _ in range(chains)]; keep = [rng.random() for _ in range(chains)]
    out = [list(w) for s in state for w in s]
    for st in range(steps):
        lines, ops = [], []
        for i in range(chains):
            op = mode[i] if rng.random() < keep[i] else rng.choice(light)
            pref = rng.randrange(2); args = []; es = 0
            for j, l in enumerate(op.args):
                if l in 'mMr': args.append(list(state[i][(pref + es) % 2] if rng.random() < .8 else state[i][pref])); es += 1
                elif l == 'c': args.append(F.canon(F.val(state[i][pref])))
                else: args.append(rand_arg(F, op, j, rng))
            ops.append((op, pref)); lines.append(line(F, op, args))
        for i, o in enumerate(rp.batch(lines)):
            if o.startswith(('PANIC', 'CRASH', 'HANG', 'SKIPPED')): state[i] = [rand_elem(F, rng, 'canon'), rand_elem(F, rng, 'canon')]; continue
            if ops[i][0].args[:1] == 'm':
                w = words(o.split(' ')[0]); state[i][ops[i][1]] = w
                if max(map(abs, w)) < 1 << 62: out.append(w)
    return out

def confirmed(rp, lines, i, out, cex):
    """a failing input found as number i of one process' calls: alone, or with the calls before it when only the history fails"""
    cex['line'] = lines[i]
    if rp.batch([lines[i]])[0] != out: cex['lines'] = lines[:i+1]
    return cex

def search(rp, F, op, seed, n=3000, models=(), idx=None, alias=False, pool=(), want=None, reach=0):
    """look for an input on which the real code disagrees with the oracle; reach: 0 = any representation in the invariant, 1 = reachable ones too, 2 = only these"""
    rng = random.Random('%s/%s/%s/%s' % (seed, F.name, op.name, idx))
    if reach:
        R = reachable(rp, F, seed)
        cases = [from_pool(F, op, R, rng, idx, alias) for _ in range(n if reach == 2 else min(n, 800))]
        lines = [line(F, op, a, alias) for a in cases]
        for i, (a, o) in enumerate(zip(cases, rp.batch(lines))):
            e = check(F, op, a, o)
            if e and (want is None or want(e[0])): return confirmed(rp, lines, i, o, {'kind': 'field', 'field': F.name, 'op': op.name, 'args': a, 'output': o, 'tag': e[0], 'problem': e[1]})
        if reach == 2: return None
    cases, modelled = [], []
    for m in models:
        for _ in range(60):
            a = model_args(F, op, m, rng, idx)
            if valid_args(F, op, a): cases.append(a)
        if cases: modelled.append(cases[-1])
    if pool: cases += [from_pool(F, op, pool, rng, idx, alias) for _ in range(min(n, 1000))]
    cases += [rand_args(F, op, rng, alias, idx) for _ in range(n)]
    if alias and op.args.count('r') == 2:       # one element passed twice: the words of the first
        i, j = [i for i, l in enumerate(op.args) if l == 'r']
        for a in cases: a[j] = list(a[i])
    cases = [a for a in cases if valid_args(F, op, a)]
    lines = [line(F, op, a, alias) for a in cases]
    for i, (a, o) in enumerate(zip(cases, rp.batch(lines))):
        e = check(F, op, a, o)
        if e and (want is None or want(e[0])): return confirmed(rp, lines, i, o, {'kind': 'field', 'field': F.name, 'op': op.name, 'args': a, 'output': o, 'tag': e[0], 'problem': e[1]})
    search.last = len(cases)
    if n >= 600 and cases:     # an outcome that depends on how often the function ran
        many = (modelled[:12] + [cases[i*len(cases)//6] for i in range(6)])[:14]
        lines = ['again 500000 ' + line(F, op, a, alias) for a in many]
        for a, l in zip(many, lines):
            o = rp.batch([l])[0]
            e = check(F, op, a, o)
            if e and (want is None or want(e[0])): return {'kind': 'field', 'field': F.name, 'op': op.name, 'args': a, 'line': l, 'output': o, 'tag': e[0], 'problem': e[1]}
    return None

def conc_search(rp, F, op, seed, idx=None, alias=False, want=None):
    """calls made by several threads at once"""
    rng = random.Random('conc/%s/%s/%s/%s' % (seed, F.name, op.name, idx))
    cs = [a for a in (rand_args(F, op, rng, alias, idx) for _ in range(40)) if valid_args(F, op, a)][:12]
    for a, b in zip(cs[::2], cs[1::2]):
        l = 'conc %s | %s' % (line(F, op, a, alias), line(F, op, b, alias)); o = rp.batch([l])[0]
        e = check(F, op, a, o)
        if e and (want is None or want(e[0])): return {'kind': 'field', 'field': F.name, 'op': op.name, 'args': a, 'line': l, 'output': o, 'tag': e[0], 'problem': 'while other threads call it: ' + e[1]}
    return None
def pconc_search(rp, C, op, seed, alias=False, want=None):
    rng = random.Random('conc/%s/%s/%s' % (seed, C.name, op))
    for _ in range(5):
        a, b = point_args(C, op, rng, (), alias), point_args(C, op, rng, (), alias)
        l = 'conc %s | %s' % (pline(C, op, a, alias), pline(C, op, b, alias)); o = rp.batch([l])[0]
        e = pcheck(C, op, a, o)
        if e and (want is None or want(e[0])): return {'kind': 'point', 'curve': C.name, 'op': op, 'args': a, 'line': l, 'output': o, 'tag': e[0], 'problem': 'while other threads call it: ' + e[1]}
    return None

# ---------------------------------------------------------------- points
PARGS = {'padd_assign_ref': 'mr', 'padd_assign_val': 'mr', 'padd_refs': 'orr', 'padd_vals': 'orr', 'pzero': 'o', 'pinit': 'okk', 'pdouble': 'm',
         'pdoubled': 'or', 'ptriple': 'm', 'ptripled': 'or', 'pscalar_mult': 'ms', 'pscalar_mult_normalized': 'mk', 'pdval': 't'}
def ed_add(C, P, Q):
    """projective (X, Y, Z), unified"""
    p, d = C.F.p, C.d
    X1, Y1, Z1 = P; X2, Y2, Z2 = Q
    A = Z1*Z2 % p; B = A*A % p; D1 = X1*X2 % p; E = Y1*Y2 % p; G = d*D1*E % p
    f, g = (B - G) % p, (B + G) % p
    return A*f*((X1 + Y1)*(X2 + Y2) - D1 - E) % p, A*g*(E - D1) % p, f*g % p
def ed_mul(C, n, P):
    R = (0, 1, 1)
    for b in bin(n)[2:]:
        R = ed_add(C, R, R)
        if b == '1': R = ed_add(C, R, P)
    return R
def sqrt_mod(a, p):
    a %= p
    if p % 4 == 3: r = pow(a, (p+1)//4, p)
    else:
        r = pow(a, (p+3)//8, p)
        if r*r % p != a: r = r*pow(2, (p-1)//4, p) % p
    return r if r*r % p == a else None
def rand_affine(C, rng, y=None):
    p, d = C.F.p, C.d
    if y is None:
        r = rng.random()
        if r < .25: return rng.choice([(0, 1), (0, p-1), (1, 0), (p-1, 0)])
        y = rng.randrange(p) if r < .9 else rng.randrange(2, 50)
    for _ in range(200):
        den = (1 - d*y*y) % p
        v = (1 - y*y)*pow(den, -1, p) % p if den else None
        x = sqrt_mod(v, p) if v is not None else None
        if x is not None: return (x if rng.random() < .5 else -x % p), y
        y = (y + 1) % p
def rep_of(F, v, rng):
    """words of a representation of the residue v (not necessarily canonical)"""
    v %= F.p
    if rng.random() < .4: return F.canon(v)
    w = v + rng.randrange(-4, 5)*F.p
    out = [(w >> (F.w*i)) & ((1 << F.w) - 1) for i in range(F.n-1)]; out.append(w >> (F.w*(F.n-1)))
    return out if F.in_rep(out) else F.canon(v)
def point_words(C, aff, rng, force=None):
    """coordinate words of a valid extended point; force = (coordinate, words): that coordinate has exactly these words"""
    F = C.F; p = F.p; x, y = aff; t = x*y % p
    unit = (x, y, 1, t); z = None
    if force:
        c, w = force
        if unit[c] and F.val(w) % p: z = F.val(w)*pow(unit[c], -1, p) % p
        else: force = None
    if z is None:
        z = rng.choice([1, 1, p-1, rng.randrange(1, p), rng.randrange(1, p), rng.randrange(1, p), 2])
    co = [rep_of(F, u*z, rng) for u in unit]
    if force: co[force[0]] = list(force[1])
    return co
def pfmt(co): return ':'.join(','.join(map(str, w)) for w in co)
def parse_point(s): return [words(q) for q in s.split(':')]
def affine_of(C, co):
    F = C.F; p = F.p
    X, Y, Z, T = [F.val(w) % p for w in co]
    if Z == 0: return None
    zi = pow(Z, -1, p); x, y = X*zi % p, Y*zi % p
    if (X*Y - Z*T) % p or (x*x + y*y - 1 - C.d*x*x*y*y) % p: return None
    return x, y
def point_args(C, op, rng, pool=(), alias=False):
    F = C.F; a = []; affs = []
    for l in PARGS[op]:
        if l in 'mr':
            if affs and (alias or rng.random() < .3):
                r = rng.random()
                P = affs[0]
                if alias: a.append(a[-1]); affs.append(P); continue
                aff = P if r < .4 else (-P[0] % F.p, P[1]) if r < .7 else (P[0], -P[1] % F.p)
            else: aff = rand_affine(C, rng)
            force = (rng.randrange(4), rng.choice(pool)) if pool and rng.random() < .9 else None
            if force and force[0] == 1 and rng.random() < .5: aff = rand_affine(C, rng, F.val(force[1]) % F.p)
            affs.append(aff); a.append(point_words(C, aff, rng, force))
        elif l == 'o': a.append([rand_elem(F, rng, 'garbage') for _ in range(4)])
        elif l == 't': a.append(rand_elem(F, rng, 'garbage'))
        elif l in 'sk' and op != 'pinit':
            if pool and rng.random() < .7: w = rng.choice(pool)
            else:
                v = rng.choice([0, 1, 2, 3, 4, 5, rng.randrange(F.p), rng.randrange(F.p), F.p-1, F.p-2, 1 << rng.randrange(F.N-1), rng.getrandbits(64), (1 << rng.randrange(F.N-1)) - 1])
                w = rep_of(F, v, rng)
            a.append(F.canon(F.val(w)) if l == 'k' else list(w))
        else:       # pinit coordinates
            if len(a) == 1: affs.append(rand_affine(C, rng, F.val(rng.choice(pool)) % F.p if pool and rng.random() < .5 else None))
            a.append(rep_of(F, affs[0][len(a)-1], rng))
    return a
def pline(C, op, a, alias=False): return ' '.join([C.name, op + '@same'*(alias and PARGS[op].count('r') == 2)] + [pfmt(v) if l in 'mro' else ','.join(map(str, v)) for l, v in zip(PARGS[op], a)])
def pcheck(C, op, a, out):
    F = C.F; p = F.p
    if out == 'SKIPPED': return None
    if out.startswith(('PANIC', 'CRASH', 'HANG')): return 'panic', out
    toks = out.split(' '); post = [parse_point(t) if l in 'mro' else words(t) for l, t in zip(PARGS[op], toks)]
    for i, l in enumerate(PARGS[op]):
        if l in 'rk' and post[i] != a[i]: return 'frame', 'operand %d was modified' % i
    if op == 'pdval':
        return None if post[0] == F.canon(C.d) else ('value', 'd is %s, documented %d' % (post[0], C.d))
    got = affine_of(C, post[0])
    ps = [affine_of(C, v) for l, v in zip(PARGS[op], a) if l in 'mr']
    prj = [(P[0], P[1], 1) for P in ps]
    if op == 'pzero': want = (0, 1, 1)
    elif op == 'pinit': want = (F.val(a[1]) % p, F.val(a[2]) % p, 1)
    elif op.startswith('padd'): want = ed_add(C, prj[0], prj[1])
    elif op.startswith('pdouble'): want = ed_add(C, prj[0], prj[0])
    elif op.startswith('ptriple'): want = ed_add(C, ed_add(C, prj[0], prj[0]), prj[0])
    else:
        want = ed_mul(C, F.val(a[1]) % p, prj[0])
        if (F.val(post[1]) - F.val(a[1])) % p: return 'value', 'the scalar changed value'
    zi = pow(want[2], -1, p); want = (want[0]*zi % p, want[1]*zi % p)
    if got is None: return 'value', 'the result is not a valid point (expected affine %s)' % (want,)
    if got != want: return 'value', 'affine result %s, expected %s' % (got, want)
    for w in post[0]:
        if not F.in_rep(w): return 'range', 'a coordinate is outside the representation range'
    return None
def psearch(rp, C, op, seed, n=200, pool=(), alias=False, want=None):
    rng = random.Random('%s/%s/%s' % (seed, C.name, op))
    cases = [point_args(C, op, rng, pool, alias) for _ in range(n)]
    lines = [pline(C, op, a, alias) for a in cases]
    if n >= 40: lines.append('again 500000 ' + lines[0]); cases.append(cases[0])       # an outcome that depends on how often it ran
    for i, (a, o) in enumerate(zip(cases, rp.batch(lines))):
        e = pcheck(C, op, a, o)
        if e and (want is None or want(e[0])): return confirmed(rp, lines, i, o, {'kind': 'point', 'curve': C.name, 'op': op, 'args': a, 'output': o, 'tag': e[0], 'problem': e[1]})
    psearch.last = len(cases)
    return None

# ---------------------------------------------------------------- masks, histories
def mask_search(rp, F, how, variant, seed, n=400):
    """the compositions of MaskJob on concrete elements"""
    rng = random.Random('%s/%s/%s/%s' % (seed, F.name, how, variant))
    A = [rand_elem(F, rng) for _ in range(n)]; B = [rand_elem(F, rng) for _ in range(n)]
    bits = [rng.randrange(2) for _ in range(n)]
    if variant == 'and1': bits = [1]*n
    if variant in ('and0', 'or0'): bits = [0]*n
    mk = lambda bs: [words(o.split(' ')[0]) if not o.startswith(('PANIC', 'CRASH', 'HANG', 'SKIPPED')) else None for o in rp.batch(['%s %s %s %d' % (F.name, how, ','.join(map(str, rand_elem(F, rng, 'garbage' if how == 'filled' else 'rep'))), b) for b in bs])]
    op2 = lambda op, xs, ys: [words(o.split(' ')[0]) if not o.startswith(('PANIC', 'CRASH', 'HANG', 'SKIPPED')) else None for o in rp.batch(['%s %s %s %s' % (F.name, op, ','.join(map(str, x)), ','.join(map(str, y))) for x, y in zip(xs, ys)])]
    M = mk(bits)
    if any(m is None for m in M): return {'kind': 'mask', 'field': F.name, 'how': how, 'variant': variant, 'problem': 'panic making a mask', 'tag': 'panic', 'seed': seed, 'n': n}
    if variant in ('and1', 'and0'): got = op2('normalized_bitand', A, M); want = [a if b else [0]*F.n for a, b in zip(A, bits)]
    elif variant == 'or0': got = op2('normalized_bitor', A, M); want = A
    else:
        MC = mk([1-b for b in bits])
        X = op2('normalized_bitand', A, M); Y = op2('normalized_bitand', B, MC)
        if any(v is None for v in X + Y): return {'kind': 'mask', 'field': F.name, 'how': how, 'variant': variant, 'problem': 'panic', 'tag': 'panic', 'seed': seed, 'n': n}
        got = op2('normalized_bitor', X, Y) if variant == 'select' else op2('normalized_bitor', Y, X)
        want = [a if b else c for a, c, b in zip(A, B, bits)]
    for i in range(n):
        if got[i] != want[i]: return {'kind': 'mask', 'field': F.name, 'how': how, 'variant': variant, 'seed': seed, 'n': n, 'a': A[i], 'b': B[i], 'bit': bits[i], 'output': got[i], 'problem': 'got %s, expected %s' % (got[i], want[i]), 'tag': 'value'}
    return None

HIST = [o for o in OPS.values() if o.kind in ('arith', 'normalize', 'eq', 'pack', 'bit', 'bitop', 'invert', 'legendre', 'sqrt', 'div')]
def history_search(rp, F, seed, chains=150, steps=60, focus=None):
    """random histories (outputs fed back) until an operation panics; returns the shortest found history"""
    rng = random.Random('%s/%s/history' % (seed, F.name))
    light = [o for o in HIST if o.kind not in ('invert', 'legendre', 'sqrt', 'div')]
    state = [[rand_elem(F, rng, 'canon'), rand_elem(F, rng, 'canon')] for _ in range(chains)]
    for i in range(0, chains, 3): state[i] = [F.canon(-1), F.canon(-1)]
    mode = [rng.choice(light) if focus is None or rng.random() < .3 else focus for _ in range(chains)]
    keep = [rng.random() for _ in range(chains)]
    hist = [[(list(s[0]), list(s[1]))] for s in state]
    for st in range(steps):
        lines, ops = [], []
        for i in range(chains):
            op = mode[i] if rng.random() < keep[i] else rng.choice(light if st < steps - 1 else HIST)
            args = []; es = 0; prefer = rng.randrange(2)
            for j, l in enumerate(op.args):
                if l in 'mMr': args.append(list(state[i][(prefer + es) % 2] if rng.random() < .8 else state[i][prefer])); es += 1
                elif l == 'c': args.append(F.canon(F.val(state[i][prefer])))
                else: args.append(rand_arg(F, op, j, rng))
            ops.append((op, args, prefer)); lines.append(line(F, op, args))
        outs = rp.batch(lines)
        for i, o in enumerate(outs):
            op, args, prefer = ops[i]
            hist[i].append(lines[i])
            if o.startswith(('PANIC', 'CRASH', 'HANG')):
                return {'kind': 'history', 'field': F.name, 'op': op.name, 'start': hist[i][0], 'lines': hist[i][1:], 'line': lines[i], 'output': o, 'tag': 'panic', 'problem': 'a history of %d operations starting from canonical elements ends in %s' % (len(hist[i]) - 1, o)}
            if o == 'SKIPPED': continue
            if op.args[:1] in ('m', 'o'): state[i][prefer if op.args[0] == 'm' else rng.randrange(2)] = words(o.split(' ')[0])
    return None
