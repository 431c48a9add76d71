"""Linear integer arithmetic back end: encodes polynomials over the atoms of a Ctx as SMT-LIB 2 and asks z3 / cvc5.
Floors become integer variables with their defining inequalities, products with boolean atoms become ite,
other products become bounded opaque integers (sound for refutation: only `unsat' is ever used as a proof)."""
import subprocess, time, os
from core import *

SOLVERS = {
    'z3': ['z3', '-in', '-smt2'],
    'z3-new': ['z3-new', '-in', '-smt2'],
    'cvc5': ['cvc5', '--lang=smt2', '--produce-models', '-q'],
}

SECOND = os.environ.get('VERIF_TIER') == 'thorough'
def num(c): return str(c) if c >= 0 else '(- %d)' % -c

class Enc:
    def __init__(self, ctx):
        self.ctx = ctx; self.decl = []; self.asr = []; self.seen = set(); self.mono = {}
        self.exact = True       # no opaque product or bit operation used
        self.queue = []
    def atom(self, i):
        if i in self.seen: return 'a%d' % i
        self.seen.add(i)
        a = self.ctx.atoms[i]
        self.decl.append('(declare-const a%d Int)' % i)
        k = self.ctx.known.get(i)
        if k is not None: self.asr.append('(= a%d %s)' % (i, num(k)))
        if a.lo is not None: self.asr.append('(<= %s a%d %s)' % (num(a.lo), i, num(a.hi)))
        self.queue.append(i)
        return 'a%d' % i
    def flush(self):
        while self.queue:
            i = self.queue.pop()
            a = self.ctx.atoms[i]
            if a.kind == FLOOR:
                p, d = a.data
                self.asr.append('(<= 0 %s %s)' % (self.poly(psub(p, Poly({(i,): d}))), num(d-1)))
            elif a.kind == BOOL:
                self.asr.append('(= a%d %s)' % (i, self.poly(a.data)))
            elif a.kind == EQ:
                self.asr.append('(= (= a%d 1) (= 0 %s))' % (i, self.poly(a.data)))
            elif a.kind == TAB:
                x = self.poly(a.data[0])
                self.asr.append('(or %s)' % ' '.join('(and (= %s %d) (= a%d %s))' % (x, a.data[1] + k, i, num(t)) for k, t in enumerate(a.data[2])))
            elif a.kind == OPQ: self.exact = False
    def mon(self, m):
        if len(m) == 1: return self.atom(m[0])
        r = self.mono.get(m)
        if r: return r
        bl = [x for x in m if x in self.ctx.bools]
        rest = tuple(x for x in m if x not in self.ctx.bools)
        nm = 'm' + '_'.join(map(str, m))
        self.mono[m] = nm
        self.decl.append('(declare-const %s Int)' % nm)
        lo, hi = self.ctx._mono_int(m)
        self.asr.append('(<= %s %s %s)' % (num(lo), nm, num(hi)))
        if bl:
            cond = '(and %s)' % ' '.join('(= 1 %s)' % self.atom(x) for x in bl)
            self.asr.append('(= %s (ite %s %s 0))' % (nm, cond, self.mon(rest) if rest else '1'))
        else: self.exact = False
        return nm
    def poly(self, p):
        if not p.t: return '0'
        s = []
        for m, c in p.t.items():
            if not m: s.append(num(c))
            elif c == 1: s.append(self.mon(m))
            else: s.append('(* %s %s)' % (num(c), self.mon(m)))
        return s[0] if len(s) == 1 else '(+ %s)' % ' '.join(s)

def facts_for(ctx, enc):
    """add the recorded facts that only mention atoms already in the encoding"""
    done = set()
    while True:
        enc.flush()
        new = False
        for k, (lo, hi) in ctx.facts.items():
            if k in done: continue
            if all(x in enc.seen for m, c in k for x in m):
                done.add(k); new = True
                s = enc.poly(Poly(dict(k)))
                if len(k) > 1 or True: enc.asr.append('(<= %s %s %s)' % (num(lo), s, num(hi)))
        enc.flush()
        if not new: return

def query(ctx, build, timeout=20, solvers=('z3', 'cvc5'), want_model=False):
    """build(enc) returns extra assertions (strings).  Path constraints are added. -> ('unsat'|'sat'|'unknown', model, exact, solver)"""
    enc = Enc(ctx)
    extra = build(enc)
    for p, d in ctx.path: extra.append('(= %s %s)' % (num(d), enc.poly(p)))
    facts_for(ctx, enc)
    txt = ['(set-logic ALL)'] + enc.decl + ['(assert %s)' % a for a in enc.asr + extra] + ['(check-sat)']
    if want_model and enc.seen: txt.append('(get-value (%s))' % ' '.join('a%d' % i for i in sorted(enc.seen)))
    text = '\n'.join(txt) + '\n'
    last = 'unknown'
    for s in solvers:
        t0 = time.time()
        try:
            r = subprocess.run(SOLVERS[s], input=text, capture_output=True, text=True, timeout=timeout)
            out = r.stdout
        except subprocess.TimeoutExpired: out = 'unknown'
        ctx.solver_s += time.time() - t0; ctx.solver_calls += 1
        head = out.strip().split('\n', 1)
        v = head[0].strip() if head else 'unknown'
        if v == 'unsat':
            if SECOND and s == solvers[0]:          # thorough tier: ask the other solver as well
                try: v2 = subprocess.run(SOLVERS[solvers[1]], input='\n'.join(l for l in text.split('\n') if not l.startswith('(get-value')), capture_output=True, text=True, timeout=timeout).stdout.strip()[:5]
                except subprocess.TimeoutExpired: v2 = ''
                if v2 == 'sat': return 'unknown', None, enc.exact, None
                if v2 == 'unsat': return 'unsat', None, enc.exact, s + '+' + solvers[1]
            return 'unsat', None, enc.exact, s
        if v == 'sat':
            model = None
            if want_model and len(head) > 1:
                import re
                model = {}
                for m in re.finditer(r'\(a(\d+) (?:(\d+)|\(- (\d+)\))\)', head[1]):
                    model[int(m.group(1))] = int(m.group(2)) if m.group(2) else -int(m.group(3))
            return 'sat', model, enc.exact, s
    return last, None, enc.exact, None

def prove_range(ctx, p, lo, hi, **kw):
    def b(e):
        s = e.poly(p)
        return ['(or (< %s %s) (> %s %s))' % (s, num(lo), s, num(hi))]
    return query(ctx, b, **kw)
def prove_zero(ctx, p, **kw):
    return query(ctx, lambda e: ['(not (= 0 %s))' % e.poly(p)], **kw)
def feasible(ctx, **kw):
    return query(ctx, lambda e: [], **kw)
