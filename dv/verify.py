#!/usr/bin/env python3
"""Decides one property: builds /repo's current tree, verifies the contracts the property rests on, reports and writes evidence.
usage: verify.py PROPERTY     exit 0 held / 1 violation / 2 error of the check"""
import sys, os, json, time, glob, shutil, signal, subprocess, tempfile, resource, traceback, random
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.setrecursionlimit(20000)
import llir, lia, replay, ct, consts, edwards, selfcheck
from jobs import FieldJob, MaskJob, Result, Failure, models_of
from edwards import PointJob, POPS, group_lemmas
from consts import ConstJob, CONSTS
from fields import FIELDS, CURVES
from optab import OPS
from core import Unsupported
import contracts

TIER = os.environ.get('VERIF_TIER', 'quick'); SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
T0 = time.time()
PROFILE = os.environ.get('DV_PROFILE', 'dev')
BUDGET = int(os.environ.get('DV_BUDGET', 600 if not THOROUGH else 7200))       # seconds after which undecided obligations go to the bounded stand-in
CORE = [n for n, _, _ in contracts.CORE] + ['normalize']
PCORE = ['padd_assign_ref', 'pdouble', 'ptriple']
KS = [0, 3, 12, 13, 4]                        # candidate invariants besides the default 2 (Field.invariant): tighter, wider top word, signed low words, uncarried low words

# ---------------------------------------------------------------- what each property consists of
def field_jobs(groups, idx_all=True, alias=True, loose=False):
    r = []
    for f, F in FIELDS.items():
        for n, o in OPS.items():
            if o.group not in groups: continue
            if o.kind == 'bit': r += [('F', f, n, '', i) for i in range(F.N)]
            else: r.append(('F', f, n, '', None))
            if alias and 'rr' in o.args: r.append(('F', f, n, 'alias', None))
            if n == 'normalize': r.append(('F', f, n, 'canon', None))
            if loose and (o.kind in ('bitop_n', 'unpack') or 'c' in o.args): r.append(('F', f, n, 'loose', 0 if o.kind == 'bit' else None))
    return r
def point_jobs(ops):
    r = []
    for c in CURVES:
        for o in ops:
            r.append(('P', c, o, '', None))
            if 'rr' in POPS[o][0]: r.append(('P', c, o, 'alias', None))
    return r
def producers(f=None):
    return [d for d in field_jobs([k for k in ARITH + ['const', 'rand'] if k != 'bits'], loose=True) if f in (None, d[1])]
def mask_jobs(): return [('M', f, h, v, None) for f in FIELDS for h in ('fill', 'filled') for v in MaskJob.VARIANTS]
ARITH = ['add', 'sub', 'mul', 'div', 'small', 'neg', 'root', 'normalize', 'eq', 'pack', 'bits', 'mask']
PROPS = {
    'C01': lambda: field_jobs(['add', 'sub', 'neg']), 'C02': lambda: field_jobs(['mul']), 'C03': lambda: field_jobs(['small']),
    'C04': lambda: field_jobs(['div']), 'C05': lambda: field_jobs(['root']), 'C06': lambda: field_jobs(['normalize']), 'C07': lambda: field_jobs(['eq']),
    'C08': lambda: field_jobs(['pack']), 'C09': lambda: field_jobs(['bits']),
    'C10': lambda: field_jobs(ARITH + ['const', 'rand', 'hex', 'debug'], loose=True), 'C11': lambda: field_jobs(['rand']), 'C12': lambda: field_jobs(['hex']),
    'C13': lambda: field_jobs(['const']) + [('K', f, c, '', None) for f in FIELDS for c in CONSTS[f].split()] + point_jobs(['pdval']),
    'C14': lambda: point_jobs([o for o in POPS if o.startswith('padd')]), 'C15': lambda: point_jobs([o for o in POPS if o[:7] in ('pdouble', 'ptriple')]),
    'C16': lambda: point_jobs(['pzero', 'pinit']), 'C17': lambda: point_jobs(['pscalar_mult', 'pscalar_mult_normalized']),
    'C18': lambda: field_jobs(['add', 'sub', 'mul', 'div', 'small', 'neg', 'root', 'pack', 'mask', 'const']),
    'C19': lambda: field_jobs(ARITH, alias=False) + point_jobs([o for o in POPS if o != 'pdval']) + mask_jobs(),
    'C20': lambda: mask_jobs() + field_jobs(['mask']),
}
LEMMAS = {'C14': 1, 'C15': 1, 'C17': 1}

def field_of(d): return CURVES[d[1]].F.name if d[0] == 'P' else d[1]
def keyof(d): return make(d).key
def make(d, without=(), k=2, firstpath=False):
    kind, name, op, variant, idx = d
    F = CURVES[name].F if kind == 'P' else FIELDS[name]
    F.invariant(k)
    if kind == 'F': j = FieldJob(F, op, variant, idx, without)
    elif kind == 'P': j = PointJob(CURVES[name], op, variant, idx, without)
    elif kind == 'M': j = MaskJob(F, op, variant, idx, without)
    else: j = ConstJob(F, op)
    j.firstpath = firstpath
    return j

# ---------------------------------------------------------------- workers
import multiprocessing
FOUND = multiprocessing.get_context('fork').Value('b', 0)      # a concrete counterexample has been found
MOD = None; BINARY = None; SCRATCH = None; OTHER = None
class Timeout(Exception): pass
def _alarm(*a): raise Timeout()
def timed(fn, seconds):
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(seconds)
    try: return fn()
    finally: signal.alarm(0)
def run_job(d, without=(), k=2, firstpath=False, limit=200):
    j = make(d, without, k, firstpath)
    try: return timed(lambda: j.run(MOD), limit)
    except Timeout: r = Result(j.key); r.error = 'timeout after %d s' % limit; return r
    except MemoryError: r = Result(j.key); r.error = 'out of memory'; return r
    except Exception as e:
        r = Result(j.key); r.error = 'verifier error: %s' % traceback.format_exc()[-600:]; return r
def run_search(d, n, models=(), pool=(), want=None, k=2, reach=0):
    """-> (counterexample or None, number of cases run)"""
    kind, name, op, variant, idx = d
    make(d, (), k if kind != 'P' or k < 3 else 0)
    rp = replay.Replay(BINARY); alias = variant == 'alias'
    heavy = 1
    if kind == 'F': heavy = {'invert': 6, 'div': 6, 'legendre': 6, 'sqrt': 6, 'hex': 2}.get(OPS[op].kind, 1)
    if kind == 'P': heavy = 60 if 'scalar' in op else 3
    n = max(8, n//heavy)
    try:
        if kind == 'F':
            if variant == 'loose': return None, 0
            r = replay.search(rp, FIELDS[name], OPS[op], SEED, n, models, idx, alias, pool, want, 2 if k > 2 else reach)
        elif kind == 'P': r = replay.psearch(rp, CURVES[name], op, SEED, n, pool, alias, want)
        elif kind == 'M': r = replay.mask_search(rp, FIELDS[name], op, variant, SEED, n)
        else: r = consts.const_search(rp, FIELDS[name], op); n = 1
    except Exception: return {'kind': 'error', 'problem': traceback.format_exc()[-500:], 'tag': 'error'}, 0
    return r, n
def task(t):
    what = t[0]
    if what == 'J':
        lim = t[5]
        if not THOROUGH:        # no single function may use up the time of the whole check; less still once a violation has been found
            lim = max(20, min(lim, int(BUDGET*(.25 if FOUND.value else .7) - (time.time() - T0))))
        return t, run_job(*t[1:5], lim)
    if what == 'S': return t, run_search(*t[1:])
    if what == 'T':
        try: return t, (timed(lambda: ct.ct_search(BINARY, *t[1:], tmp=SCRATCH), 240), 1)
        except Timeout: return t, (None, 0)
    if what == 'H':
        d, focus, k = t[1:]
        make(d, (), k)
        try: return t, (timed(lambda: replay.history_search(replay.Replay(BINARY), FIELDS[d[1]], SEED, focus=focus), 200), 1)
        except Timeout: return t, (None, 0)
    if what == 'C':
        d, want = t[1:]; rp = replay.Replay(BINARY); make(d, (), 2)
        w = None if want is None else want.__contains__
        try:
            if d[0] == 'F' and d[3] != 'loose': return t, (timed(lambda: replay.conc_search(rp, FIELDS[d[1]], OPS[d[2]], SEED, d[4], d[3] == 'alias', w), 60), 6)
            if d[0] == 'P': return t, (timed(lambda: replay.pconc_search(rp, CURVES[d[1]], d[2], SEED, d[3] == 'alias', w), 60), 5)
        except Exception: pass
        return t, (None, 0)
    if what == 'L': return t, lemma(*t[1:])
    if what == 'X':
        make(t[1])
        try: return t, timed(lambda: selfcheck.selfcheck(MOD, BINARY, t[1], SEED, t[2]), 60)
        except (Timeout, Unsupported, MemoryError): return t, (None, 0)
        except Exception: return t, ('self-check failed: ' + traceback.format_exc()[-300:], 0)
def lemma(name):
    t0 = time.time()
    if name == 'primes':
        import primes
        return [('the modulus of field %s is prime (certificate)' % f, primes.certified(F.p), '') for f, F in FIELDS.items()], time.time() - t0
    if name == 'lean':
        try:
            r = subprocess.run(['lean', 'Completeness.lean'], cwd=os.path.join(ROOT, 'lemmas'), capture_output=True, text=True, timeout=400,
                preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],)*2))
        except (OSError, subprocess.TimeoutExpired) as e: return [('Lean: denominators of the addition law never vanish', None, str(e))], time.time() - t0
        ok = r.returncode == 0 and "'denominator_ne' depends on axioms: [propext, Classical.choice, Quot.sound]" in r.stdout and 'sorry' not in r.stdout
        return [('Lean theorem denominator_ne: denominators of the addition law never vanish', ok, r.stdout[-300:])], time.time() - t0
    return [('%s: %s' % (name, w), ok, '') for w, ok in group_lemmas(CURVES[name])], time.time() - t0

def init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))

# ---------------------------------------------------------------- the check
class Check:
    def __init__(self, prop):
        self.prop = prop; self.violations = []; self.undecided = []; self.notes = []; self.bounded = []
        self.results = {}; self.diff = {}; self.inlined_ok = []
        self.k = {f: 2 for f in FIELDS}; self.noinv = {}
    def relevant(self, f):
        if f.tag == 'range' and not f.name.startswith('canonical'): return self.prop == 'C10'
        if self.prop == 'C10': return f.tag in ('range', 'panic', 'pre')
        if f.tag == 'pre': return True
        return True
    def want(self):
        if self.prop == 'C10': return {'panic', 'range'}
        return {'value', 'frame', 'panic'}

    def build(self):
        global MOD, BINARY, SCRATCH, OTHER
        os.makedirs(os.path.join(ROOT, 'build'), exist_ok=True)
        SCRATCH = tempfile.mkdtemp(prefix=self.prop + '-', dir=os.path.join(ROOT, 'build'))
        out = os.path.join(SCRATCH, 't')
        self.other = None
        if PROFILE == 'dev' and self.prop != 'replay':     # the same source as optimised builds configure it (cfg(debug_assertions) off), compared in finish()
            self.other = OTHER = subprocess.Popen([os.path.join(HERE, 'build.sh'), os.path.join(SCRATCH, 't2')], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, DV_PROFILE='nda'))
        r = subprocess.run([os.path.join(HERE, 'build.sh'), out], capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:]); error('the crate or the harness does not build')
        BINARY = os.path.join(out, 'debug', 'replay')
        lls = [f for f in glob.glob(os.path.join(out, 'debug', 'deps', '*.ll')) if not os.path.basename(f).startswith('replay')]
        MOD = llir.Module(lls)
        if os.path.exists(os.path.join(out, 'nohooks')):
            self.notes.append('the hooks of EdwardsExtended do not compile against this tree: built without them, a point is its four coordinates in the order x, y, z, t (order checked)')
            import itertools, random
            for C in CURVES.values():      # the order in memory: init(x, y) puts x, y, 1, x*y somewhere
                rng = random.Random(1); p = C.F.p
                a = replay.point_args(C, 'pinit', rng)
                o = replay.Replay(BINARY).batch([replay.pline(C, 'pinit', a)])[0]
                try: got = [C.F.val(w) % p for w in replay.parse_point(o.split(' ')[0])]
                except (ValueError, IndexError): continue
                x, y = (C.F.val(w) % p for w in a[1:3]); want = [x, y, 1, x*y % p]
                if got != want and any(list(q) == got for q in itertools.permutations(want)): error('the coordinates of a point are not in the order x, y, z, t in memory, and the hooks do not compile')
        self.build_s = time.time() - T0

    def pool(self):
        import multiprocessing as mp
        return mp.get_context('fork').Pool(min(8, os.cpu_count() or 4), initializer=init_worker)

    def core_jobs(self, jobs):
        fields = {field_of(d) for d in jobs if d[0] != 'K'}
        r = [('F', f, n, '', None) for f in sorted(fields) for n in CORE]
        curves = {d[1] for d in jobs if d[0] == 'P' and 'scalar' in d[2]}
        r += [('P', c, n, '', None) for c in sorted(curves) for n in PCORE]
        return r

    def run(self):
        self.build()
        jobs = PROPS[self.prop](); core = [] if self.prop == 'C13' else [d for d in self.core_jobs(jobs) if d not in set(jobs)]
        fp = self.prop == 'C19'
        self.jobs = jobs; self.coreset = self.core_jobs(jobs)
        tasks = [('J', d, (), 2, fp, 200) for d in jobs] + [('J', d, (), 2, fp, 200) for d in core]
        n = 60 if not THOROUGH else 3000
        self.support = []
        if self.prop not in ('C10', 'C13', 'C19'):     # is the representation invariant still one?  every operation that produces elements
            have = set(jobs) | set(core); fields = {field_of(d) for d in jobs}
            self.support = [d for d in producers() if d[1] in fields and d not in have]
            tasks += [('J', d, (), 2, False, 100) for d in self.support]
        seen = set()
        for d in jobs:
            if d[0] == 'F' and d[4] is not None:       # bit positions: one random differential for all of them
                d = d[:4] + (None,)
            if d in seen or d[3] in ('loose', 'canon'): continue
            seen.add(d)
            tasks.append(('S', d, n, (), (), self.want() if self.prop != 'C19' else set(), 2))
        sc = [d for d in jobs if selfcheck.suitable(d) and (d[4] is None or d[4] in (0, FIELDS[d[1]].w - 1, FIELDS[d[1]].N - 1))]
        tasks += [('X', d, 12 if not THOROUGH else 400) for d in sc]
        tasks += [('L', 'primes')]
        if self.prop in LEMMAS: tasks += [('L', 'lean')] + [('L', c) for c in CURVES]
        # long tasks first
        w = lambda t: 0 if t[0] == 'L' or (t[0] == 'J' and t[1][0] == 'P' and 'scalar' in t[1][2]) else 1 if t[0] == 'S' and t[1][0] == 'P' else 2 if t[0] == 'J' and t[1][0] == 'P' else 3
        tasks.sort(key=w)
        tasks = [(t if t[0] != 'S' else t[:5] + (frozenset(t[5]),) + t[6:]) for t in tasks]
        self.sup = {}; sset = set(self.support)
        self.lem = []; self.lem_s = 0.0; self.selfc = {}
        nheavy = sum(w(t) < 3 for t in tasks)
        with self.pool() as P:
            self.P = P
            its = [P.imap_unordered(task_f, tasks[:nheavy], chunksize=1), P.imap_unordered(task_f, tasks[nheavy:], chunksize=8 if len(tasks) > 2000 else 2)]
            for it in its:
                for t, r in it:
                    if t[0] == 'J': (self.sup if t[1] in sset else self.results)[t[1]] = r
                    elif t[0] == 'S':
                        self.diff[t[1]] = r
                        if r[0] and r[0].get('kind') != 'error': FOUND.value = 1
                    elif t[0] == 'X': self.selfc[t[1]] = r
                    elif t[0] == 'L': self.lem += r[0]; self.lem_s += r[1]
            if self.prop not in ('C13', 'C19'): self.invariants()
            self.judge()
        self.finish()

    # ---- contracts the results rest on
    def contract_desc(self, d, name):
        f = field_of(d)
        if name in CORE: return ('F', f, name, '', None)
        if name in PCORE: return ('P', d[1], name, '', None)
        return None
    def core_status(self):
        """core contract -> None (verified) or the reason it cannot be relied on"""
        bad = {}
        for d in self.coreset:
            r = self.results.get(d)
            if r is None: continue
            fs = [f for f in r.failures]
            if self.prop == 'C19': fs = [f for f in fs if f.tag in ('pre', 'panic', 'other')]
            if fs: bad[d] = 'failed: %s' % fs[0]
            elif r.error: bad[d] = 'undecided: %s' % r.error
        deps = {d: {self.contract_desc(d, n) for n in self.results[d].contracted} - {None, d} for d in self.coreset if d in self.results}
        # circular reliance is no proof
        def reach(a):
            s, todo = set(), [a]
            while todo:
                for y in deps.get(todo.pop(), ()):
                    if y not in s: s.add(y); todo.append(y)
            return s
        for d in deps:
            if d in reach(d) and d not in bad: bad[d] = 'circular use of contracts'
        self.deps = deps
        return bad, reach

    def judge(self):
        for d, (why, n) in self.selfc.items():
            if why: self.results[d].error = 'the executor disagrees with the machine code: ' + why; self.results[d].failures = []; self.notes.append(self.results[d].error[:300])
        bad, reach = self.core_status()
        self.bad = bad
        # concrete counterexamples for contracts that fail
        poolw = {}; self.core_cex = {}
        if bad:
            ts = []
            for d, why in bad.items():
                r = self.results[d]
                models = models_of(r.failures) if d[0] == 'F' else []
                ts.append(('S', d, 6000, tuple(models), (), frozenset({'value', 'frame', 'panic', 'range'}), 2))
            for t, (cex, n) in self.P.imap_unordered(task_f, ts):
                if cex and cex.get('kind') == 'field':
                    self.core_cex[t[1]] = cex
                    poolw.setdefault(t[1][1], []).extend([list(a) for l, a in zip(OPS[cex['op']].args, cex['args']) if l in 'mMrc'])
                elif cex: self.core_cex[t[1]] = cex
        self.notes += ['contract %s not established: %s' % (keyof(d), w[:300]) for d, w in bad.items()]
        # jobs that need a closer look
        todo = {}
        for d in self.jobs:
            r = self.results[d]
            names = {n: self.contract_desc(d, n) for n in r.contracted}
            used = {n for n, c in names.items() if c is not None and c != d and (c in bad or reach(c) & set(bad))}
            if d in bad and bad[d] == 'circular use of contracts': used |= {n for n, c in names.items() if c in bad}
            fs = [f for f in r.failures if self.relevant(f)]
            aborted = [f for f in r.failures if f.tag in ('pre', 'other', 'panic', 'range')] if self.prop == 'C19' else []
            if self.prop == 'C19':
                br = [b for b in r.branches if b[1] != 'shift amount']
                if br or r.error or aborted: todo[d] = (br, used, r)
            elif fs or r.error or used: todo[d] = (fs, used, r)
        for d, (cex, n) in self.diff.items():
            if cex: self.found(d if d in self.results else d[:4] + (0,), cex, [])
        # bit positions: a few representatives per operation
        per = {}
        sel = []
        for d in todo:
            g = d[:4] if d[4] is not None else d
            per.setdefault(g, []).append(d)
        for g, ds in per.items(): sel += ds[:2] + ds[-1:] if len(ds) > 3 else ds
        self.resolve(sel, todo, poolw)

    def invariants(self):
        """The representation invariant the results rest on has to be inductive.  If the default is not, or if an obligation fails under it,
        look for another candidate that is inductive and under which the obligations hold."""
        def escapes(rs, k=2): return [f for d, r in rs.items() if k == 2 or d[3] != 'loose' for f in r.failures if f.tag in ('range', 'pre') and not f.name.startswith('canonical')]
        def run(ds, k): return {t[1]: r for t, r in self.P.imap_unordered(task_f, [('J', d, (), k, False, 200) for d in ds], chunksize=1 if len(ds) < 200 else 8)}
        for f in FIELDS:
            mine = [d for d in self.jobs + self.coreset if field_of(d) == f]; mine = list(dict.fromkeys(mine))
            if not mine: continue
            prod = producers(f) if self.prop != 'C10' else [d for d in self.jobs if d[1] == f]
            got = {d: self.results.get(d) or self.sup.get(d) for d in prod}
            esc = escapes({d: r for d, r in got.items() if r})
            bad = [x for d in mine if d in self.results for x in self.results[d].failures if self.relevant(x)] or [1 for d in mine if d in self.diff and self.diff[d][0]]
            if not esc and not bad: continue
            ok = None
            for k in KS if esc else KS[:1]:
                if time.time() - T0 > BUDGET/3: break
                first = [d for d in prod if d[4] in (None, 0, 57, 100) and d[2] != 'normalize' and d[3] != 'loose']
                rs = run(first, k)
                if escapes(rs, k): continue
                rs.update(run([d for d in mine if d not in rs and d[2] == 'normalize'], k))
                if escapes(rs, k): continue
                rs.update(run([d for d in mine + prod if d not in rs], k))
                if escapes(rs, k): continue
                if not esc and [x for d in mine if d in rs for x in rs[d].failures if self.relevant(x)]: continue
                ok = k; break
            if ok is None:
                if esc: self.noinv[f] = esc[0]; self.notes.append('field %s: no candidate representation invariant is inductive: %s' % (f, esc[0]))
                continue
            self.k[f] = ok
            for d in mine:
                if d not in rs: continue
                self.results[d] = rs[d]
                if d[3] == 'loose': rs[d].failures = [x for x in rs[d].failures if x.tag != 'range']    # masking primitives not applied as documented
            for d in prod:
                if d in self.sup: self.sup[d] = rs[d]
            FIELDS[f].invariant(ok); self.notes.append('field %s: the representation invariant used is: %s' % (f, FIELDS[f].inv_text())); FIELDS[f].invariant(2)
            ds = [d for d in mine if d in self.diff]
            for t, r in self.P.imap_unordered(task_f, [('S', d, 60 if not THOROUGH else 3000, (), (), frozenset(self.want()), ok) for d in ds]): self.diff[t[1]] = r
        if self.prop != 'C10' and self.noinv:      # nothing is proved about the representations the histories of such a field reach
            ds = [d for d in self.jobs if d[0] == 'F' and d[1] in self.noinv and d[3] not in ('loose', 'canon') and d[4] in (None, 0, 57, 100)]
            for t, (cex, n) in self.P.imap_unordered(task_f, [('S', d, 1500, (), (), frozenset(self.want()), 4) for d in ds]):
                d = t[1]
                if cex and cex['kind'] != 'error': self.diff[d] = (cex, n)
                else: self.undecided.append((d, 'no inductive representation invariant found for the field: %s' % self.noinv[d[1]]))

    def resolve(self, sel, todo, poolw):
        # 1. concrete search on the real code
        if self.prop == 'C19':
            ts = [('T', d[0], d[1], d[2], SEED, d[4], tuple(models_of(todo[d][2].failures))) for d in sel if d[0] != 'M']
            ts = ts[:48]
        else:
            ts = []
            for d in sel:
                fs, used, r = todo[d]
                ts.append(('S', d, 4000 if not THOROUGH else 40000, tuple(models_of(fs) if d[0] == 'F' else ()), tuple(map(tuple, poolw.get(field_of(d), []))), frozenset(self.want()), self.k[field_of(d)], 1))
        hit = set()
        for t, (cex, n) in self.P.imap_unordered(task_f, ts):
            if self.prop == 'C19':
                d = next(d for d in sel if (d[0], d[1], d[2], d[4]) == (t[1], t[2], t[3], t[5]))
            else: d = t[1]
            if cex and cex['kind'] != 'error':
                fs = todo[d][0]
                if self.prop == 'C19': fs = [Failure('trace', 'no data-dependent %s' % b[1], b[0]) for b in fs]
                self.found(d, cex, fs); hit.add(d)
            else: self.bounded_n = getattr(self, 'bounded_n', 0) + n
        # 1b. mutable globals are written: calls made by several threads at once
        sh = {field_of(d) for d, r in list(self.results.items()) + list(self.sup.items()) if r.sharedw}
        if sh:
            self.notes.append('mutable globals written by operations of: %s' % ', '.join(sorted(sh)))
            ds = [d for d in sel if d not in hit and field_of(d) in sh]
            for t, (cex, n) in (map(task, [('C', d, frozenset(self.want()) if self.prop != 'C19' else None) for d in ds[:12]])):
                if cex: self.found(t[1], cex, todo[t[1]][0]); hit.add(t[1])
        # 2. without the contracts that cannot be relied on
        rest = [d for d in sel if d not in hit]
        if not rest: return
        if self.violations and time.time() - T0 > BUDGET/2: return
        again = []
        for d in rest:
            fs, used, r = todo[d]
            wo = set(used) | {f.name.split('precondition of ')[-1].split(':')[0].split(' ')[0] for f in r.failures if f.tag == 'pre'}
            if self.prop == 'C19':
                wo = {f.name.split('precondition of ')[-1].split(':')[0].split(' ')[0] for f in r.failures if f.tag == 'pre'}
                if fs: self.nofail(d, [Failure('trace', 'no data-dependent %s' % b[1], b[0]) for b in fs]); continue
            if wo: again.append((d, frozenset(wo)))
            else: self.final(d, todo[d][2])
        for _ in range(4):
            if not again: break
            left = max(20, int(BUDGET - (time.time() - T0)))
            nxt = []
            ts = [('J', d, tuple(wo), self.k[field_of(d)], self.prop == 'C19', min(150 if not THOROUGH else 1500, left)) for d, wo in again]
            for t, r in self.P.imap_unordered(task_f, ts):
                d, wo = t[1], frozenset(t[2])
                names = {n: self.contract_desc(d, n) for n in r.contracted}
                more = {n for n, c in names.items() if c is not None and c in self.bad and n not in wo}
                more |= {f.name.split('precondition of ')[-1].split(':')[0].split(' ')[0] for f in r.failures if f.tag == 'pre'} - wo
                if self.prop == 'C19': more -= {n for n, c in names.items() if c in self.bad}
                if more and (more - wo): nxt.append((d, wo | more)); continue
                self.final(d, r, wo)
            again = nxt
        for d, wo in again: self.final(d, self.results[d], wo)

    def final(self, d, r, wo=()):
        fs = [f for f in r.failures if self.relevant(f)]
        if self.prop == 'C19':
            br = [b for b in r.branches if b[1] != 'shift amount']
            if br: self.nofail(d, [Failure('trace', 'no data-dependent %s' % b[1], b[0]) for b in br]); return
            fs = []
            if r.failures: r.error = r.error or 'verification of the path stopped: %s' % r.failures[0]
        if fs and wo and not [f for f in self.results[d].failures if self.relevant(f)] and all(self.undecided_contract(d, n) for n in wo):
            # the operation satisfies its contract if its callees satisfy theirs; a callee is out of reach, and without its contract the obligation cannot be settled
            self.undecided.append((d, 'relies on %s, which is undecided' % ', '.join(sorted(wo)))); return
        if fs: self.nofail(d, fs, wo); return
        if r.error:
            cs = [c for c in (self.contract_desc(d, n) for n in wo) if c in self.core_cex]
            if cs and self.prop != 'C19':
                self.nofail(d, [Failure('value', 'relies on the contract of %s, which the code violates' % keyof(cs[0]), self.core_cex[cs[0]].get('problem'))], wo); return
            self.undecided.append((d, r.error)); return
        self.results[d] = r; self.inlined_ok.append((keyof(d), sorted(wo)))

    def undecided_contract(self, d, n):
        c = self.contract_desc(d, n); w = self.bad.get(c)
        return c is not None and (w is None or w.startswith(('undecided', 'circular'))) and c not in self.core_cex

    # ---- reports
    def known(self, d, what):
        for l in known_findings():
            if l.get('property') == self.prop and l.get('job') == keyof(d): return l
        return None
    def found(self, d, cex, fs):
        self.violations.append((d, cex, fs))
    def nofail(self, d, fs, wo=()):
        self.violations.append((d, None, fs))

    def finish(self):
        prop = self.prop
        # C10: turn an escape from the range into a history that panics, if one is found
        fails = [(w, dt) for w, ok, dt in self.lem if not ok]
        vio = []
        for d, cex, fs in self.violations:
            kf = self.known(d, fs)
            if kf: print('KNOWN-FINDING: property=%s %s' % (prop, kf.get('what', keyof(d)))); continue
            vio.append((d, cex, fs))
        vio.sort(key=lambda v: (v[1] is None, keyof(v[0])))
        if prop == 'C10' and vio and not any(c and c.get('tag') == 'panic' for _, c, _ in vio):
            ds = []
            for d, c, fs in vio:
                if d[0] == 'F' and d not in ds: ds.append(d)
            with self.pool() as P:
                for t, (cex, n) in P.imap_unordered(task_f, [('H', d, OPS[d[2]] if OPS[d[2]] in replay.HIST else None, 2) for d in ds[:8]]):
                    if cex: vio.insert(0, (t[1], cex, [f for d, _, fs in vio if d == t[1] for f in fs]))
        differ = self.profiles()
        if self.other: self.notes.append('without debug_assertions the crate has the same code, function by function' if not differ else 'without debug_assertions these functions differ: %s' % ', '.join(differ)[:2000])
        if PROFILE != 'dev': self.notes.append('this run is the second of two: the first verified the debug configuration, this one the configuration without debug_assertions, whose code differs')
        lines = []
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        for i, (d, cex, fs) in enumerate(vio[:6]):
            path = os.path.join(ROOT, 'replays', '%s-%d.json' % (prop, i+1))
            json.dump({'property': prop, 'job': keyof(d), 'profile': PROFILE, 'function': describe(d), 'obligations': [{'name': f.name, 'tag': f.tag, 'detail': str(f.detail), 'path': f.path, 'model': f.model} for f in fs],
                       'concrete': cex}, open(path, 'w'), indent=1, default=str)
            what = (fs[0].name if fs else cex['problem'] if cex else '?')
            print('%s: obligation "%s" of %s is not discharged%s' % (prop, str(what)[:200], keyof(d), ('; on the real code: ' + str(cex['problem'])[:300]) if cex else ''))
            lines.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if cex else ' no-failing-input-found'))
        self.evidence(vio)
        for d, e in self.undecided[:10]: print('undecided (bounded stand-in only): %s: %s' % (keyof(d), e[:200]))
        if fails and not lines:
            for w, dt in fails: print('lemma not established: %s %s' % (w, dt))
            cleanup(); error('a lemma could not be checked')
        # a violated check prints concrete failures first
        for l in lines: print(l)
        cleanup()
        if lines: sys.exit(1)
        if differ and not THOROUGH and time.time() - T0 > 400:
            print('%s: held; the configuration without debug_assertions is left to the thorough tier' % prop); sys.exit(0)
        if differ:
            print('%s: held in the debug configuration; code that depends on debug_assertions is verified again without them: %s' % (prop, ', '.join(differ)[:300])); sys.stdout.flush()
            el = time.time() - T0
            os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, DV_PROFILE='nda', DV_BUDGET=str(int(max(120, min(BUDGET, 750 - el) if not THOROUGH else BUDGET)))))
        tot = sum(sum(r.count.values()) for r in self.results.values())
        print('%s: held; %d obligations of %d functions/variants discharged, %d undecided, %.0f s' % (prop, tot, len(self.results), len(self.undecided), time.time() - T0))
        sys.exit(0)

    def profiles(self):
        """is the code that optimised builds configure the code that was verified?  -> None or the functions that differ"""
        if not self.other: return None
        if self.other.wait():
            self.notes.append('the crate does not build without debug_assertions'); return None
        a, b = (own_functions(os.path.join(SCRATCH, t)) for t in ('t', 't2'))
        return sorted(n for n in set(a) | set(b) if a.get(n) != b.get(n)) or None

    def evidence(self, vio):
        cnt, back, contracted, inl = {}, {}, {}, set()
        ss = sc = 0; paths = 0
        for d, r in self.results.items():
            for (k, b), n in r.count.items(): cnt[k.split(': word')[0]] = cnt.get(k.split(': word')[0], 0) + n; back[b] = back.get(b, 0) + n
            for k, n in r.contracted.items(): contracted[k] = contracted.get(k, 0) + n
            inl |= r.inlined; ss += r.solver_s; sc += r.solver_calls; paths += r.paths
        for w, ok, _ in self.lem:
            b = 'lean' if w.startswith('Lean') else 'primality certificate' if 'certificate' in w else 'ring (lemma)'
            if ok: cnt[w] = cnt.get(w, 0) + 1; back[b] = back.get(b, 0) + 1
        disch = sum(cnt.values())
        failed = sum(len([f for f in r.failures if self.relevant(f)]) for r in self.results.values() if self.prop != 'C19')
        if self.prop == 'C19': failed = len(vio)
        und = len(self.undecided)
        dem = lambda s: MOD.demangled.get(s, s)
        funcs = sorted({dem(contracts.target_of(MOD, w)) for w in {wrapper(d) for d in self.results if wrapper(d)} if MOD.has(w) and has_target(w)})
        own = sorted({dem(s) for s in inl if 'safecurves' in dem(s) or 'sc::' in dem(s)})
        top = dict(sorted(cnt.items(), key=lambda x: -x[1])[:60])
        assumed = sorted(k for k in contracted if 'assumed' in k)
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': 'proof',
              'coverage': {
                  'obligations': disch + failed + und, 'discharged': disch,
                  'checker_cmd': 'VERIF_TIER=%s VERIF_SEED=%d ./check %s' % (TIER, SEED, self.prop),
                  'trusted_base': ['rustc front end: the LLVM IR of the debug profile (overflow checks on) is the code that is verified', 'the verification-condition generator dv/ (symbolic execution of LLVM IR, polynomial normal forms over Z and F_p, interval arithmetic)',
                                   'z3 and cvc5 for linear integer obligations', 'Lean 4 kernel and Mathlib (completeness of the addition law)' if self.prop in LEMMAS else 'no proof assistant is used for this property'],
                  'functions_under_contract': len(funcs), 'functions_under_contract_list': funcs[:400], 'verification_units': len(self.results), 'paths': paths,
                  'functions_of_the_crate_executed_symbolically': len(own),
                  'contract_uses_at_call_sites': contracted, 'obligations_by_kind': top, 'obligations_by_backend': back,
                  'solver_calls': sc, 'solver_seconds': round(ss, 2), 'verification_cpu_seconds': round(sum(r.wall for r in self.results.values()) + self.lem_s, 1),
                  'lemmas': [w for w, ok, _ in self.lem if ok], 'bounded_stand_ins': ['%s: %s' % (keyof(d), e[:200]) for d, e in self.undecided],
                  'representation_invariant': {f: inv_text(f, k) for f, k in self.k.items() if f not in self.noinv},
                  'element_producing_operations_shown_to_preserve_it_in_this_run': sum(1 for d in producers() if (self.results.get(d) or self.sup.get(d)) and not (self.results.get(d) or self.sup.get(d)).error),
                  'reverified_with_callee_inlined': self.inlined_ok[:50],
                  'concrete_differential_cases_on_the_real_binary': sum(n for _, n in self.diff.values()), 'executor_evaluations_compared_with_machine_code': sum(n for _, n in self.selfc.values()), 'build_seconds': round(self.build_s, 1), 'notes': self.notes[:40]},
              'assumptions': ASSUMPTIONS + (['assumed contract: ' + a for a in assumed]),
              'wall_s': round(time.time() - T0, 2), 'violations': len(vio)}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, 'evidence', self.prop + '.json'), 'w'), indent=1)

ASSUMPTIONS = [
    'field elements reach an operation only with words in the representation invariant (coverage.representation_invariant): constants, unpacking and sampling establish it and every public operation is verified to preserve it in the same run (except in the C13 and C19 runs, which rely on the C10 check for that); the word arrays are private outside the hooks',
    'termination: loops with constant bounds are executed to their end; rejection loops over generator output are cut (partial correctness)',
    'generator words (rand::Rng implementations) are arbitrary values, fixed only by their type',
    'no unsafe code exists in the crate; memory model: distinct allocations do not overlap']

def own_functions(out):
    """text of the crate's functions (not of the standard library's generic ones), without symbol hashes and metadata numbers"""
    import re
    r = {}
    for f in glob.glob(os.path.join(out, 'debug', 'deps', '*.ll')):
        b = os.path.basename(f)
        if not b.startswith(('safecurves_rust', 'harness')): continue
        s = re.sub(r'Cs[0-9A-Za-z]+_', 'Cs_', re.sub(r'17h[0-9a-f]{16}E', '', open(f).read()))
        for m in re.finditer(r'^define .*?^}', s, re.S | re.M):
            t = m.group(0); n = re.search(r'@("?[\w.$"]+)\(', t).group(1)
            above = [l[2:] for l in s[max(0, m.start() - 3000):m.start()].split('\n')[-4:] if l.startswith('; ') and not l.startswith('; Function Attrs')]
            if above and re.match(r'[<&\[]*(mut |dyn )?(core|alloc|std)::', above[-1]): continue      # the standard library's own debug assertions
            if re.search(r'safecurves_rust[0-9A-Za-z_]', n): r.setdefault(b.split('-')[0] + ':' + n, []).append(re.sub(r'#\d+|!\d+', '', t))
    return r
def inv_text(f, k):
    F = FIELDS[f]; F.invariant(k); r = F.inv_text(); F.invariant(2); return r
def wrapper(d):
    if d[0] == 'F': return 'h_%s_%s' % (d[1], d[2])
    if d[0] == 'P': return 'h_%s_%s' % (d[1], d[2])
    if d[0] == 'M': return 'h_%s_%s' % (d[1], d[2])
    return 'h_%s_const_%s' % (d[1], d[2])
def has_target(w):
    try: contracts.target_of(MOD, w); return True
    except Exception: return False
def describe(d):
    try: return MOD.demangled.get(contracts.target_of(MOD, wrapper(d)))
    except Exception: return wrapper(d)
def task_f(t):
    if t[0] == 'S': t2 = t[:5] + ((lambda tag, w=t[5]: tag in w),) + t[6:]; return t, task(t2)[1]
    return task(t)
def known_findings():
    r = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                kv = dict(x.split('=', 1) for x in l[7:].split(' | ')[0].split() if '=' in x); kv['what'] = l.split(' | ', 1)[1].strip() if ' | ' in l else ''
                r.append(kv)
    return r
def cleanup():
    if OTHER and OTHER.poll() is None: OTHER.terminate(); OTHER.wait()
    if SCRATCH: shutil.rmtree(SCRATCH, ignore_errors=True)
def error(msg):
    print('ERROR: ' + msg); cleanup(); sys.exit(2)

if __name__ == '__main__':
    prop = sys.argv[1]
    if prop not in PROPS: error('unknown property ' + prop)
    c = Check(prop)
    try: c.run()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); error('the check itself failed')
