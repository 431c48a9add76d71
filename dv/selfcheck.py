"""Checks the verification-condition generator against the machine code: the symbolic result of an operation (every callee inlined),
evaluated at random operand words, must be the very words the compiled operation produces.  A difference means that the
executor misrepresents the code, so nothing it says may be believed."""
import random, contracts, replay
from fields import FIELDS
from optab import OPS
from jobs import FieldJob
from sym import Ptr, Val
from core import Unsupported

KINDS = ('arith', 'normalize', 'eq', 'unpack', 'pack', 'bit', 'bitop', 'bitop_n', 'fill', 'nbits', 'nbytes')
def suitable(d): return d[0] == 'F' and d[3] in ('', 'alias') and OPS[d[2]].kind in KINDS

def selfcheck(mod, binary, d, seed, n=12):
    """-> (description of a difference or None, evaluations compared)"""
    F = FIELDS[d[1]]; op = OPS[d[2]]; rng = random.Random('self/%s/%s' % (seed, d))
    snaps = []
    def probe(ex, objs, ret):
        words = []
        for ch, o in zip(op.args, objs):
            if ch in 'mMrco': words.append([ex.signed(ex.load(Ptr(o, 8*i), 'i64')).p for i in range(F.n)])
            elif ch in 'STP': words.append([ex.unsigned(ex.load(Ptr(o, i), 'i8')).p for i in range(o.size)])
        rv = None
        if op.ret: rv = ex.boolval(ret) if op.ret == 'b' else ex.unsigned(ret).p if op.ret == 'u' else ex.signed(ret).p
        snaps.append((ex.ctx, list(ex.inputs), words, rv))
    j = FieldJob(F, op.name, d[3], d[4], tuple(nm for nm, _, _ in contracts.CORE) + ('normalize',)); j.probe = probe
    r = j.run(mod)
    if r.error or not snaps: return None, 0
    cases = []
    while len(cases) < n:
        a = replay.rand_args(F, op, rng, alias=d[3] == 'alias', idx=d[4])
        if replay.valid_args(F, op, a): cases.append(a)
    outs = replay.Replay(binary).batch([replay.line(F, op, a) for a in cases])
    done = 0
    for a, out in zip(cases, outs):
        if out.startswith(('PANIC', 'CRASH', 'HANG', 'SKIPPED')): continue
        toks = out.split(' ')
        for ctx, inputs, words, rv in snaps:
            env = {}
            for (ch, ids), v in zip(inputs, a):
                if not isinstance(ids, list): continue
                vs = v if isinstance(v, list) else [v]
                for i, x in zip(ids, vs): env[i] = int(x)
            try:
                if not all(ctx.evalp(p, env) == dd for p, dd in ctx.path): continue
                _ = [ctx.evalp(p, env) for ws in words for p in ws]
            except KeyError: continue           # depends on arbitrary initial memory
            for k, ws in enumerate(words):
                got = [ctx.evalp(p, env) for p in ws]
                want = list(bytes.fromhex(toks[k][1:])) if toks[k].startswith('#') else replay.words(toks[k])
                if got != want: return '%s on %s: the symbolic result is %s, the machine computes %s' % (d, a, got, want), done
            if rv is not None and ctx.evalp(rv, env) != int(toks[len(words)]): return '%s on %s: the symbolic result is %d, the machine returns %s' % (d, a, ctx.evalp(rv, env), toks[len(words)]), done
            done += 1; break
    return None, done
