"""Concrete search for data-dependent control flow: executes one operation on different operand values under callgrind and
compares how often every machine instruction of the operation ran."""
import subprocess, random, re, os, tempfile
from fields import FIELDS, CURVES
from optab import OPS
import replay

def trace(binary, wrapper, line, tmp):
    out = os.path.join(tmp, 'cg.%d' % os.getpid())
    try:
        subprocess.run(['valgrind', '--tool=callgrind', '--toggle-collect=' + wrapper, '--dump-instr=yes', '--compress-pos=no', '--compress-strings=no',
                        '--callgrind-out-file=' + out, binary], input=line + '\n', capture_output=True, text=True, timeout=120)
        r = {}
        skip = False
        for l in open(out):
            if l.startswith('calls='): skip = True; continue
            m = re.match(r'0x([0-9a-f]+) (?:\S+ )?(\d+)$', l)
            if m:
                if skip: skip = False; continue
                a = int(m.group(1), 16); r[a] = r.get(a, 0) + int(m.group(2))
        return r
    except (subprocess.TimeoutExpired, OSError): return None
    finally:
        if os.path.exists(out): os.unlink(out)

def cases(kind, name, op, rng, idx, models):
    if kind == 'P':
        C = CURVES[name]
        return 'h_%s_%s' % (name, op), lambda: replay.pline(C, op, replay.point_args(C, op, rng)), []
    F = FIELDS[name]; o = OPS[op]
    def gen():
        while True:
            a = replay.rand_args(F, o, rng, idx=idx)
            if replay.valid_args(F, o, a): return replay.line(F, o, a)
    first = []
    for m in models:
        a = replay.model_args(F, o, m, rng, idx)
        if replay.valid_args(F, o, a): first.append(replay.line(F, o, a))
    return 'h_%s_%s' % (name, op), gen, first

def ct_search(binary, kind, name, op, seed, idx=None, models=(), n=10, tmp=None):
    rng = random.Random('%s/%s/%s' % (seed, name, op))
    if kind == 'F' and idx is None and OPS[op].kind == 'bit': idx = 3
    wrapper, gen, first = cases(kind, name, op, rng, idx, models)
    lines = first + [gen() for _ in range(n)]
    base = None
    with tempfile.TemporaryDirectory(dir=tmp) as d:
        for l in lines:
            t = trace(binary, wrapper, l, d)
            if not t: continue
            if base is None: base = (l, t); continue
            if t != base[1]:
                diff = sorted(a for a in set(t) | set(base[1]) if t.get(a) != base[1].get(a))
                return {'kind': 'trace', 'wrapper': wrapper, 'line': base[0], 'line2': l, 'tag': 'trace', 'problem': 'instruction counts differ at %d addresses (first %#x: %s against %s)' % (len(diff), diff[0], base[1].get(diff[0], 0), t.get(diff[0], 0))}
    ct_search.last = len(lines) if base else 0
    return None
