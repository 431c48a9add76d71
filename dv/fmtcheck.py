"""Contracts of core::fmt used by the hexadecimal formatting, and the check of what is written.
The template of fmt::Arguments is decoded as core::fmt::write does; <uN as LowerHex/UpperHex>::fmt has the assumed
contract `writes the hexadecimal digits of the value, zero padded to the width' (checked against the real library for
every byte value by the concrete replay)."""
import re
from core import *
from sym import *
from contracts import limb_poly

BASIC = {'a': (8, 1), 'h': (8, 0), 's': (16, 1), 't': (16, 0), 'l': (32, 1), 'm': (32, 0), 'x': (64, 1), 'y': (64, 0), 'i': (64, 1), 'j': (64, 0)}
_fn = re.compile(r'(?:3fmt|3num)(R*)([ahstlmxyij])NtB\w*?_8(Lower|Upper)Hex3fmt')
ZERO_PAD, ALT, PLUS = 1 << 24, 1 << 23, 1 << 21

def sink(ex):
    if not hasattr(ex, 'fmt_out') or ex.fmt_out is None: raise Unsupported('formatting outside a formatting operation')
    return ex.fmt_out
def mem(ex, ptr, off, n):
    r = 0
    for i in range(n):
        b = ex.const_of(ex.load(Ptr(ptr.obj, ptr.off + off + i), 'i8'))
        if b is None: raise Unsupported('symbolic format template')
        r |= b << (8*i)
    return r
def literal(ex, out, ptr, n):
    for i in range(n): out.append(('lit', ex.load(Ptr(ptr.obj, ptr.off + i), 'i8')))

def arg(ex, args, i):
    v = ex.load(Ptr(args.obj, args.off + 16*i), 'ptr'); f = ex.load(Ptr(args.obj, args.off + 16*i + 8), 'ptr')
    return v, f
def do_args(ex, tpl, args, fmtr=None):
    out = sink(ex)
    ok = ex.mkbool(ZERO)
    if isinstance(args, Ptr) and args.obj is None:
        if not args.off & 1: raise Unsupported('format arguments')
        literal(ex, out, tpl, args.off >> 1); return ok
    pos = 0; ai = 0
    while True:
        n = mem(ex, tpl, pos, 1); pos += 1
        if n == 0: return ok
        if n < 0x80: literal(ex, out, Ptr(tpl.obj, tpl.off + pos), n); pos += n; continue
        if n == 0x80:
            ln = mem(ex, tpl, pos, 2); literal(ex, out, Ptr(tpl.obj, tpl.off + pos + 2), ln); pos += 2 + ln; continue
        flags, width = 0, 0
        if n & 1: flags = mem(ex, tpl, pos, 4); pos += 4
        if n & 2: width = mem(ex, tpl, pos, 2); pos += 2
        if n & 4: pos += 2
        if n & 8: ai = mem(ex, tpl, pos, 2); pos += 2
        if n & 48: raise Unsupported('dynamic width in a format template')
        v, f = arg(ex, args, ai); ai += 1
        if not isinstance(f, FnPtr): raise Unsupported('format argument')
        m = _fn.search(f.sym)
        if not m:
            d = ex.mod.demangled.get(f.sym, f.sym)
            k = re.match(r'<(&*)(str|char|alloc::string::String) as core::fmt::Display>::fmt$', d)
            if width > 1 or n & 4 or flags & (ALT | PLUS): raise Unsupported('padded formatting')
            if k and not ex.mod.has(f.sym):
                for _ in k.group(1): v = ex.load(v, 'ptr')
                if k.group(2) == 'char': out.append(('lit', ascii_char(ex, ex.load(v, 'i32')))); continue
                o = 0 if k.group(2) == 'str' else 8
                literal(ex, out, ex.load(Ptr(v.obj, v.off + o), 'ptr'), ex.concretize(ex.load(Ptr(v.obj, v.off + o + 8), 'i64'), 'string length'))
                continue
            if ex.mod.has(f.sym) and fmtr is not None:
                r = ex.call(f.sym, [v, fmtr])
                if ex.const_of(r) != 0: raise Unsupported('nested formatting that fails')
                continue
            raise Unsupported('formatting through ' + d)
        for _ in m.group(1): v = ex.load(v, 'ptr')
        w, sg = BASIC[m.group(2)]
        x = ex.unsigned(ex.load(v, 'i%d' % w)); ex.refine(x)
        out.append(('hex', x, m.group(3) == 'Upper', flags, width))
        ex.contracted['core::fmt %sHex for integers (assumed)' % m.group(3)] = ex.contracted.get('core::fmt %sHex for integers (assumed)' % m.group(3), 0) + 1

def ndigits(ctx, v, flags, width):
    lo, hi = ctx.pint(v.p)
    lo, hi = max(lo, v.lo), min(hi, v.hi)
    if flags & ZERO_PAD and hi < 16**width: return width
    if width <= 1 and hi <= 15: return 1
    if v.p.is_const() and width <= len('%x' % lo): return len('%x' % lo)
    return None
def ascii_char(ex, v):
    lo, hi = ex.ctx.pint(v.p)
    if max(lo, v.lo) < 0 or min(hi, v.hi) > 127: raise Unsupported('a character outside ASCII')
    return ex.cast('trunc', v, '', 'i8')
def render(ex, items):
    """the bytes of formatted output, as a new object"""
    ctx = ex.ctx; bs = []
    for it in items:
        if it[0] == 'lit': bs.append(it[1]); continue
        if it[0] == 'padded': raise Unsupported('padded formatting')
        _, v, up, flags, width = it
        nd = ndigits(ctx, v, flags, width)
        if nd is None or flags & (ALT | PLUS): raise Unsupported('a number of digits that depends on the value')
        for k in range(nd - 1, -1, -1):
            d = digits(ctx, v.p, k, k + 1)
            b = padd(padd(d, pconst(48)), pscale(psub(pconst(1), ctx.ltzero(psub(d, pconst(10)))), 7 if up else 39))
            bs.append(ex.mk(8, b, 48, 102))
    o = ex.newobj('text%d' % ex.objcount, max(len(bs), 1))
    for i, b in enumerate(bs): ex.store(Ptr(o, i), b, 'i8')
    return o, len(bs)
def collect(ex, tpl, args):
    saved = getattr(ex, 'fmt_out', None); ex.fmt_out = []
    try: do_args(ex, tpl, args); return render(ex, ex.fmt_out)
    finally: ex.fmt_out = saved
def format_inner(ex, args):
    """alloc::fmt::format: String is { capacity, pointer, length }"""
    o, n = collect(ex, args[1], args[2]); r = args[0]
    ex.store(r, cval(64, n), 'i64'); ex.store(Ptr(r.obj, r.off + 8), Ptr(o, 0), 'ptr'); ex.store(Ptr(r.obj, r.off + 16), cval(64, n), 'i64')
    return None
def fmt_write(ex, args):
    """core::fmt::write(&mut dyn Write, Arguments): one write_str of everything"""
    o, n = collect(ex, args[2], args[3]); vt = args[1]
    f = ex.load(Ptr(vt.obj, vt.off + 24), 'ptr')
    if not isinstance(f, FnPtr): raise Unsupported('formatting through an unknown writer')
    return ex.call(f.sym, [args[0], Ptr(o, 0), cval(64, n)])
def write_fmt(ex, args): return do_args(ex, args[1], args[2], args[0])
def write_str(ex, args):
    literal(ex, sink(ex), args[1], ex.concretize(args[2])); return ex.mkbool(ZERO)
def write_char(ex, args):
    sink(ex).append(('lit', ex.cast('trunc', args[1], '', 'i8'))); return ex.mkbool(ZERO)
def write_str_display(ex, args): return write_str(ex, [args[2], args[0], args[1]])
# ---------------------------------------------------------------- the options of the formatter: any, the same all along one execution
def opt(ex, name):
    o = ex.__dict__.setdefault('fmt_opts', {})
    if name not in o: o[name] = ex.ctx.fresh('option_%s' % name, 0, 1)
    return o[name]
def isset(ex, *names):
    r = 0
    for n in names: r |= ex.decide(opt(ex, n), 'formatter option')
    return bool(r)
def opt_flag(name): return lambda ex, args: ex.mkbool(opt(ex, name))
def opt_number(name):
    def get(ex, args):
        if not isset(ex, name): return [cval(64, 0), cval(64, 0)]
        v = ex.__dict__.setdefault('fmt_num', {})
        if name not in v: v[name] = ex.ctx.fresh('option_%s_value' % name, 0, 65535)
        return [cval(64, 1), Val(64, v[name], 0, 65535)]
    return get
def pad(ex, args):
    if isset(ex, 'width', 'precision'): sink(ex).append(('padded', 'pad'))
    return write_str(ex, args)
def pad_integral(ex, args):
    if ex.concretize(args[1], 'sign') == 0: sink(ex).append(('lit', cval(8, 45)))
    elif isset(ex, 'plus'): sink(ex).append(('lit', cval(8, 43)))
    if isset(ex, 'alternate'): write_str(ex, [args[0], args[2], args[3]])
    if isset(ex, 'width'): sink(ex).append(('padded', 'pad_integral'))
    return write_str(ex, [args[0], args[4], args[5]])
def int_hex(upper, w):
    def fmt(ex, args):
        x = ex.unsigned(ex.load(args[0], 'i%d' % w)); ex.refine(x)
        if isset(ex, 'plus', 'alternate', 'width'): sink(ex).append(('padded', 'the options of the caller'))
        sink(ex).append(('hex', x, upper, 0, 0))
        return ex.mkbool(ZERO)
    return fmt
OPTIONS = {'width': opt_number('width'), 'precision': opt_number('precision'), 'alternate': opt_flag('alternate'), 'sign_plus': opt_flag('plus'),
           'sign_minus': opt_flag('minus'), 'sign_aware_zero_pad': opt_flag('zero'), 'pad': pad, 'pad_integral': pad_integral}
def formatter_havocs(mod):
    h = {}
    for s in list(mod.text) + list(mod.demangled):
        if 'fmt' in s and not mod.has(s):
            d = mod.demangled.get(s, s)
            if d == 'alloc::fmt::format::format_inner': h[s] = format_inner
            elif d == 'core::fmt::write': h[s] = fmt_write
            elif d == '<str as core::fmt::Display>::fmt': h[s] = write_str_display
            elif d == '<char as core::fmt::Display>::fmt': h[s] = lambda ex, args: write_char(ex, [args[1], ex.load(args[0], 'i32')])
            m = re.match(r'<core::fmt::Formatter>::(\w+)$', d)
            if m and m.group(1) in OPTIONS: h[s] = OPTIONS[m.group(1)]
            m = re.match(r'<[ui](8|16|32|64|size) as core::fmt::(Lower|Upper)Hex>::fmt$', d)
            if m: h[s] = int_hex(m.group(2) == 'Upper', 64 if m.group(1) == 'size' else int(m.group(1)))
        if 'Formatter' not in s: continue
        if '9Formatter9write_fmt' in s or ('9FormatterNt' in s and '5Write9write_fmt' in s): h[s] = write_fmt
        elif '9Formatter9write_str' in s or ('9FormatterNt' in s and '5Write9write_str' in s): h[s] = write_str
        elif '9FormatterNt' in s and '5Write10write_char' in s: h[s] = write_char
    return h

def check_hex(job, ex, fp, ret):
    from jobs import Failure, compare_int
    F, ctx = job.F, ex.ctx
    upper = job.op.sem == 'X'
    fails = []
    r = ex.const_of(ret) if isinstance(ret, Val) else None
    if r is None: raise Unsupported('symbolic formatting result')
    if r != 0: return [Failure('value', 'formatting succeeds when the writer does', 'returned Err')]
    tot = limb_poly(F, [x.p for x in job.canon_words(ex, fp)])
    ND = 2*F.nbytes
    pos = ND        # digits still to come
    for it in ex.fmt_out:
        if it[0] == 'lit':
            c = ex.const_of(it[1])
            if c is None:
                if pos < 1: fails.append(Failure('value', 'exactly two digits per byte', 'too many digits')); return fails
                pos -= 1; dig = '0123456789ABCDEF' if upper else '0123456789abcdef'
                want = digits(ctx, tot, pos, pos + 1); u = ex.unsigned(it[1]); mono = next(iter(u.p.t)) if len(u.p.t) == 1 else ()
                tab = ctx.atoms[mono[0]].data if len(mono) == 1 and u.p.t[mono] == 1 and ctx.atoms[mono[0]].kind == TAB else None
                if tab and all(0 <= tab[1] + k < 16 and t == ord(dig[tab[1] + k]) for k, t in enumerate(tab[2])): f = compare_int(ex, 'digit of weight 16^%d' % pos, tab[0], want)
                else: f = compare_int(ex, 'digit of weight 16^%d' % pos, u.p, padd(padd(want, pconst(48)), pscale(psub(pconst(1), ctx.ltzero(psub(want, pconst(10)))), 7 if upper else 39)))
                fails.append(f); continue
            ch = chr(c)
            if ch not in ('0123456789ABCDEF' if upper else '0123456789abcdef') or pos < 1:
                fails.append(Failure('value', 'only hexadecimal digits are written', repr(ch))); return fails
            pos -= 1
            fails.append(compare_int(ex, 'digit of weight 16^%d' % pos, pconst(int(ch, 16)), digits(ctx, tot, pos, pos + 1)))
            continue
        if it[0] == 'padded': fails.append(Failure('value', 'the options of the formatter do not change what is written', 'width, precision or flags are applied (%s)' % it[1])); return fails
        _, v, up, flags, width = it
        hi = min(ctx.pint(v.p)[1], v.hi)
        if flags & (ALT | PLUS): fails.append(Failure('value', 'no prefix or sign is written', 'format flags %#x' % flags)); return fails
        nd = ndigits(ctx, v, flags, width)
        if nd is None: fails.append(Failure('value', 'exactly two digits per byte', 'width %d, flags %#x for a value up to %#x' % (width, flags, hi))); return fails
        if up != upper and hi > 9: fails.append(Failure('value', 'case of the digits', 'upper=%s' % up)); return fails
        pos -= nd
        if pos < 0: fails.append(Failure('value', 'exactly two digits per byte', 'too many digits')); return fails
        f = compare_int(ex, 'digits of weight 16^%d' % pos, v.p, digits(ctx, tot, pos, pos + nd))
        if f: fails.append(f)
    if pos: fails.append(Failure('value', 'exactly two digits per byte', '%d digits missing' % pos))
    else: ctx.ok('exactly two digits per byte', 'constant')
    return [f for f in fails if f]
def digits(ctx, tot, a, b):
    return psub(ctx.floor(tot, 16**a), pscale(ctx.floor(tot, 16**b), 16**(b-a)))
