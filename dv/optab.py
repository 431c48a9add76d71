"""The public field operations: argument shapes, mathematical meaning (once for the prover, once for the concrete oracle)."""
from core import *

INTS = {'3': 32, '1': 16, '8': 8}

class Op:
    """args: letters as in gen_harness.py; kind selects the specification"""
    def __init__(self, name, args, kind, sem=None, ret='', group=''):
        self.name = name; self.args = args; self.kind = kind; self.sem = sem; self.ret = ret; self.group = group

def table():
    ops = []
    def a(n, args, kind, sem=None, ret='', group=''): ops.append(Op(n, args, kind, sem, ret, group))
    for nm in ('add', 'sub', 'mul', 'div'):
        kd = 'arith' if nm != 'div' else 'div'
        a(nm+'_assign_ref', 'mr', kd, nm, group=nm)
        a(nm+'_assign_val', 'mr', kd, nm, group=nm)
        a(nm+'_refs', 'orr', kd, nm, group=nm)
        a(nm+'_vals', 'orr', kd, nm, group=nm)
        if nm == 'div': continue
        for t, l in (('i32', '3'), ('i16', '1'), ('i8', '8')):
            a('%s_assign_%s' % (nm, t), 'm'+l, 'arith', nm, group='small')
            a('%s_ref_%s' % (nm, t), 'or'+l, 'arith', nm, group='small')
            a('%s_val_%s' % (nm, t), 'or'+l, 'arith', nm, group='small')
            if nm != 'sub': a('%s_%s_ref' % (nm, t), 'or'+l, 'arith', nm, group='small')
    a('neg', 'or', 'arith', 'neg', group='neg')
    for nm in ('small_add', 'small_sub', 'small_mul'):
        a(nm+'_assign', 'm3', 'arith', nm[6:], group='small')
        a(nm, 'or3', 'arith', nm[6:], group='small')
    a('square', 'm', 'arith', 'square', group='mul'); a('squared', 'or', 'arith', 'square', group='mul')
    a('invert', 'm', 'invert', group='div'); a('inverted', 'or', 'invert', group='div')
    a('legendre', 'or', 'legendre', group='root'); a('sqrt', 'or', 'sqrt', group='root')
    a('normalize', 'm', 'normalize', group='normalize')
    a('normalize_self_eq', 'mc', 'eq', ret='b', group='eq')
    a('normalize_eq', 'mM', 'eq', ret='b', group='eq')
    a('unpack', 'oS', 'unpack', group='pack'); a('unpacked', 'oS', 'unpack', group='pack')
    a('pack', 'mT', 'pack', group='pack'); a('pack_normalized', 'cT', 'pack', group='pack')
    a('packed', 'mP', 'pack', group='pack')
    a('nbytes', '', 'nbytes', ret='i', group='pack'); a('nbits', '', 'nbits', ret='u', group='bits')
    a('bit', 'mu', 'bit', ret='b', group='bits'); a('bit_normalized', 'cu', 'bit', ret='b', group='bits')
    for o in ('and', 'or'):
        a('normalize_bit'+o, 'mM', 'bitop', o, group='bits'); a('normalize_self_bit'+o, 'mc', 'bitop', o, group='bits')
        a('normalized_bit'+o, 'Mc', 'bitop_n', o, group='bits')
    a('fill', 'mb', 'fill', group='mask'); a('filled', 'ob', 'fill', group='mask')
    a('mask_fill', 'ob', 'fill', group='mask'); a('mask_filled', 'ob', 'fill', group='mask')
    a('zero', 'o', 'const', 0, group='const'); a('one', 'o', 'const', 1, group='const'); a('m_one', 'o', 'const', -1, group='const'); a('modulus', 'o', 'const', 'p', group='const')
    a('rand', 'oR', 'rand', group='rand')
    a('lower_hex', 'rF', 'hex', 'x', ret='f', group='hex'); a('upper_hex', 'rF', 'hex', 'X', ret='f', group='hex')
    a('debug_fmt', 'rF', 'debug', ret='f', group='debug')
    return ops
OPS = {o.name: o for o in table()}
