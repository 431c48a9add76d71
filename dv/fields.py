"""Parameters of the nine prime fields and five Edwards curves, and the mathematical constants they are documented to have."""

class Field:
    def __init__(self, name, n, w, t, c, nbytes):
        self.name = name; self.n = n; self.w = w; self.t = t; self.c = c; self.nbytes = nbytes
        self.N = w*(n-1) + t
        self.p = (1 << self.N) - c
        self.invariant(2)
    def invariant(self, k):
        """the representation invariant; 2 is the default, the others are candidates if that one does not do (see verify.invariants)"""
        w, t = self.w, self.t
        self.LLO, self.LHI = {12: (-(1 << w), 1 << w), 13: (-(1 << 16), (1 << w) + (1 << 16))}.get(k, (0, (1 << w) - 1))
        if k == 0: self.TLO, self.THI = -(1 << t) - 256, (2 << t) + 256
        else: self.TLO, self.THI = -(1 << (t + k % 10)), (1 << (t + k % 10)) - 1
        if k == 12: self.TLO, self.THI = -(1 << (t + 2)), 1 << (t + 2)
    def inv_text(self): return 'low words in [%d, %d], top word in [%d, %d]' % (self.LLO, self.LHI, self.TLO, self.THI)
    def lrange(self, i):
        return (self.LLO, self.LHI) if i < self.n-1 else (self.TLO, self.THI)
    def crange(self, i):
        return (0, (1 << self.w) - 1) if i < self.n-1 else (0, (1 << self.t) - 1)
    def val(self, limbs): return sum(x << (self.w*i) for i, x in enumerate(limbs))
    def canon(self, v):
        v %= self.p
        return [(v >> (self.w*i)) & ((1 << self.w) - 1) for i in range(self.n)]
    def in_rep(self, limbs): return all(self.lrange(i)[0] <= x <= self.lrange(i)[1] for i, x in enumerate(limbs))

FIELDS = {f.name: f for f in [
    Field('221_3', 4, 58, 47, 3, 28), Field('222_117', 4, 58, 48, 117, 28), Field('251_9', 5, 56, 27, 9, 32),
    Field('255_19', 5, 56, 31, 19, 32), Field('382_105', 7, 56, 46, 105, 48), Field('383_187', 7, 56, 47, 187, 48),
    Field('414_17', 8, 56, 22, 17, 52), Field('511_187', 10, 54, 25, 187, 64), Field('521_1', 10, 54, 35, 1, 66)]}

# curve -> (field, d, base x, base y, order)
class Curve:
    def __init__(self, name, field, d, order): self.name = name; self.F = FIELDS[field]; self.d = d; self.order = order
CURVES = {c.name: c for c in [
    Curve('e222', '222_117', 160102, 'E222_ORDER'), Curve('c1174', '251_9', -1174, 'CURVE1174_ORDER'), Curve('e382', '382_105', -67254, 'E382_ORDER'),
    Curve('c41417', '414_17', 3617, 'CURVE41417_ORDER'), Curve('e521', '521_1', -376014, 'E521_ORDER')]}
