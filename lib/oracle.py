"""What relocated thunk code does, compared with what the original does.

Both instruction streams are read side by side by a small abstract evaluator: registers hold affine
address expressions, "the data at address X" or a symbolic start value. The original runs at the
template's (symbolic) address, the copy at the (symbolic) address of the executable view. At every
instruction that does not depend on its address both must agree on all registers.

judge() reports through cb(rule, key, text); rules: unchanged (R01), effect (R02), shape (R03),
patch (M03).
"""
import itertools
from values import *
from interp import AnalysisError
import x86


class Bad(Exception):
    def __init__(self, rule, key, text):
        super().__init__(text)
        self.rule, self.key, self.text = rule, key, text


def fld(bits, lo, hi):
    b = bits[lo:hi]
    if all(isinstance(x, int) for x in b):
        return sum(x << i for i, x in enumerate(b))
    return from_bits(b)


def cst(bits, lo, hi):
    v = fld(bits, lo, hi)
    return v if isinstance(v, int) else None


def wide(v, w):
    return zext(v, w) if not isinstance(v, int) else v


def sx(v, fw, w):
    return sext(v, fw, w)


# ---------------------------------------------------------------- instruction semantics
# effects: ('set', cond, reg, expr) / ('jump', cond, disp) / ('bx', reg)
# expr: ('c', value) | ('mem', addr, size, sext) | ('memr', rn, imm, size, sext) | ('addr', rn, imm) | ('movk', reg, value, shift)
def sem_a64(bits, pc):
    w = 64
    rd, rn = cst(bits, 0, 5), cst(bits, 5, 10)
    def R(i):
        return f'x{i}'
    if cst(bits, 24, 30) == 0b011000:
        opc = cst(bits, 30, 32)
        a = add(w, pc, mulc(w, sx(fld(bits, 5, 24), 19, w), 4))
        if opc == 3:
            return []
        if opc is None or rd is None:
            return None
        return [('set', 'al', R(rd), ('mem', a, (4, 8, 4)[opc], opc == 2))]
    if cst(bits, 24, 30) == 0b011100:
        opc = cst(bits, 30, 32)
        if opc is None or opc == 3 or rd is None:
            return None
        a = add(w, pc, mulc(w, sx(fld(bits, 5, 24), 19, w), 4))
        return [('set', 'al', f'v{rd}', ('mem', a, (4, 8, 16)[opc], False))]
    if cst(bits, 24, 29) == 0b10000:
        lo, hi = fld(bits, 29, 31), fld(bits, 5, 24)
        imm = sx(from_bits(bits[29:31] + bits[5:24]) if not (isinstance(lo, int) and isinstance(hi, int)) else lo | hi << 2, 21, w)
        p = cst(bits, 31, 32)
        if p is None or rd is None:
            return None
        a = add(w, band(w, pc, ~0xfff & (1 << 64) - 1), mulc(w, imm, 4096)) if p else add(w, pc, imm)
        return [('set', 'al', R(rd), ('c', a))]
    if cst(bits, 26, 32) == 0b000101:
        d = cst(bits, 0, 26)
        return None if d is None else [('jump', 'al', 4 * (d - (1 << 26) if d >> 25 else d))]
    if cst(bits, 24, 30) == 0b111001 and cst(bits, 26, 27) == 0:
        sz, opc = cst(bits, 30, 32), cst(bits, 22, 24)
        if None in (sz, opc, rd, rn) or opc == 0 or (sz == 3 and opc != 1):
            return None
        imm = mulc(w, wide(fld(bits, 10, 22), w), 1 << sz)
        kind = {1: False, 2: 'x', 3: 'w'}[opc]
        return [('set', 'al', R(rd), ('memr', 'sp' if rn == 31 else R(rn), imm, 1 << sz, kind == 'x' if sz != 2 or opc != 3 else 'w'))] \
            if kind != 'w' else None
    if cst(bits, 21, 30) == 0b111000010 and cst(bits, 10, 12) == 0 and (cst(bits, 30, 32) or 0) >= 2:
        sz = cst(bits, 30, 32)
        return [('set', 'al', R(rd), ('memr', 'sp' if rn == 31 else R(rn), sx(fld(bits, 12, 21), 9, w), 1 << sz, False))]
    if cst(bits, 23, 31) in (0b10100101, 0b11100101) and cst(bits, 31, 32) == 1:
        hw, imm = cst(bits, 21, 23), fld(bits, 5, 21)
        v = mulc(w, wide(imm, w), 1 << 16 * hw)
        if cst(bits, 23, 31) == 0b10100101:
            return [('set', 'al', R(rd), ('c', v))]
        return [('set', 'al', R(rd), ('movk', R(rd), v, 16 * hw))]
    if cst(bits, 0, 32) == 0xd503201f:
        return []
    if cst(bits, 10, 32) == 0xd61f0000 >> 10 and cst(bits, 0, 5) == 0:
        return [('bx', R(rn))]
    if cst(bits, 24, 31) == 0b0010001 and cst(bits, 31, 32) == 1 and rd != 31 and rn != 31:
        sh = cst(bits, 22, 24)
        if sh in (0, 1):
            return [('set', 'al', R(rd), ('addr', R(rn), mulc(w, wide(fld(bits, 10, 22), w), 1 << 12 * sh)))]
    return None


CC = ['eq', 'ne', 'cs', 'cc', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le', 'al']


def ror32(v, r):
    if isinstance(v, int):
        return (v >> r | v << (32 - r)) & 0xffffffff if r else v
    b = to_bits(wide(v, 32) if v.w != 32 else v, 32)
    if b is None:
        return None
    return from_bits(b[r:] + b[:r])


def sem_a32(bits, pc):
    w = 32
    c = cst(bits, 28, 32)
    if c is None or c == 15:
        return None
    cond = CC[c]
    pc8 = add(w, pc, 8)
    rt, rn = cst(bits, 12, 16), cst(bits, 16, 20)
    def R(i):
        return f'r{i}'
    u = cst(bits, 23, 24)
    if cst(bits, 26, 28) == 1 and cst(bits, 25, 26) == 0 and cst(bits, 24, 25) == 1 and cst(bits, 21, 22) == 0:
        b, l = cst(bits, 22, 23), cst(bits, 20, 21)
        if l != 1 or rt == 15 or None in (rt, rn, u, b):
            return None
        imm = wide(fld(bits, 0, 12), w)
        imm = imm if u else sub(w, 0, imm)
        size = 1 if b else 4
        if rn == 15:
            return [('set', cond, R(rt), ('mem', add(w, pc8, imm), size, False))]
        return [('set', cond, R(rt), ('memr', R(rn), imm, size, False))]
    if cst(bits, 25, 28) == 0 and cst(bits, 24, 25) == 1 and cst(bits, 7, 8) == 1 and cst(bits, 4, 5) == 1 and cst(bits, 22, 23) == 1 and cst(bits, 21, 22) == 0:
        sh, l = cst(bits, 5, 7), cst(bits, 20, 21)
        if sh == 0 or None in (rt, rn, u, sh, l) or rt == 15:
            return None
        lo, hi = fld(bits, 0, 4), fld(bits, 8, 12)
        imm = (lo | hi << 4) if isinstance(lo, int) and isinstance(hi, int) else wide(from_bits(bits[0:4] + bits[8:12]), w)
        imm = imm if u else sub(w, 0, imm)
        def e(k, size, sg):
            i = add(w, imm, k)
            return ('mem', add(w, pc8, i), size, sg) if rn == 15 else ('memr', R(rn), i, size, sg)
        if l:
            size, sg = {1: (2, False), 2: (1, True), 3: (2, True)}[sh]
            return [('set', cond, R(rt), e(0, size, sg))]
        if sh == 2:
            return [('set2', cond, R(rt), e(0, 4, False), R(rt + 1), e(4, 4, False))]
        return None
    if cst(bits, 25, 28) == 3 and cst(bits, 4, 5) == 0 and cst(bits, 24, 25) == 1 and cst(bits, 21, 22) == 0 and cst(bits, 20, 21) == 1:
        key = (u, cst(bits, 5, 12))
        return [('set', cond, R(rt), ('memx', ('c', pc8) if rn == 15 else R(rn), R(cst(bits, 0, 4)), key, 1 if cst(bits, 22, 23) else 4, False))]
    if cst(bits, 25, 28) == 0 and cst(bits, 24, 25) == 1 and cst(bits, 7, 8) == 1 and cst(bits, 4, 5) == 1 and cst(bits, 22, 23) == 0 and cst(bits, 21, 22) == 0 \
            and cst(bits, 5, 7) not in (None, 0):
        sh, l = cst(bits, 5, 7), cst(bits, 20, 21)
        b, rm = ('c', pc8) if rn == 15 else R(rn), R(cst(bits, 0, 4))
        if l:
            size, sg = {1: (2, False), 2: (1, True), 3: (2, True)}[sh]
            return [('set', cond, R(rt), ('memx', b, rm, (u, 0), size, sg))]
        if sh == 2:
            return [('set2', cond, R(rt), ('memx', b, rm, (u, 0), 4, False), R(rt + 1), ('memx', b, rm, (u, 4), 4, False))]
        return None
    op = cst(bits, 21, 25)
    if cst(bits, 25, 28) == 1 and cst(bits, 20, 21) == 0 and op in (2, 4) and rt != 15:
        rot = cst(bits, 8, 12)
        if rot is None or None in (rt, rn):
            return None
        imm = ror32(wide(fld(bits, 0, 8), w), 2 * rot)
        if imm is None:
            return None
        v = imm if op == 4 else sub(w, 0, imm)
        return [('set', cond, R(rt), ('c', add(w, pc8, v)) if rn == 15 else ('addr', R(rn), v))]
    if cst(bits, 20, 28) in (0x30, 0x34) and rt != 15:
        lo, hi = fld(bits, 0, 12), fld(bits, 16, 20)
        v = from_bits(bits[0:12] + bits[16:20])
        v = wide(v, w)
        return [('set', cond, R(rt), ('c', v) if cst(bits, 20, 28) == 0x30 else ('movt', R(rt), mulc(w, v, 1 << 16)))]
    if cst(bits, 24, 28) == 0b1010:
        d = cst(bits, 0, 24)
        return None if d is None else [('jump', cond, 8 + 4 * (d - (1 << 24) if d >> 23 else d))]
    if cst(bits, 4, 28) == 0x12fff1:
        return [('bx', R(cst(bits, 0, 4)))] if cond == 'al' else None
    return None


def sem_t16(bits, pc):
    w = 32
    pcA = band(w, add(w, pc, 4), ~3 & 0xffffffff)
    def R(i):
        return f'r{i}'
    op = cst(bits, 11, 16)
    if op == 0b01001:
        return [('set', 'al', R(cst(bits, 8, 11)), ('mem', add(w, pcA, mulc(w, wide(fld(bits, 0, 8), w), 4)), 4, False))]
    if op == 0b10100:
        return [('set', 'al', R(cst(bits, 8, 11)), ('c', add(w, pcA, mulc(w, wide(fld(bits, 0, 8), w), 4))))]
    if op == 0b01101:
        return [('set', 'al', R(cst(bits, 0, 3)), ('memr', R(cst(bits, 3, 6)), mulc(w, wide(fld(bits, 6, 11), w), 4), 4, False))]
    if op == 0b01111:
        return [('set', 'al', R(cst(bits, 0, 3)), ('memr', R(cst(bits, 3, 6)), wide(fld(bits, 6, 11), w), 1, False))]
    if op == 0b10001:
        return [('set', 'al', R(cst(bits, 0, 3)), ('memr', R(cst(bits, 3, 6)), mulc(w, wide(fld(bits, 6, 11), w), 2), 2, False))]
    if op == 0b11100:
        d = cst(bits, 0, 11)
        return None if d is None else [('jump', 'al', 4 + 2 * (d - (1 << 11) if d >> 10 else d))]
    if cst(bits, 12, 16) == 0b1101 and (cst(bits, 8, 12) or 0) < 14 and cst(bits, 8, 12) is not None:
        d = cst(bits, 0, 8)
        return None if d is None else [('jump', CC[cst(bits, 8, 12)], 4 + 2 * (d - (1 << 8) if d >> 7 else d))]
    if cst(bits, 7, 16) == 0b010001110 and cst(bits, 0, 3) == 0:
        return [('bx', R(cst(bits, 3, 7)))]
    if cst(bits, 0, 16) == 0xbf00:
        return []
    return None


def sem_t32(bits, pc):
    """Wide encodings; bits 0..16 are the first halfword."""
    w = 32
    pcA = band(w, add(w, pc, 4), ~3 & 0xffffffff)
    def R(i):
        return f'r{i}'
    rn, rt = cst(bits, 0, 4), cst(bits, 28, 32)
    hi = cst(bits, 4, 16)
    if hi is None:
        # only the top immediate bit of the first halfword may be unknown
        h2 = [x if isinstance(x, int) else 0 for x in bits]
        hi = fld(h2, 4, 16)
        if any(not isinstance(bits[i], int) for i in range(4, 16) if i != 10):
            return None
    top9 = hi >> 3                                   # bits 7..15
    op = (hi >> 0) & 0xfff
    if (hi >> 5) == 0b1111100:                       # 1111 100x: load/store single (bits 9..15)
        s, u, size, l = cst(bits, 8, 9), cst(bits, 7, 8), cst(bits, 5, 7), cst(bits, 4, 5)
        if l != 1 or None in (s, u, size, rn, rt) or size == 3 or (s and size == 2) or rt == 15:
            return None
        n = 1 << size
        if rn == 15:
            imm = wide(fld(bits, 16, 28), w)
            return [('set', 'al', R(rt), ('mem', add(w, pcA, imm if u else sub(w, 0, imm)), n, bool(s)))]
        if u:
            return [('set', 'al', R(rt), ('memr', R(rn), wide(fld(bits, 16, 28), w), n, bool(s)))]
        if cst(bits, 24, 28) == 0b1100:
            return [('set', 'al', R(rt), ('memr', R(rn), sub(w, 0, wide(fld(bits, 16, 24), w)), n, bool(s)))]
        return None
    if (hi >> 5) == 0b1110100 and cst(bits, 6, 7) == 1 and cst(bits, 8, 9) == 1 and cst(bits, 5, 6) == 0 and cst(bits, 4, 5) == 1:
        u, rt2 = cst(bits, 7, 8), cst(bits, 24, 28)
        imm = mulc(w, wide(fld(bits, 16, 24), w), 4)
        imm = imm if u else sub(w, 0, imm)
        def e(k):
            i = add(w, imm, k)
            return ('mem', add(w, pcA, i), 4, False) if rn == 15 else ('memr', R(rn), i, 4, False)
        return [('set2', 'al', R(rt), e(0), R(rt2), e(4))]
    if rn == 15 and (hi & ~0x040) in (0b111100100000, 0b111100101010) and cst(bits, 31, 32) == 0:
        imm = from_bits(bits[16:24] + bits[28:31] + bits[10:11])
        imm = wide(imm, w)
        rd = cst(bits, 24, 28)
        a = add(w, pcA, imm if (hi & ~0x040) == 0b111100100000 else sub(w, 0, imm))
        return [('set', 'al', R(rd), ('c', a))]
    if (hi & ~0x040) in (0b111100100100, 0b111100101100) and cst(bits, 31, 32) == 0 and rn is not None:
        v = wide(from_bits(bits[16:24] + bits[28:31] + bits[10:11] + bits[0:4]), w)
        rd = cst(bits, 24, 28)
        return [('set', 'al', R(rd), ('c', v) if (hi & ~0x040) == 0b111100100100 else ('movt', R(rd), mulc(w, v, 1 << 16)))]
    if cst(bits, 11, 16) == 0b11110 and cst(bits, 31, 32) == 1:
        h1, h2 = cst(bits, 0, 16), cst(bits, 16, 32)
        if h1 is None or h2 is None:
            return None
        s, j1, j2 = h1 >> 10 & 1, h2 >> 13 & 1, h2 >> 11 & 1
        if h2 >> 12 & 5 == 1 and h2 >> 14 == 2:
            d = s << 24 | (1 ^ j1 ^ s) << 23 | (1 ^ j2 ^ s) << 22 | (h1 & 0x3ff) << 12 | (h2 & 0x7ff) << 1
            return [('jump', 'al', 4 + (d - (1 << 25) if s else d))]
        if h2 >> 12 & 5 == 0 and h2 >> 14 == 2 and (h1 >> 6 & 15) < 14:
            d = s << 20 | j2 << 19 | j1 << 18 | (h1 & 0x3f) << 12 | (h2 & 0x7ff) << 1
            return [('jump', CC[h1 >> 6 & 15], 4 + (d - (1 << 21) if s else d))]
    if cst(bits, 0, 32) == 0x8000f3af:
        return []
    return None


def sem(arch, v, n, pc):
    bits = to_bits(v, 8 * n) if not isinstance(v, Opaque) else None
    if bits is None:
        return None
    if arch == 'aarch64':
        return sem_a64(bits, pc)
    if arch == 'armv7':
        return sem_a32(bits, pc)
    return sem_t16(bits, pc) if n == 2 else sem_t32(bits, pc)


def t_len(v):
    """Length of the Thumb instruction whose first halfword is v."""
    b = to_bits(v, 16)
    if b is None:
        return None
    t = cst(b, 11, 16)
    if t is None:
        return None
    return 4 if t in (0b11101, 0b11110, 0b11111) else 2


class Side:
    """One of the two evaluated streams."""

    def __init__(self, m, base):
        self.m, self.base, self.off, self.st = m, base, 0, {}
        self.w = m.W

    def pc(self):
        return add(self.w, self.base, self.off)

    def reg(self, cond, r):
        for c in (cond, 'al'):
            if (c, r) in self.st:
                return self.st[c, r]
        if any(k[1] == r for k in self.st):
            return ('reg', r, cond)
        return ('reg', r)

    def value(self, cond, e):
        w = self.w
        k = e[0]
        if k == 'c':
            return ('a', e[1])
        if k == 'mem':
            return self.at(e[1], e[2], e[3])
        if k == 'addr':
            b = self.reg(cond, e[1])
            return ('a', add(w, b[1], e[2])) if b[0] == 'a' else (b if e[2] == 0 else ('add', b, e[2]))
        if k == 'memr':
            b = self.reg(cond, e[1])
            if b[0] == 'a':
                return self.at(add(w, b[1], e[2]), e[3], e[4])
            return ('mem', b, e[2], e[3], e[4])
        if k == 'memx':
            b = ('a', e[1][1]) if isinstance(e[1], tuple) else self.reg(cond, e[1])
            return ('memx', b, self.reg(cond, e[2])) + e[3:]
        if k in ('movk', 'movt'):
            b = self.reg(cond, e[1])
            if b[0] != 'a':
                return ('ins', b, e[2])
            sh = e[3] if k == 'movk' else 16
            m = 0xffff << sh
            return ('a', bor(w, band(w, b[1], ~m & (1 << w) - 1), e[2]))
        raise AnalysisError(k)

    def at(self, a, n, sg):
        """The data at an address: known if it lies in the copy's own image."""
        return ('mem', ('a', a), 0, n, sg)

    def apply(self, effs):
        for e in effs:
            if e[0] == 'set':
                self.put(e[1], e[2], self.value(e[1], e[3]))
            elif e[0] == 'set2':
                a, b = self.value(e[1], e[3]), self.value(e[1], e[5])
                self.put(e[1], e[2], a)
                self.put(e[1], e[4], b)

    def put(self, cond, r, v):
        if r == 'x31':
            return
        if cond == 'al':
            for k in [k for k in self.st if k[1] == r]:
                del self.st[k]
        if v == ('reg', r):
            self.st.pop((cond, r), None)
            return
        self.st[cond, r] = v


class Copy(Side):
    def __init__(self, m, rx, rw, off):
        super().__init__(m, m.base_of(rx))
        self.rx, self.rw, self.off = rx, rw, off
        self.used = m.scn.used = []        # words and final instructions the thunk needs

    def at(self, a, n, sg):
        p = self.m.to_ptr(self.m.res(a))
        if isinstance(p, Ptr) and p.obj is self.rx and isinstance(p.off, int):
            o = p.off
            v = self.read(o, n)
            self.used.append((o, n))
            if v is None:
                return ('uninit', o)
            if isinstance(v, Ptr):
                return ('p', v)
            if isinstance(v, (int, Lin)) and n * 8 <= self.w:
                if sg or n * 8 < self.w:
                    v = sext(v, n * 8, self.w) if sg else wide(v, self.w)
                q = self.m.to_ptr(v) if n * 8 == self.w else None
                return ('p', q) if q is not None and q.obj.kind != 'code' else ('a', v)
            return ('data', repr(v))
        return ('mem', ('a', a), 0, n, sg)

    def read(self, off, n):
        o = self.rw
        v = None
        c = o.ch.get(off)
        if c is not None and c[0] == n:
            v = c[1]
        else:
            parts = [(q, s, x) for q, (s, x) in o.ch.items() if q < off + n and off < q + s]
            if sum(min(q + s, off + n) - max(q, off) for q, s, x in parts) != n:
                return None
            v = self.m.load(o, off, n)
        if isinstance(v, Blob):
            try:
                v = self.m.num(v, n)
            except AnalysisError:
                return v
        return v


def same(m, a, b):
    if a == b:
        return True
    if a[0] == b[0] == 'a':
        return same_num(m, a[1], b[1])
    if {a[0], b[0]} == {'a', 'p'}:
        x = a[1] if a[0] == 'a' else m.addr(a[1])
        y = b[1] if b[0] == 'a' else m.addr(b[1])
        return same_num(m, x, y)
    if a[0] == b[0] and len(a) == len(b) and a[0] in ('mem', 'add', 'ins', 'memx'):
        return same(m, a[1], b[1]) and all(x == y or (isinstance(x, (int, Lin)) and same_num(m, x, y)) for x, y in zip(a[2:], b[2:]))
    return False


def same_num(m, x, y):
    x, y = m.res(x), m.res(y)
    return x == y or sub(m.W, x, y) == 0


def differ(m, a, b, skip=()):
    """First register on which two states disagree."""
    for k in sorted(set(a) | set(b)):
        if k[1] in skip:
            continue
        x, y = a.get(k), b.get(k)
        if x is None and k[0] != 'al' and ('al', k[1]) in a:
            x = a['al', k[1]]
        if y is None and k[0] != 'al' and ('al', k[1]) in b:
            y = b['al', k[1]]
        if x is None or y is None or not same(m, x, y):
            return k, x, y
    return None


def show(v):
    return 'its previous value' if v is None else str(v)


# ---------------------------------------------------------------- ARM family
def judge_arm(m, scn, t, rx, rw, entry, cb):
    arch = m.arch
    ncond = sum(1 for q, s, i in t['items'] if i.get('disp') is not None and i['cls'] == 'ctl')
    for dec in itertools.product((False, True), repeat=min(ncond, 4)):
        hop = {}
        try:
            arm_path(m, scn, t, rx, rw, entry, list(dec), hop)
        except Bad as b:
            cb('unchanged+shape' if b.rule == 'shape' and hop.get('branch') else b.rule, b.key, b.text)
            return


def self_ref(m, t, e):
    """Does an effect read the assembly block itself? Compiled code never does (it has no name for it)."""
    for x in e:
        if x[0] in ('set', 'set2') and x[3][0] == 'mem':
            p = m.to_ptr(m.res(x[3][1]))
            if isinstance(p, Ptr) and p.obj is t['obj'] and isinstance(p.off, int):
                o = (p.off - t['bias']) % (1 << m.W)
                if t['block'] - 8 < o < t['end']:
                    return True
    return False


def arm_path(m, scn, t, rx, rw, entry, dec, hop):
    arch = m.arch
    tb = add(m.W, m.base_of(t['obj']), t['bias'])
    O = Side(m, tb)
    N = Copy(m, rx, rw, entry)
    at = {q: i for q, s, i in t['items']}
    seen = set()
    steps = 0
    while True:
        steps += 1
        if steps > 6000:
            raise AnalysisError('evaluation does not end')
        # ---- original up to the next address-independent instruction
        it = None
        while O.off != t['block']:
            it = at.get(O.off)
            if it is None:
                raise Bad('unchanged', 'stray-branch', f'construction accepts a branch to offset {O.off}, where no instruction starts')
            if it['cls'] == 'bad':
                raise Bad('unchanged', f'undecodable:{it["name"]}', f'bytes that do not decode ({it["name"]}) are accepted in a prologue')
            if it['cls'] in ('br', 'ctl') and it.get('disp') is not None:
                break
            if it['cls'] == 'ctl':
                raise Bad('unchanged', f'control:{it["name"]}', f'"{it["name"]}" may leave the prologue, but is accepted')
            if it['cls'] == 'pcrel':
                e = sem(arch, it['val'], it['size'], O.pc())
                if e is None:
                    # no evaluator for it: any unchanged copy is wrong, a rewritten one cannot be judged
                    v = N.read(N.off, it['size'])
                    if v == it['val']:
                        raise Bad('unchanged', f'pcrel:{it["name"]}', f'"{it["name"]}" depends on its address but is copied unchanged')
                    raise AnalysisError(f'no semantics for the rewritten {it["name"]}')
                if self_ref(m, t, e):
                    return
                O.apply(e)
                O.off += it['size']
                continue
            break
        at_block = O.off == t['block']
        if at_block:
            n0 = arm_len(arch, t['code'], 0)
            want = int.from_bytes(t['code'][:n0], 'little')
        else:
            n0, want = it['size'], m.res(it['val'])
        # ---- the copy until it reaches the same instruction
        inner = 0
        while True:
            inner += 1
            if inner > 40:
                raise Bad('shape', 'runaway', 'the relocated code does not reach the next original instruction')
            v = N.read(N.off, n0)
            v = m.res(v) if isinstance(v, Lin) else v
            if v is not None and v == want and differ(m, O.st, N.st) is None and not (it is not None and it['cls'] == 'pcrel' and not at_block):
                break
            n = 4
            if arch == 'thumb':
                h = N.read(N.off, 2)
                n = t_len(h) if isinstance(h, (int, Lin)) else None
            v = N.read(N.off, n) if n else None
            name = '(asm block)' if at_block else it['name']
            prev = getattr(O, 'last', '')
            if v is None or isinstance(v, (Blob, Opaque, Ext, Ptr)):
                raise Bad('shape', f'lost:{name}', f'relocated code has no complete instruction at +{N.off - entry} where "{name}" is expected')
            old = next((i for i in at.values() if i['size'] == n and not isinstance(i['val'], Opaque) and m.res(i['val']) == m.res(v)), None)
            if old is not None and old['cls'] == 'pcrel':
                raise Bad('unchanged', f'pcrel:{old["name"]}', f'"{old["name"]}" depends on its address but is copied unchanged')
            if v == want and n == n0:
                d = differ(m, O.st, N.st)
                (c, r), x, y = d
                raise Bad('effect', f'value:{pc_names(t, O.off)}',
                          f'before "{name}" register {r} should hold {show(x)} but holds {show(y)} [{pc_names(t, O.off)}]')
            e = sem(arch, v, n, N.pc())
            if e is None or any(x[0] == 'bx' for x in e):
                hx = hex(v) if isinstance(v, int) else str(v)
                raise Bad('effect' if pc_names(t, O.off) else 'shape', f'insn:{pc_names(t, O.off) or name}',
                          f'relocated code has {hx} at +{N.off - entry}, which is neither "{name}" nor an instruction with the effect of the one replaced [{pc_names(t, O.off)}]')
            j = next((x for x in e if x[0] == 'jump'), None)
            if j is not None:
                if j[1] != 'al':
                    raise Bad('shape', f'branch:{name}', f'a conditional branch appears at +{N.off - entry} that is not in the original')
                N.off += j[2]
                continue
            N.apply(e)
            N.off += n
        if at_block:
            break
        # ---- both at the same instruction
        if it.get('disp') is not None:
            key = (O.off, len(dec))
            if key in seen:
                raise Bad('unchanged', 'loop', f'the prologue loops at "{it["name"]}" and never reaches the thunk code, but is accepted')
            seen.add(key)
            taken = True
            if it['cls'] == 'ctl':
                taken = dec.pop(0) if dec else True
            if taken:
                tgt = O.off + it['disp']
                if not (tgt in at or tgt == t['block']):
                    raise Bad('unchanged', f'branch:{it["name"].split()[0]}',
                              f'"{it["name"]}" leaves the copied code but is accepted')
                O.off = tgt
                N.off += it['disp']
                hop['branch'] = True
            else:
                O.off += it['size']
                N.off += it['size']
            continue
        O.off += it['size']
        N.off += it['size']
        O.st, N.st = {}, {}
        hop['branch'] = False
    # ---- the asm block in the copy
    pre = dict(N.st)
    for _ in range(8):
        n = 4
        if arch == 'thumb':
            h = N.read(N.off, 2)
            n = t_len(h) if isinstance(h, (int, Lin)) else None
        v = N.read(N.off, n) if n else None
        if v is None or isinstance(v, (Blob, Opaque, Ext, Ptr)):
            raise Bad('patch', 'block', f'the assembly block is damaged at +{N.off - entry}')
        e = sem(arch, v, n, N.pc())
        if e is None:
            raise Bad('patch', 'block', f'the assembly block is damaged at +{N.off - entry}: {v}')
        bx = next((x for x in e if x[0] == 'bx'), None)
        if bx is None:
            N.apply(e)
            N.off += n
            continue
        target = N.reg('al', bx[1])
        break
    else:
        raise Bad('patch', 'block', 'the assembly block never jumps')
    finish(m, scn, t, N, pre, lambda r: N.reg('al', regname(arch, r)), target, set(regname(arch, r) for r in t['regs']))


def regname(arch, r):
    return 'r14' if r == 'lr' else r


def arm_len(arch, code, i):
    if arch != 'thumb':
        return 4
    return t_len(int.from_bytes(code[i:i + 2], 'little'))


def pc_names(t, upto):
    """The rewritten instructions directly before an offset."""
    out = []
    for q, s, i in t['items']:
        if q < upto:
            if i['cls'] in ('pcrel',) or i.get('iprel'):
                out.append(i['name'] if 'name' in i else 'ip-relative')
            else:
                out = []
    return ';'.join(out)


def finish(m, scn, t, N, pre, reg, target, outs):
    """Closure register and continuation after the block; the rest must be untouched."""
    cl = reg(t['regs'][0])
    want = add(m.W, m.base_of(t['obj']), t['end'])
    got = target
    if got[0] == 'p':
        got = ('a', m.addr(got[1]))
    if got[0] != 'a' or not same_num(m, got[1], want):
        raise Bad('patch', 'continuation', f'the thunk jumps to {show(target)} instead of the end of the data block ({want})')
    if cl[0] == 'a':
        q = m.to_ptr(cl[1])
        cl = ('p', q) if q is not None else cl
    if cl[0] != 'p':
        raise Bad('patch', 'closure', f'the thunk loads {show(cl)} as closure pointer')
    scn.closures.append(cl[1])
    for k, v in N.st.items():
        if k[1] in outs:
            continue
        if k not in pre or not same(m, pre[k], v):
            raise Bad('patch', 'clobber', f'the block changes register {k[1]}')


# ---------------------------------------------------------------- x86
def live_after(t, arch):
    """offset -> set of registers (full names) live there, over all paths to the block."""
    regs = x86.R64 if arch == 'x86_64' else x86.R32
    n = 16 if arch == 'x86_64' else 8
    full = lambda r: regs[x86.reg_info(r)[0]]
    outs = {regs[[x.lower() for x in regs].index(r)] for r in t['regs']}
    live = {t['block']: set(regs[:n]) - outs}
    items = list(t['items'])
    for _ in range(len(items) + 2):
        for q, s, i in reversed(items):
            nxt = set(live.get(q + s, set(regs[:n]) if q + s not in dict((a, 1) for a, _, _ in items) and q + s != t['block'] else set()))
            if i['flow'] in ('ConditionalBranch', 'UnconditionalBranch') and i['target'] is not None:
                nxt |= live.get(i['target'], set(regs[:n]) if i['target'] not in [a for a, _, _ in items] + [t['block']] else set())
            for r, a in i['used']:
                ri = x86.reg_info(r)
                if ri and a == 'Write' and ri[1] >= 4:
                    nxt.discard(full(r))
            for r, a in i['used']:
                ri = x86.reg_info(r)
                if ri and a not in ('Write', 'None', 'NoMemAccess'):
                    nxt.add(full(r))
            live[q] = nxt
    return live


def judge_x86(m, scn, t, rx, rw, entry, cb):
    ncond = sum(1 for q, s, i in t['items'] if i['flow'] == 'ConditionalBranch')
    for dec in itertools.product((False, True), repeat=min(ncond, 4)):
        hop = {}
        try:
            x86_path(m, scn, t, rx, rw, entry, list(dec), hop)
        except Bad as b:
            # a branch copied unchanged whose target did not move along
            cb('unchanged+shape' if b.rule == 'shape' and hop.get('branch') else b.rule, b.key, b.text)
            return


def is_pop(i):
    return i['code'] in ('Pop_r32', 'Pop_rm32') and x86.reg_info(i['op0']) is not None


def iname(i):
    return i.get('name') or i.get('code') or i['cls']


def x86_path(m, scn, t, rx, rw, entry, dec, hop):
    W = m.W
    regs = x86.R64 if W == 64 else x86.R32
    tb = m.base_of(t['obj'])
    at = {q: i for q, s, i in t['items']}
    live = live_after(t, m.arch)
    N = Copy(m, rx, rw, entry)
    o = 0
    steps = 0
    def chunk():
        c = rw.ch.get(N.off)
        if c is not None and isinstance(c[1], Ext) and c[1].lo == 0 and c[1].n < c[1].size:
            # written in pieces
            v = N.read(N.off, c[1].size)
            if v is not None and not isinstance(v, (Blob, Ext)):
                return c[1].size, v
        return c
    def check_state(where, want=None):
        """Registers the copy changed must be dead here or hold the wanted value."""
        want = want or {}
        for (c, r), v in list(N.st.items()):
            if r in want:
                continue
            if r in live.get(where, ()):
                raise Bad('effect', 'clobber', f'the relocated code changes {r}, which is still needed at {iname(at[where]) if where in at else "the asm block"}')
    expect = {}          # register -> address the original put there (call/pop)
    while True:
        steps += 1
        if steps > 4000:
            raise Bad('unchanged', 'loop', 'the prologue loops and never reaches the thunk code, but is accepted')
        if o == t['block']:
            break
        it = at.get(o)
        if it is None:
            raise Bad('unchanged', 'stray-branch', f'a branch to offset {o}, where no instruction starts, is accepted')
        if it['invalid']:
            raise Bad('unchanged', 'undecodable', 'bytes that do not decode are accepted in a prologue')
        nx = at.get(o + it['size'])
        if it['flow'] == 'Call' and it['code'] == 'Call_rel32_32' and it['target'] == o + it['size'] and nx is not None and is_pop(nx):
            expect[nx['op0']] = add(W, tb, o + it['size'])
            o += it['size'] + nx['size']
            c2, p2 = at.get(o), None
            if c2 is not None and c2['code'] == 'Call_rel32_32' and c2['target'] == o + c2['size']:
                p2 = at.get(o + c2['size'])
            if p2 is not None and is_pop(p2):
                continue     # judged at the end of the run
            # the copy must load the same addresses into the registers
            while True:
                c = chunk()
                if c is None or not (isinstance(c[1], Opaque) and c[1].tag == 'enc' and c[1].d['cls'] == 'new'):
                    break
                N.st['al', c[1].d['op0']] = ('a', trunc(c[1].d['imm'], W) if not isinstance(c[1].d['imm'], int) else c[1].d['imm'])
                N.off += c[0]
            for r, v in expect.items():
                g = N.st.get(('al', r))
                if g is None:
                    c = chunk()
                    if c is not None and isinstance(c[1], Opaque) and c[1].tag == 'code' and c[1].d is it:
                        raise Bad('unchanged', 'call-pop', 'a call that reads its own address is copied unchanged')
                    raise Bad('effect', 'call-pop', f'call/pop into {r} is dropped without loading its address')
                if not same_num(m, g[1], v):
                    raise Bad('effect', 'call-pop', f'call/pop leaves {g[1]} in {r} instead of {v}')
            extra = [r for (c, r) in N.st if r not in expect]
            if extra:
                raise Bad('effect', 'call-pop', f'call/pop writes {extra[0]}')
            N.st, expect = {}, {}
            continue
        jump = it['target'] is not None and it['flow'] in ('ConditionalBranch', 'UnconditionalBranch')
        if it['flow'] != 'Next' and not jump:
            raise Bad('unchanged', f'control:{it["flow"]}', f'an instruction with control flow "{it["flow"]}" ({iname(it)}) is accepted')
        # scratch loads emitted before the instruction
        while True:
            c = chunk()
            if c is None:
                raise Bad('shape', f'lost:{iname(it)}', f'relocated code has no complete instruction at +{N.off - entry} where "{iname(it)}" is expected')
            if isinstance(c[1], Opaque) and c[1].tag == 'enc' and c[1].d['cls'] == 'new':
                d = c[1].d
                v = d['imm']
                N.st['al', d['op0']] = ('a', v)
                N.off += c[0]
                continue
            break
        d = c[1].d if isinstance(c[1], Opaque) else None
        if d is None or c[1].tag not in ('code', 'enc') or (c[1].tag == 'code' and c[1].size != c[0]):
            raise Bad('shape', f'lost:{iname(it)}', f'relocated code has {c[1]} at +{N.off - entry} where "{iname(it)}" is expected')
        if c[1].tag == 'code':
            if d is not it:
                raise Bad('shape', f'order:{iname(it)}', f'relocated code has "{iname(d)}" at +{N.off - entry} where "{iname(it)}" is expected')
            if it['iprel']:
                raise Bad('unchanged', f'iprel:{iname(it)}', f'"{iname(it)}" has an address relative to itself but is copied unchanged')
            ndisp = None if it['target'] is None else N.off - entry + (it['target'] - o)
        else:
            if d.get('off') != o or d['cls'] != it['cls']:
                raise Bad('shape', f'order:{iname(it)}', f'relocated code re-encodes the instruction at offset {d.get("off")} where "{iname(it)}" is expected')
            if it['iprel']:
                base = d.get('base')
                want = zext(add(W, tb, it['disp']), 64) if isinstance(it['disp'], int) else it['disp']
                disp = d['disp64'] if 'disp64' in d else want
                if base in (None, 'RIP', 'EIP'):
                    npc = zext(add(W, N.base, N.off), 64)
                    a = add(64, disp, sub(64, npc, d['enc_rip']))
                else:
                    b = N.st.get(('al', base))
                    if b is None:
                        raise Bad('effect', f'iprel:{iname(it)}', f'"{iname(it)}" is rewritten to use {base}, which holds no address')
                    a = add(64, b[1], disp)
                if d.get('index') not in (None, 'None'):
                    raise Bad('effect', f'iprel:{iname(it)}', f'"{iname(it)}" gets an index register')
                if not (m.res(a) == m.res(want) or sub(64, m.res(a), m.res(want)) == 0):
                    raise Bad('effect', f'iprel:{iname(it)}', f'"{iname(it)}" accesses {a} instead of {want}')
                for (cc, r) in N.st:
                    for u, acc in it['used']:
                        ui = x86.reg_info(u)
                        if ui and regs[ui[0]] == r and acc not in ('Write', 'None', 'NoMemAccess'):
                            raise Bad('effect', f'scratch:{iname(it)}', f'"{iname(it)}" reads {r}, which was overwritten to hold its address')
                    wr = [u for u, acc in it['used'] if x86.reg_info(u) and regs[x86.reg_info(u)[0]] == r and acc == 'Write' and x86.reg_info(u)[1] < 4]
                    if wr and r in live.get(o + it['size'], ()):
                        raise Bad('effect', f'scratch:{iname(it)}', f'"{iname(it)}" writes only part of {r}, the rest was overwritten')
            ndisp = None
            if it['target'] is not None:
                tv = d['target']
                if isinstance(tv, int) and not any(k == 'target' for k, _ in d.get('edits', ())):
                    tv = add(64, zext(tb, 64), tv)
                dd = m.res(sub(64, add(64, tv, 0), d['enc_rip']))
                if not isinstance(dd, int):
                    raise Bad('effect', 'jcc', f'a re-encoded branch goes to {tv}')
                dd = dd - (1 << 64) if dd >> 63 else dd
                ndisp = N.off - entry + dd
        # effect on registers the copy changed
        for u, acc in it['used']:
            ui = x86.reg_info(u)
            if ui and acc == 'Write' and ui[1] >= 4:
                N.st.pop(('al', regs[ui[0]]), None)
        if jump:
            taken = True if it['flow'] == 'UnconditionalBranch' else dec.pop(0) if dec else False
            if taken:
                tgt = it['target']
                if tgt not in at and tgt != t['block']:
                    raise Bad('unchanged', f'branch:{iname(it)}', f'a jump ({iname(it)}) to offset {tgt} outside the moved prologue is accepted')
                o = tgt
                check_state(o)
                N.st = {}
                N.off = entry + ndisp
                hop['branch'] = c[1].tag == 'code'
                continue
        hop['branch'] = False
        o += it['size']
        N.off += c[0]
        check_state(o)
        N.st = {}
    # ---- the asm block
    code = read_code(m, rw, N.off, len(t['code']))
    if code is None:
        raise Bad('shape', 'lost:(asm block)', f'the assembly block is missing at +{N.off - entry}')
    blk_x86(m, scn, t, N, code, entry)


def read_code(m, rw, off, n):
    """Bytes of the copy as a list of ints, None (opaque) or ('w', k, value) parts of patched words."""
    out = []
    for i in range(n):
        x = None
        for q, (s, v) in rw.ch.items():
            if q <= off + i < q + s:
                k = off + i - q
                if isinstance(v, int):
                    x = v >> 8 * k & 255
                elif isinstance(v, Ext) and isinstance(v.v, int):
                    x = v.v >> 8 * (v.lo + k) & 255
                else:
                    x = ('w', q, s, v)
                break
        if x is None:
            return None
        out.append(x)
    return out


def blk_x86(m, scn, t, N, code, entry):
    regs = x86.R64 if m.W == 64 else x86.R32
    start = N.off
    st = {}
    i = 0
    def word(p, n):
        b = code[p:p + n]
        N.used.append((start + p, n))
        if all(isinstance(x, int) for x in b):
            v = sum(x << 8 * k for k, x in enumerate(b))
            q = m.to_ptr(v) if n == m.P else None
            return ('a', v)
        v = N.read(start + p, n)
        if isinstance(v, (Ptr, Lin)):
            return ('p', v) if isinstance(v, Ptr) else ('a', v)
        return ('mix', p)
    def sbyte(p, n):
        b = code[p:p + n]
        if not all(isinstance(x, int) for x in b):
            return None
        return int.from_bytes(bytes(b), 'little', signed=True)
    target = None
    for _ in range(12):
        b = code[i:i + 8]
        if not b or not isinstance(b[0], int):
            raise Bad('patch', 'block', f'a code byte of the block is overwritten (at block offset {i})')
        if m.W == 64 and b[0] in (0x48, 0x4C) and b[1] == 0x8B and isinstance(b[2], int) and b[2] & 0xC7 == 5:
            r = (b[2] >> 3 & 7) + (8 if b[0] & 4 else 0)
            d = sbyte(i + 3, 4)
            if d is None or not 0 <= i + 7 + d <= len(code) - 8:
                raise Bad('patch', 'block', 'the closure load does not read the data of the block')
            st[regs[r]] = word(i + 7 + d, 8)
            i += 7
        elif m.W == 64 and b[0] == 0xFF and b[1] == 0x25:
            d = sbyte(i + 2, 4)
            if d is None or not 0 <= i + 6 + d <= len(code) - 8:
                raise Bad('patch', 'block', 'the jump does not read the data of the block')
            target = word(i + 6 + d, 8)
            break
        elif m.W == 32 and 0xB8 <= b[0] < 0xC0:
            st[regs[b[0] & 7]] = word(i + 1, 4)
            i += 5
        elif b[0] == 0xFF and isinstance(b[1], int) and b[1] & 0xF8 == 0xE0:
            target = st.get(regs[b[1] & 7])
            break
        elif b[0] == 0x90:
            i += 1
        elif b[0] == 0x66 and b[1] == 0x90:
            i += 2
        elif b[0] == 0x0F and b[1] == 0x1F and isinstance(b[2], int):
            md, rm = b[2] >> 6, b[2] & 7
            i += 3 + (rm == 4) + {0: 0, 1: 1, 2: 4}.get(md, 0)
        elif b[0] == 0x8D and isinstance(b[1], int) and b[1] in (0x76, 0x74, 0xB6, 0xB4):
            i += {0x76: 3, 0x74: 4, 0xB6: 6, 0xB4: 7}[b[1]]
        elif b[0] in (0x2E, 0x66, 0x3E) or (b[0] == 0x89 and b[1] == 0xF6):
            i += 2 if b[0] == 0x89 else 1
        else:
            raise Bad('patch', 'block', f'unexpected code in the block at {i}: {b}')
    if target is None:
        raise Bad('patch', 'block', 'the block never jumps')
    N.used.append((start + i, 2))
    N.st = {('al', r): v for r, v in st.items()}
    outs = {regs[[x.lower() for x in regs].index(r)] for r in t['regs']}
    up = {r: regs[[x.lower() for x in regs].index(r)] for r in t['regs']}
    finish(m, scn, t, N, {}, lambda r: st.get(up[r], ('reg', r)), target, outs)


def judge(m, scn, t, rx, rw, entry, cb):
    if not hasattr(scn, 'closures'):
        scn.closures = []
    if m.arch in ('x86_64', 'i686'):
        judge_x86(m, scn, t, rx, rw, entry, cb)
    else:
        judge_arm(m, scn, t, rx, rw, entry, cb)
