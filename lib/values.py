"""Abstract values: constants, affine forms over named unknowns, pointers, opaque blobs.

An affine form is  c + sum(coef * atom)  modulo 2**w.  Atoms are unknowns with an interval; one-bit
atoms stand for the operand bits of abstract instructions, wide atoms for addresses.  All operators
are transfer functions of this domain: where a result is not representable it becomes a fresh,
hash-consed unknown (top, but equal expressions stay equal).
"""
from math import gcd


class Atom:
    __slots__ = ('name', 'lo', 'hi', 'uid', 'info')
    _n = 0

    def __init__(self, name, lo, hi, info=None):
        self.name, self.lo, self.hi, self.info = name, lo, hi, info
        Atom._n += 1
        self.uid = Atom._n

    def __repr__(self):
        return self.name


class Lin:
    __slots__ = ('w', 'c', 't')

    def __init__(self, w, c, t):
        self.w, self.c, self.t = w, c, t        # t: tuple of (atom, coef) sorted by uid, coef in 1..2^w-1

    def __repr__(self):
        h = 1 << (self.w - 1)
        def sg(x):
            return x - 2 * h if x >= h else x
        parts = [hex(sg(self.c))] if self.c or not self.t else []
        return '(' + ' + '.join(parts + [f'{hex(sg(k))}*{a}' if k != 1 else repr(a) for a, k in self.t]) + f')_{self.w}'

    def __eq__(self, o):
        return isinstance(o, Lin) and self.w == o.w and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.w, self.c, self.t))


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return f'&{self.obj}+{self.off}'

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.off == o.off

    def __hash__(self):
        return hash((id(self.obj), self.off))


class Opaque:
    """A value of a modelled foreign type; `tag` says which, `d` is its model state."""
    __slots__ = ('tag', 'd', 'size')

    def __init__(self, tag, d=None, size=None):
        self.tag, self.d, self.size = tag, d, size

    def __repr__(self):
        return f'<{self.tag} {self.d}>'


class Ext:
    """Bytes [lo, lo+n) of another value of known size."""
    __slots__ = ('v', 'lo', 'n', 'size')

    def __init__(self, v, lo, n, size):
        self.v, self.lo, self.n, self.size = v, lo, n, size

    def __repr__(self):
        return f'{self.v}[{self.lo}:{self.lo + self.n}]'

    def __eq__(self, o):
        return isinstance(o, Ext) and self.lo == o.lo and self.n == o.n and (self.v is o.v or self.v == o.v)

    def __hash__(self):
        return hash((self.lo, self.n))


class Blob:
    __slots__ = ('size', 'f')

    def __init__(self, size, f):
        self.size, self.f = size, f            # f: list of (off, size, val)

    def __repr__(self):
        return 'B%d{%s}' % (self.size, ', '.join(f'{o}:{v!r}' for o, s, v in self.f))


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def mk(w, c, d):
    m = (1 << w) - 1
    c &= m
    t = tuple(sorted(((a, k & m) for a, k in d.items() if k & m), key=lambda x: x[0].uid))
    return Lin(w, c, t) if t else c


def lin(w, x):
    return x if isinstance(x, Lin) else Lin(w, x & ((1 << w) - 1), ())


def atom_lin(w, a):
    return Lin(w, 0, ((a, 1),))


def add(w, a, b, sb=1):
    if isinstance(a, int) and isinstance(b, int):
        return (a + sb * b) & ((1 << w) - 1)
    a, b = lin(w, a), lin(w, b)
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + sb * k
    return mk(w, a.c + sb * b.c, d)


def sub(w, a, b):
    return add(w, a, b, -1)


def mulc(w, a, k):
    if isinstance(a, int):
        return (a * k) & ((1 << w) - 1)
    return mk(w, a.c * k, {x: c * k for x, c in a.t})


_cons = {}


def reset():
    _cons.clear()


def uf(w, op, *args):
    """Hash-consed unknown for an expression the domain cannot represent."""
    key = (w, op) + tuple(args)
    a = _cons.get(key)
    if a is None:
        a = _cons[key] = Atom(f'{op}{list(args)}', 0, (1 << w) - 1, ('uf', op, args))
    return atom_lin(w, a)


def sub_atom(a, lo, n):
    """Unknown standing for bits [lo, lo+n) of atom a."""
    key = ('sub', a, lo, n)
    r = _cons.get(key)
    if r is None:
        r = _cons[key] = Atom(f'{a}[{lo}+:{n}]', 0, (1 << n) - 1, ('sub', a, lo, n))
    return r


def nbits(a):
    return a.hi.bit_length()


def to_bits(x, w):
    """List of w bits (0, 1, (atom, i)) or None if carries prevent it."""
    if isinstance(x, int):
        return [(x >> i) & 1 for i in range(w)]
    bits = [(x.c >> i) & 1 for i in range(w)]
    for a, k in x.t:
        n = nbits(a)
        if a.lo < 0:
            return None
        if n == 1:
            for i in range(w):
                if (k >> i) & 1:
                    if bits[i] != 0:
                        return None
                    bits[i] = (a, 0)
        else:
            if k & (k - 1):
                return None
            s = k.bit_length() - 1
            for i in range(n):
                if s + i >= w:
                    break
                if bits[s + i] != 0:
                    return None
                bits[s + i] = (a, i)
    return bits


def from_bits(bits):
    w = len(bits)
    c = 0
    d = {}
    i = 0
    while i < w:
        b = bits[i]
        if b == 0 or b == 1:
            c |= b << i
            i += 1
            continue
        a, j = b
        if nbits(a) == 1:
            d[a] = d.get(a, 0) + (1 << i)
            i += 1
            continue
        n = 1
        while i + n < w and bits[i + n] == (a, j + n):
            n += 1
        x = a
        if not (j == 0 and (n == nbits(a) or i + n == w and n < nbits(a) and False)):
            x = sub_atom(a, j, n)
        d[x] = d.get(x, 0) + (1 << i)
        i += n
    return mk(w, c, d)


def low_known(x, k):
    """Value of x mod 2^k if the affine form determines it, else None."""
    if isinstance(x, int):
        return x & ((1 << k) - 1)
    m = (1 << k) - 1
    for _, c in x.t:
        if c & m:
            return None
    return x.c & m


def band(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    m = (1 << w) - 1
    if isinstance(b, int):
        if b == m:
            return a
        if b == 0:
            return 0
        inv = ~b & m
        if inv & (inv + 1) == 0:                # clears the low k bits
            k = inv.bit_length()
            lo = low_known(a, k)
            if lo is not None:
                return sub(w, a, lo)
        if b & (b + 1) == 0:
            lo = low_known(a, b.bit_length())
            if lo is not None:
                return lo
        # a low mask of a sum: drop the multiples
        ab = to_bits(a, w)
        if ab is not None:
            return from_bits([x if (b >> i) & 1 else 0 for i, x in enumerate(ab)])
        # alignment of something with a symbolic residue
        return uf(w, 'and', a, b)
    ab, bb = to_bits(a, w), to_bits(b, w)
    if ab is not None and bb is not None:
        r = []
        for x, y in zip(ab, bb):
            if x == 0 or y == 0:
                r.append(0)
            elif x == 1:
                r.append(y)
            elif y == 1 or x == y:
                r.append(x)
            else:
                return uf(w, 'and', a, b)
        return from_bits(r)
    return uf(w, 'and', a, b)


def bor(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        k = b.bit_length()
        lo = low_known(a, k)
        if lo is not None:
            return add(w, a, (lo | b) - lo)
    ab, bb = to_bits(a, w), to_bits(b, w)
    if ab is not None and bb is not None:
        r = []
        for x, y in zip(ab, bb):
            if x == 0:
                r.append(y)
            elif y == 0 or x == y:
                r.append(x)
            elif x == 1 or y == 1:
                r.append(1)
            else:
                return uf(w, 'or', a, b)
        return from_bits(r)
    return uf(w, 'or', a, b)


def bxor(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(b, int) and b == (1 << w) - 1:
        return sub(w, b, a)
    if a == b:
        return 0
    ab, bb = to_bits(a, w), to_bits(b, w)
    if ab is not None and bb is not None:
        r = []
        for x, y in zip(ab, bb):
            if x == 0:
                r.append(y)
            elif y == 0:
                r.append(x)
            elif x == y:
                r.append(0)
            else:
                return uf(w, 'xor', a, b)
        return from_bits(r)
    return uf(w, 'xor', a, b)


def shl(w, a, k):
    return mulc(w, a, 1 << k) if k < w else 0


def shr(w, a, k, signed):
    if k == 0:
        return a
    if isinstance(a, int):
        if signed and a >> (w - 1):
            return (((a - (1 << w)) >> k)) & ((1 << w) - 1)
        return a >> k
    bits = to_bits(a, w)
    if bits is not None:
        return from_bits(bits[k:] + [bits[-1] if signed else 0] * k)
    lo = low_known(a, k)
    if lo is not None:
        r = signed_range(a) if signed else unsigned_range(a)
        if r is not None:
            # exact: (a - lo) / 2^k, without wrap-around
            h = 1 << (w - 1)
            def sg(x):
                return x - 2 * h if x >= h else x
            return mk(w, (range_const(a, signed) - lo) >> k, {x: sg(c) >> k for x, c in a.t})
    return uf(w, 'sar' if signed else 'shr', a, k)


def trunc(x, w):
    if isinstance(x, int):
        return x & ((1 << w) - 1)
    if x.w == w:
        return x
    return mk(w, x.c, dict(x.t))


def zext(x, w):
    if isinstance(x, int) or x.w == w:
        return x
    r = unsigned_range(x)
    if r is not None:
        h = 1 << (x.w - 1)
        return mk(w, range_const(x, False), {a: (k - 2 * h if k >= h else k) for a, k in x.t})
    bits = to_bits(x, x.w)
    if bits is not None:
        return from_bits(bits + [0] * (w - x.w))
    return uf(w, 'zext', x)


def sext(x, fw, w):
    if isinstance(x, int):
        if x >> (fw - 1):
            x -= 1 << fw
        return x & ((1 << w) - 1)
    if x.w == w:
        return x
    r = signed_range(x)
    if r is not None:
        h = 1 << (x.w - 1)
        return mk(w, range_const(x, True), {a: (k - 2 * h if k >= h else k) for a, k in x.t})
    bits = to_bits(x, x.w)
    if bits is not None:
        return from_bits(bits + [bits[-1]] * (w - x.w))
    return uf(w, 'sext', x)


def math_range(x):
    """Interval of the affine form with signed coefficients and signed constant, ignoring wrap."""
    h = 1 << (x.w - 1)
    lo = hi = x.c - 2 * h if x.c >= h else x.c
    for a, k in x.t:
        if k >= h:
            k -= 2 * h
        if k > 0:
            lo += k * a.lo
            hi += k * a.hi
        else:
            lo += k * a.hi
            hi += k * a.lo
    return lo, hi


def _fit(x, base):
    lo, hi = math_range(x)
    m = 1 << x.w
    s = (lo - base) // m
    if hi - s * m < base + m:
        return lo - s * m, hi - s * m, -s * m
    return None


def unsigned_range(x):
    if isinstance(x, int):
        return x, x
    r = _fit(x, 0)
    return r and r[:2]


def signed_range(x):
    r = _fit(x, -(1 << (x.w - 1)))
    return r and r[:2]


def range_const(x, signed):
    h = 1 << (x.w - 1)
    r = _fit(x, -h if signed else 0)
    return (x.c - 2 * h if x.c >= h else x.c) + r[2]


def never_zero(d):
    """True if the affine form d cannot be 0 modulo 2^w."""
    if isinstance(d, int):
        return d != 0
    g = 1 << d.w
    for _, k in d.t:
        g = gcd(g, k)
    if d.c % g:
        return True
    lo, hi = math_range(d)
    m = 1 << d.w
    return -(-lo // m) * m > hi
