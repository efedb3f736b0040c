"""Abstract interpreter over monomorphic MIR dumped by the driver.

One `Machine` holds a loaded dump.  `explore(root, ...)` walks every path of a root function: each
undecided branch or modelled outcome is a choice point, and the walk is repeated with a different
choice prefix until all choice sequences are covered.  No instruction of the analysed program is
ever executed; bodies are interpreted over the domain in values.py.
"""
import json
import sys
import threading
from values import *
import values as V

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """The analysis cannot give an answer (unmodelled construct)."""


class Unwind(Exception):
    def __init__(self, why):
        self.why = why


class StepLimit(AnalysisError):
    pass


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Obj:
    __slots__ = ('kind', 'name', 'size', 'ch', 'raw', 'rel', 'freed', 'base', 'align', 'info', 'hook')
    n = 0

    def __init__(self, kind, name, size=None, align=1, info=None):
        self.kind, self.name, self.size, self.align, self.info = kind, name, size, align, info
        self.ch = {}
        self.raw = None
        self.rel = None
        self.freed = False
        self.base = None
        self.hook = None

    def __repr__(self):
        return f'{self.kind}:{self.name}'


RUST_CALL = {'FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'}


class Frame:
    __slots__ = ('body', 'loc', 'inst')


class Body:
    __slots__ = ('locals', 'argc', 'spread', 'blocks', 'comp', 'inst')


class Machine:
    def __init__(self, path):
        with open(path) as f:
            self.d = json.load(f)
        d = self.d
        self.P = d['ptr']
        self.W = self.P * 8
        self.types, self.insts, self.allocs = d['types'], d['insts'], d['allocs']
        self.roots, self.tables, self.queries = d['roots'], d['tables'], d['queries']
        self.externs = d.get('externs', {})
        for t in self.types:
            l = t.get('layout')
            if l is not None and not isinstance(l['v'], dict):
                v = {'k': l['v']}
                for key in ('index', 'tag_off', 'tag_size', 'enc', 'untagged', 'nv_start', 'nv_end', 'niche_start', 'variants'):
                    if key in l:
                        v[key] = l[key]
                l['v'] = v
        self.bodies = {}
        self.models = {}
        self.prefix_models = []
        self.max_steps = 3_000_000
        self.tsz = [(t.get('layout') or {}).get('size') for t in self.types]
        self.fn_count = set()
        self.total_steps = 0
        self._model_cache = {}
        self.on_virtual = None
        self.nodrop = None
        self.on_static = None
        self.on_jit_store = None

    # ---------------------------------------------------------------- types
    def size(self, ty):
        s = self.tsz[ty]
        if s is None:
            raise AnalysisError(f'type without layout: {self.types[ty]["name"]}')
        return s

    def unsized(self, ty):
        t = self.types[ty]
        l = t.get('layout')
        if l is None:
            return t['k'] in ('dyn', 'slice', 'str')
        return not l['sized']

    def field(self, ty, variant, i):
        """(offset, type) of field i."""
        t = self.types[ty]
        lay = t['layout']
        k = t['k']
        if k == 'adt':
            vi = variant
            v = lay.get('v')
            if t['adt'] == 'enum' or (v and v.get('k') == 'multi'):
                if v['k'] == 'multi':
                    off = v['variants'][vi]['offsets'][i]
                else:
                    off = lay['offsets'][i]
            else:
                vi = 0
                off = 0 if t['adt'] == 'union' else lay['offsets'][i]
            return off, t['variants'][vi if vi is not None else 0]['fields'][i]['ty']
        if k in ('tuple', 'closure'):
            return lay['offsets'][i], t['fields'][i]
        if k == 'array':
            return lay['stride'] * i, t['elem']
        raise AnalysisError(f'field of {t["name"]}')

    def layout_field(self, ty, name):
        t = self.types[ty]
        for i, f in enumerate(t['variants'][0]['fields']):
            if f['name'] == name:
                return self.field(ty, 0, i)
        raise AnalysisError(f'no field {name} in {t["name"]}')

    # ---------------------------------------------------------------- state
    def begin(self, choices):
        self.choices = choices          # decisions taken so far / to replay
        self.taken = []                 # (index, arity, label)
        self.env = {}
        self.facts = {}
        self.events = []
        self.objs = []
        self.alloc_objs = {}
        self.fn_objs = {}
        self.vt_objs = {}
        self.by_atom = {}
        self.steps = 0
        self.depth = 0
        self.stack = []
        self.dang = self.new_obj('dangling', 'd', 0)
        self.scn = None

    def ev(self, *a):
        self.events.append(a)

    def choose(self, n, label):
        i = len(self.taken)
        if n == 1:
            return 0
        c = self.choices[i] if i < len(self.choices) else 0
        self.taken.append((c, n, label))
        return c

    def new_obj(self, kind, name, size=None, align=1, info=None):
        o = Obj(kind, name, size, align, info)
        return o

    def base_of(self, o):
        if o.base is None:
            a = max(o.align or 1, 1)
            hi = (1 << min(self.W, 47)) // a - 1 if self.W > 32 else (3 << 30) // a - 1
            at = Atom(f'@{o.kind}.{o.name}', max(1, 0x10000 // a), hi, ('obj', o))
            o.base = mk(self.W, 0, {at: a})
            self.by_atom[at] = o
        return o.base

    def set_base(self, o, base):
        o.base = base
        for at, k in base.t:
            self.by_atom[at] = o

    def addr(self, p):
        """Numeric value of a pointer."""
        if isinstance(p, Ptr):
            return add(self.W, self.base_of(p.obj), p.off)
        return p

    def to_ptr(self, v):
        v = self.res(v)
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Lin):
            for at, k in v.t:
                o = self.by_atom.get(at)
                if o is not None:
                    return Ptr(o, sub(self.W, v, o.base))
        return None

    def res(self, v):
        """Substitute unknowns that were decided on this path."""
        if isinstance(v, Lin) and self.env:
            e = self.env
            for a, k in v.t:
                if a in e or (a.info and a.info[0] == 'sub' and a.info[1] in e):
                    break
            else:
                return v
            c = v.c
            d = {}
            for a, k in v.t:
                if a in e:
                    c += k * e[a]
                elif a.info and a.info[0] == 'sub' and a.info[1] in e:
                    c += k * ((e[a.info[1]] >> a.info[2]) & ((1 << a.info[3]) - 1))
                else:
                    d[a] = k
            return mk(v.w, c, d)
        return v

    # ---------------------------------------------------------------- memory
    def chunk_part(self, v, size, lo, n):
        """Bytes [lo, lo+n) of chunk value v of `size` bytes."""
        if lo == 0 and n == size:
            return v
        if isinstance(v, int):
            return (v >> (8 * lo)) & ((1 << (8 * n)) - 1)
        if isinstance(v, Lin):
            bits = to_bits(v, 8 * size)
            if bits is not None and not any(isinstance(b, tuple) and nbits(b[0]) > 1 for b in bits):
                return from_bits(bits[8 * lo:8 * (lo + n)])
            if lo == 0 and False:
                return trunc(v, 8 * n)
        if isinstance(v, Ext):
            return self.mk_ext(v.v, v.lo + lo, n, v.size)
        return self.mk_ext(v, lo, n, size)

    def mk_ext(self, v, lo, n, size):
        if lo == 0 and n == size:
            return v
        return Ext(v, lo, n, size)

    def raw_read(self, o, off, size):
        rel = o.rel
        if rel:
            hits = [r for r in rel if off <= r < off + size]
            if hits:
                if size == self.P and hits[0] == off:
                    a = int.from_bytes(o.raw[off:off + size], 'little')
                    return self.alloc_ptr(rel[off], a)
                f = []
                p = off
                for r in sorted(hits):
                    if r > p:
                        f.append((p - off, r - p, int.from_bytes(o.raw[p:r], 'little')))
                    f.append((r - off, self.P, self.alloc_ptr(rel[r], int.from_bytes(o.raw[r:r + self.P], 'little'))))
                    p = r + self.P
                if p < off + size:
                    f.append((p - off, off + size - p, int.from_bytes(o.raw[p:off + size], 'little')))
                return Blob(size, f)
        return int.from_bytes(o.raw[off:off + size], 'little')

    def check_access(self, o, off, size, what):
        if o.freed:
            self.ev('ub', f'{what} after free', o)
        if o.size is not None and isinstance(off, int) and (off < 0 or off + size > o.size):
            self.ev('ub', f'{what} out of bounds', o, off, size)

    def load(self, o, off, size):
        if size == 0:
            return Blob(0, [])
        if not isinstance(off, int):
            off = self.res(off)
            if not isinstance(off, int):
                raise AnalysisError(f'symbolic offset {off} into {o}')
        c = o.ch.get(off)
        if c is not None and c[0] == size:
            if o.freed:
                self.ev('ub', 'read after free', o)
            return c[1]
        if o.kind == 'dangling':
            raise AnalysisError('read through a dangling pointer')
        if off >= 1 << (self.W - 1):
            off -= 1 << self.W
        self.check_access(o, off, size, 'read')
        if o.hook is not None:
            o.hook(o, off, size)
        f = []
        end = off + size
        for co, (cs, cv) in o.ch.items():
            if co < end and off < co + cs:
                lo = max(off, co)
                hi = min(end, co + cs)
                f.append((lo - off, hi - lo, self.chunk_part(cv, cs, lo - co, hi - lo)))
        if o.raw is not None:
            # fill the gaps from the initial image
            f.sort(key=lambda x: x[0])
            g = []
            p = 0
            for x in f:
                if x[0] > p:
                    g.append((p, x[0]))
                p = x[0] + x[1]
            if p < size:
                g.append((p, size))
            for a, b in g:
                v = self.raw_read(o, off + a, b - a)
                if isinstance(v, Blob):
                    f.extend((a + q, s, w) for q, s, w in v.f)
                else:
                    f.append((a, b - a, v))
        if not f:
            return UNDEF
        if len(f) == 1 and f[0][0] == 0 and f[0][1] == size:
            return f[0][2]
        f.sort(key=lambda x: x[0])
        f = self.merge_ext(f)
        if len(f) == 1 and f[0][0] == 0 and f[0][1] == size:
            return f[0][2]
        return Blob(size, f)

    def merge_ext(self, f):
        """Adjacent slices of one value become the value again."""
        out = []
        for x in f:
            if out and isinstance(x[2], Ext) and isinstance(out[-1][2], Ext):
                p = out[-1]
                a, b = p[2], x[2]
                if p[0] + p[1] == x[0] and a.lo + a.n == b.lo and a.size == b.size and (a.v is b.v or a.v == b.v):
                    out[-1] = (p[0], p[1] + x[1], self.mk_ext(a.v, a.lo, a.n + b.n, a.size))
                    continue
            out.append(x)
        return out

    def store(self, o, off, size, v):
        if size == 0:
            return
        if not isinstance(off, int):
            off = self.res(off)
            if not isinstance(off, int):
                raise AnalysisError(f'symbolic offset {off} into {o}')
        if off >= 1 << (self.W - 1):
            off -= 1 << self.W
        ch = o.ch
        if o.kind != 'local':
            if o.kind == 'dangling':
                raise AnalysisError('write through a dangling pointer')
            self.check_access(o, off, size, 'write')
            if o.kind in ('rw', 'rx', 'fn', 'code'):
                self.ev('write', o, off, size, v)
        c = ch.get(off)
        if c is not None and c[0] == size:
            if not isinstance(v, (Blob, Undef)):
                ch[off] = (size, v)
                return
            del ch[off]
        elif ch:
            end = off + size
            hit = [(co, cs, cv) for co, (cs, cv) in ch.items() if co < end and off < co + cs]
            for co, cs, cv in hit:
                del ch[co]
                if co < off:
                    ch[co] = (off - co, self.chunk_part(cv, cs, 0, off - co))
                if co + cs > end:
                    ch[end] = (co + cs - end, self.chunk_part(cv, cs, end - co, co + cs - end))
        if isinstance(v, Blob):
            for q, s, w in v.f:
                if q < size:
                    ch[off + q] = (s, w)
        elif v is not UNDEF:
            ch[off] = (size, v)

    def alloc_ptr(self, aid, off=0):
        o = self.alloc_objs.get(aid)
        if o is None:
            a = self.allocs[aid]
            if 'fn' in a:
                o = self.fn_obj(a['fn'])
            elif 'vt_ty' in a:
                o = self.vt_obj(a['vt_ty'], a.get('drop'))
            elif 'static' in a:
                o = self.new_obj('static', a['static'], self.tsz[a['ty']] if 'ty' in a else None, 1, a)
                self.init_static(o, a)
                if self.on_static:
                    self.on_static(self, o, a)
            elif 'mem' in a:
                raw = bytes.fromhex(a['mem'])
                o = self.new_obj('const', aid, len(raw), a.get('align', 1), a)
                o.raw = raw
                o.rel = {r[0]: r[1] for r in a.get('rel', [])}
            else:
                o = self.new_obj('typeid', aid)
            self.alloc_objs[aid] = o
        return Ptr(o, off)

    def init_static(self, o, a):
        i = a.get('init')
        if i:
            o.align = max(o.align or 1, i.get('align', 1))
            o.raw = bytes.fromhex(i['mem'])
            o.rel = {r[0]: r[1] for r in i.get('rel', [])}
            o.size = len(o.raw)

    def fn_obj(self, inst):
        o = self.fn_objs.get(inst)
        if o is None:
            o = self.fn_objs[inst] = self.new_obj('fn', inst, None, 1, inst)
            if self.scn is not None:
                self.scn.setup_fn(self, o)
        return o

    def vt_obj(self, ty, drop):
        o = self.vt_objs.get(ty)
        if o is None:
            o = self.vt_objs[ty] = self.new_obj('vt', self.types[ty]['name'], None, 8, (ty, drop))
        return o

    # ---------------------------------------------------------------- numbers
    def num(self, v, size):
        """Value as a number of 8*size bits."""
        if isinstance(v, int):
            return v
        if isinstance(v, Lin):
            return self.res(v)
        if isinstance(v, Ptr):
            return self.res(self.addr(v))
        if isinstance(v, Blob):
            if len(v.f) == 1 and v.f[0][0] == 0 and v.f[0][1] == size:
                return self.num(v.f[0][2], size)
            r = 0
            p = 0
            w = 8 * size
            for q, s, x in sorted(v.f, key=lambda y: y[0]):
                if q != p:
                    raise AnalysisError('use of uninitialised bytes')
                r = add(w, r, shl(w, zext(self.num(x, s), w), 8 * q))
                p = q + s
            if p != size:
                raise AnalysisError('use of uninitialised bytes')
            return r
        if isinstance(v, Ext):
            return uf(8 * size, 'bytes', v.v if not isinstance(v.v, Opaque) else id(v.v), v.lo)
        if isinstance(v, Opaque):
            return uf(8 * size, 'opaque', id(v))
        if v is UNDEF:
            raise AnalysisError('use of an uninitialised value')
        raise AnalysisError(f'not a number: {v}')

    def assume_bits(self, a, val, w):
        """Record a == val for a bitwise-representable a."""
        bits = to_bits(a, w)
        if bits is None:
            return
        acc = {}
        for i, b in enumerate(bits):
            if isinstance(b, tuple):
                acc.setdefault(b[0], {})[b[1]] = (val >> i) & 1
        for at, m in acc.items():
            if len(m) == nbits(at):
                self.env[at] = sum(x << i for i, x in m.items())

    def eq(self, a, b, w):
        a, b = self.res(a), self.res(b)
        d = sub(w, a, b)
        if isinstance(d, int):
            return d == 0
        if never_zero(d):
            return False
        x, y = (a, b) if isinstance(b, int) else (b, a)
        if isinstance(y, int):
            bits = to_bits(x, w)
            if bits is not None and any(q != ((y >> i) & 1) for i, q in enumerate(bits) if not isinstance(q, tuple)):
                return False
            # the same unknown bit at positions of y that differ
            if bits is not None:
                seen = {}
                for i, q in enumerate(bits):
                    if isinstance(q, tuple) and seen.setdefault(q, (y >> i) & 1) != (y >> i) & 1:
                        return False
        nd = sub(w, 0, d)
        key = ('eq', min((d, nd), key=repr))
        if key in self.facts:
            return self.facts[key]
        if self.scn is not None:
            r = self.scn.decide_eq(self, a, b, w)
            if r is not None:
                self.facts[key] = r
                return r
        r = self.choose(2, ('eq', a, b)) == 0
        self.facts[key] = r
        if len(d.t) == 1 and nbits(d.t[0][0]) == 1:
            at, k = d.t[0]
            vals = [q for q in (0, 1) if (d.c + k * q) % (1 << w) == 0]
            if vals:
                self.env[at] = vals[0] if r else 1 - vals[0]
        elif r and isinstance(y, int):
            self.assume_bits(x, y, w)
        return r

    def lt(self, a, b, w, signed):
        a, b = self.res(a), self.res(b)
        if isinstance(a, int) and isinstance(b, int):
            if signed:
                h = 1 << (w - 1)
                return (a ^ h) < (b ^ h)
            return a < b
        if a == b:
            return False
        f = signed_range if signed else unsigned_range
        def rng(x):
            if isinstance(x, int):
                if signed and x >> (w - 1):
                    x -= 1 << w
                return x, x
            return f(x)
        ra, rb = rng(a), rng(b)
        if ra and rb:
            if ra[1] < rb[0]:
                return True
            if ra[0] >= rb[1]:
                return False
            d = lin(w, sub(w, b, a))
            lo, hi = math_range(d)
            # both operands are wrap-free, so the difference is exact when its interval is
            if hi - lo < 1 << w:
                L, H = rb[0] - ra[1], rb[1] - ra[0]
                for s in (0, 1 << w, -(1 << w)):
                    if L <= lo + s and hi + s <= H:
                        if lo + s > 0:
                            return True
                        if hi + s <= 0:
                            return False
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        ra, rb = ra or full, rb or full
        if ra[1] < rb[0]:
            return True
        if ra[0] >= rb[1]:
            return False
        key = ('lt', signed, a, b)
        if key in self.facts:
            return self.facts[key]
        r = None
        if self.scn is not None:
            r = self.scn.decide_lt(self, a, b, w, signed)
        if r is None:
            r = self.choose(2, ('lt', a, b)) == 0
        self.facts[key] = r
        return r

    # ---------------------------------------------------------------- compile
    def body(self, inst):
        b = self.bodies.get(inst)
        if b is None:
            jb = self.insts[inst]['body']
            b = Body()
            b.inst = inst
            b.locals = jb['locals']
            b.argc = jb['argc']
            b.spread = jb.get('spread')
            b.blocks = jb['blocks']
            b.comp = [None] * len(b.blocks)
            self.bodies[inst] = b
        return b

    def c_place(self, body, pl):
        """Compile a place to (local, off0, steps, ty)."""
        l, projs = pl
        ty = body.locals[l]
        off0 = 0
        steps = []
        variant = None
        for p in projs:
            k = p[0]
            if k == 'f':
                t = self.types[ty]
                if t['k'] in ('adt', 'tuple', 'closure'):
                    off, fty = self.field(ty, variant, p[1])
                else:
                    raise AnalysisError(f'field projection on {t["name"]}')
                # a field of an unsized tail may need run-time alignment
                if self.unsized(fty) and self.types[fty]['k'] == 'dyn' or (self.unsized(ty) and self.types[fty].get('layout') is None):
                    steps.append(('dynf', off))
                elif steps:
                    if steps[-1][0] == 'f':
                        steps[-1] = ('f', steps[-1][1] + off)
                    else:
                        steps.append(('f', off))
                else:
                    off0 += off
                ty = p[2] if len(p) > 2 else fty
                variant = None
            elif k == '*':
                t = self.types[ty]
                to = t.get('to')
                if to is None:
                    raise AnalysisError(f'deref of {t["name"]}')
                steps.append(('*', self.unsized(to)))
                ty = to
                variant = None
            elif k == 'd':
                variant = p[1]
            elif k == 'i':
                t = self.types[ty]
                e = t['elem']
                steps.append(('i', p[1], self.size(e)))
                ty = e
            elif k == 'ci':
                t = self.types[ty]
                e = t['elem']
                n = t.get('len') if t['k'] == 'array' else None
                steps.append(('ci', p[1], p[3], self.size(e), n))
                ty = e
            elif k == 'ss':
                t = self.types[ty]
                n = t.get('len') if t['k'] == 'array' else None
                if t['k'] == 'array':
                    raise AnalysisError('array subslice')
                steps.append(('ss', p[1], p[2], p[3], self.size(t['elem']), n))
            elif k == 'c':
                ty = p[1]
            elif k == 'pd':
                pass
            else:
                raise AnalysisError(f'projection {p}')
        return (l, off0, tuple(steps), ty)

    def place(self, fr, pl):
        l, off, steps, ty = pl
        o = fr.loc[l]
        if not steps:
            return o, off, None
        P = self.P
        meta = None
        for s in steps:
            k = s[0]
            if k == 'f':
                off = off + s[1] if isinstance(off, int) else add(self.W, off, s[1])
            elif k == '*':
                p = self.load(o, off, P)
                if s[1]:
                    meta = self.load(o, off + P, P)
                else:
                    meta = None
                o, off = self.deref(p)
            elif k == 'i':
                i = self.num(self.load(fr.loc[s[1]], 0, P), P)
                off = add(self.W, off, mulc(self.W, i, s[2]))
            elif k == 'ci':
                if s[2]:
                    n = s[4] if s[4] is not None else self.num(meta, P)
                    i = sub(self.W, n, s[1])
                else:
                    i = s[1]
                off = add(self.W, off, mulc(self.W, i, s[3]))
            elif k == 'ss':
                a, b, fe = s[1], s[2], s[3]
                n = self.num(meta, P)
                end = sub(self.W, n, b) if fe else b
                off = add(self.W, off, mulc(self.W, a, s[4]))
                meta = sub(self.W, end, a)
            elif k == 'dynf':
                al = 1
                if isinstance(meta, Ptr) and meta.obj.kind == 'vt':
                    al = self.types[meta.obj.info[0]]['layout']['align']
                off = off + ((s[1] + al - 1) // al * al)
        return o, off, meta

    def deref(self, p):
        if isinstance(p, Ptr):
            return p.obj, p.off
        if isinstance(p, Lin):
            q = self.to_ptr(p)
            if q is not None:
                return q.obj, q.off
            raise AnalysisError(f'dereference of unresolved address {p}')
        if isinstance(p, int):
            return self.dang, 0
        if isinstance(p, Blob) and p.f and p.f[0][0] == 0 and p.f[0][1] == self.P:
            return self.deref(p.f[0][2])
        raise AnalysisError(f'dereference of {p}')

    def c_operand(self, body, op):
        for k in ('cp', 'mv'):
            if k in op:
                pl = self.c_place(body, op[k])
                sz = self.size(pl[3])
                if not pl[2]:
                    l, off = pl[0], pl[1]
                    return lambda m, fr: m.load(fr.loc[l], off, sz), pl[3]
                def f(m, fr, pl=pl, sz=sz):
                    o, off, _ = m.place(fr, pl)
                    return m.load(o, off, sz)
                return f, pl[3]
        if 'rc' in op:
            bty = next((i for i, t in enumerate(self.types) if t['k'] == 'bool'), None)
            return (lambda m, fr: 0), bty
        ty = op['c']
        if 'fn' in op or op.get('z'):
            return (lambda m, fr: Blob(0, [])), ty
        if 's' in op:
            s = op['s']
            if 'i' in s:
                v = int(s['i'])
                return (lambda m, fr: v), ty
            a, off = s['p'], s.get('off', 0)
            return (lambda m, fr: m.alloc_ptr(a, off)), ty
        if 'sl' in op:
            a, n = op['sl'], op['meta']
            P = self.P
            return (lambda m, fr: Blob(2 * P, [(0, P, m.alloc_ptr(a, 0)), (P, P, n)])), ty
        if 'ind' in op:
            a, off = op['ind'], op.get('off', 0)
            sz = self.size(ty)
            def f(m, fr):
                p = m.alloc_ptr(a, off)
                return m.load(p.obj, p.off, sz)
            return f, ty
        raise AnalysisError(f'constant operand {op}')

    def int_info(self, ty):
        """(size, signed) of a scalar-ish type."""
        t = self.types[ty]
        k = t['k']
        return self.size(ty), bool(t.get('signed')) if k == 'int' else False

    def c_rvalue(self, body, rv, dty):
        k = rv[0]
        W = self.W
        P = self.P
        if k == 'use':
            return self.c_operand(body, rv[1])[0]
        if k in ('ref', 'reborrow', 'addr'):
            pl = self.c_place(body, rv[1])
            if self.unsized(pl[3]):
                def f(m, fr):
                    o, off, meta = m.place(fr, pl)
                    return Blob(2 * P, [(0, P, m.mkptr(o, off)), (P, P, meta)])
                return f
            def f(m, fr):
                o, off, meta = m.place(fr, pl)
                return m.mkptr(o, off)
            return f
        if k == 'cast':
            return self.c_cast(body, rv)
        if k == 'bin':
            return self.c_bin(body, rv, dty)
        if k == 'un':
            op = rv[1]
            f, ty = self.c_operand(body, rv[2])
            sz, sg = (None, None)
            if op == 'PtrMetadata':
                def g(m, fr):
                    v = f(m, fr)
                    if isinstance(v, Blob):
                        for q, s, x in v.f:
                            if q == P:
                                return x
                    return Blob(0, [])
                return g
            sz, sg = self.int_info(ty)
            w = sz * 8
            if op == 'Not':
                if self.types[ty]['k'] == 'bool':
                    return lambda m, fr: m.bnot(f(m, fr))
                return lambda m, fr: sub(w, (1 << w) - 1, m.num(f(m, fr), sz))
            if op == 'Neg':
                return lambda m, fr: sub(w, 0, m.num(f(m, fr), sz))
            raise AnalysisError(f'unary {op}')
        if k == 'discr':
            pl = self.c_place(body, rv[1])
            return self.c_discr(pl)
        if k == 'agg':
            return self.c_agg(body, rv, dty)
        if k == 'rep':
            f, ty = self.c_operand(body, rv[1])
            n = rv[2]
            sz = self.size(ty)
            def g(m, fr):
                v = f(m, fr)
                if sz * n == 0:
                    return Blob(0, [])
                if isinstance(v, int):
                    r = 0
                    for i in range(n):
                        r |= v << (8 * sz * i)
                    return r
                return Blob(sz * n, [(i * sz + q, s, x) for i in range(n) for q, s, x in
                                     (v.f if isinstance(v, Blob) else [(0, sz, v)])])
            return g
        if k == 'tls':
            path = rv[1]
            def g(m, fr):
                o = m.alloc_objs.get(('tls', path))
                if o is None:
                    o = m.alloc_objs[('tls', path)] = m.new_obj('tls', path, None, 16)
                    m.init_static(o, rv[2])
                return Ptr(o, 0)
            return g
        raise AnalysisError(f'rvalue {k}')

    def mkptr(self, o, off):
        if o.kind == 'dangling':
            return 16
        return Ptr(o, off)

    def bnot(self, v):
        v = self.num(v, 1)
        if isinstance(v, int):
            return v ^ 1
        return sub(8, 1, v)

    def truth(self, v):
        """Decide a boolean."""
        v = self.num(v, 1)
        if isinstance(v, int):
            return bool(v)
        return not self.eq(v, 0, 8)

    def c_cast(self, body, rv):
        _, kind, op, fty, tty, extra = rv
        extra = extra or {}
        f, oty = self.c_operand(body, op)
        P = self.P
        ts = self.size(tty)
        fs = self.size(fty)
        if kind in ('Transmute', 'Subtype', 'BoxDerefTransmute') or (ts == fs and kind.endswith('Transmute')):
            return f
        ft = self.types[fty]
        if kind == 'IntToInt':
            sg = bool(ft.get('signed'))
            def g(m, fr):
                v = m.num(f(m, fr), fs)
                if ts == fs:
                    return v
                if ts < fs:
                    return trunc(v, ts * 8)
                return sext(v, fs * 8, ts * 8) if sg else zext(v, ts * 8)
            return g
        if kind in ('PtrToPtr', 'FnPtrToPtr') or kind.endswith('MutToConstPointer)') or 'UnsafeFnPointer' in kind or 'ArrayToPointer' in kind:
            if ts < fs:
                def g(m, fr):
                    v = f(m, fr)
                    if isinstance(v, Blob):
                        return v.f[0][2]
                    return v
                return g
            return f
        if kind in ('PointerExposeProvenance', 'PointerExposeAddress'):
            return lambda m, fr: m.num(f(m, fr), P)
        if kind in ('PointerWithExposedProvenance', 'PointerFromExposedAddress'):
            def g(m, fr):
                v = f(m, fr)
                p = m.to_ptr(v)
                return p if p is not None else v
            return g
        if 'reify' in extra:
            i = extra['reify']
            return lambda m, fr: Ptr(m.fn_obj(i), 0)
        if 'len' in extra:
            n = extra['len']
            return lambda m, fr: Blob(2 * P, [(0, P, m.thin(f(m, fr))), (P, P, n)])
        if 'vt_ty' in extra:
            ty, drop = extra['vt_ty'], extra.get('drop')
            return lambda m, fr: Blob(2 * P, [(0, P, m.thin(f(m, fr))), (P, P, Ptr(m.vt_obj(ty, drop), 0))])
        if extra.get('upcast'):
            return f
        raise AnalysisError(f'cast {kind} {extra}')

    def thin(self, v):
        if isinstance(v, Blob):
            return v.f[0][2]
        return v

    def c_bin(self, body, rv, dty):
        op = rv[1]
        fa, ta = self.c_operand(body, rv[2])
        fb, tb = self.c_operand(body, rv[3])
        P, W = self.P, self.W
        t = self.types[ta]
        sz = self.size(ta)
        sg = bool(t.get('signed')) if t['k'] == 'int' else False
        w = 8 * sz
        bsz = self.size(tb)
        base = op
        if op == 'Offset':
            es = self.size(t['to'])
            def g(m, fr):
                a, b = fa(m, fr), m.num(fb(m, fr), P)
                d = mulc(W, b, es)
                if isinstance(a, Ptr):
                    return Ptr(a.obj, add(W, a.off, d))
                return add(W, m.num(a, P), d)
            return g
        over = False
        if op.endswith('WithOverflow'):
            over = True
            base = op[:-len('WithOverflow')]
        elif op.endswith('Unchecked'):
            base = op[:-len('Unchecked')]
        if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
            fat = sz == 2 * P and t['k'] in ('ptr', 'ref')
            def cmpf(m, fr):
                a, b = fa(m, fr), fb(m, fr)
                if fat:
                    a, b = m.thin(a), m.thin(b)
                if base in ('Eq', 'Ne'):
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                        r = m.eq(a.off, b.off, W)
                    elif sz == 0:
                        r = True
                    elif fat:
                        r = m.eq(m.num(a, P), m.num(b, P), W)
                    else:
                        r = m.eq(m.num(a, sz), m.num(b, sz), w)
                    return int(r if base == 'Eq' else not r)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                    a, b = a.off, b.off
                else:
                    a, b = m.num(a, sz), m.num(b, sz)
                if base == 'Lt':
                    return int(m.lt(a, b, w, sg))
                if base == 'Gt':
                    return int(m.lt(b, a, w, sg))
                if base == 'Le':
                    return int(not m.lt(b, a, w, sg))
                if base == 'Ge':
                    return int(not m.lt(a, b, w, sg))
                if m.lt(a, b, w, sg):
                    return 0xff
                return 0 if m.eq(a, b, w) else 1
            return cmpf
        arith = self.arith(base, w, sg, bsz)
        if not over:
            return lambda m, fr: arith(m, m.num(fa(m, fr), sz), m.num(fb(m, fr), bsz))
        def g(m, fr):
            a, b = m.num(fa(m, fr), sz), m.num(fb(m, fr), bsz)
            r = arith(m, a, b)
            ov = m.overflow(base, a, b, r, w, sg)
            (o0, _), (o1, _) = m.field(dty, 0, 0), m.field(dty, 0, 1)
            return Blob(m.size(dty), [(o0, sz, r), (o1, 1, int(ov))])
        return g

    def overflow(self, op, a, b, r, w, sg):
        def rg(x):
            if isinstance(x, int):
                if sg and x >> (w - 1):
                    x -= 1 << w
                return x, x
            return signed_range(x) if sg else unsigned_range(x)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
        ra, rb = rg(a), rg(b)
        if ra and rb:
            if op == 'Add':
                L, H = ra[0] + rb[0], ra[1] + rb[1]
            elif op == 'Sub':
                L, H = ra[0] - rb[1], ra[1] - rb[0]
            else:
                p = [x * y for x in ra for y in rb]
                L, H = min(p), max(p)
            if lo <= L and H <= hi:
                return False
            if L > hi or H < lo:
                return True
        if not sg and op == 'Sub':
            return self.lt(a, b, w, False)
        return self.choose(2, ('overflow', op, a, b)) == 1

    def arith(self, op, w, sg, bsz):
        if op == 'Add':
            return lambda m, a, b: add(w, a, b)
        if op == 'Sub':
            return lambda m, a, b: sub(w, a, b)
        if op == 'Mul':
            def f(m, a, b):
                if isinstance(b, int):
                    return mulc(w, a, b)
                if isinstance(a, int):
                    return mulc(w, b, a)
                return uf(w, 'mul', a, b)
            return f
        if op == 'BitAnd':
            return lambda m, a, b: band(w, a, b)
        if op == 'BitOr':
            return lambda m, a, b: bor(w, a, b)
        if op == 'BitXor':
            return lambda m, a, b: bxor(w, a, b)
        if op in ('Shl', 'Shr'):
            def f(m, a, b):
                if not isinstance(b, int):
                    if isinstance(a, int) and a == 0:
                        return 0
                    return uf(w, op, a, b)
                if bsz * 8 > 0 and b >> (bsz * 8 - 1):
                    pass
                b &= w - 1
                return shl(w, a, b) if op == 'Shl' else shr(w, a, b, sg)
            return f
        if op in ('Div', 'Rem'):
            def f(m, a, b):
                if isinstance(a, int) and isinstance(b, int):
                    if b == 0:
                        raise Unwind('division by zero')
                    if sg:
                        h = 1 << (w - 1)
                        a = a - 2 * h if a >= h else a
                        b = b - 2 * h if b >= h else b
                        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                        return (q if op == 'Div' else a - q * b) & ((1 << w) - 1)
                    return a // b if op == 'Div' else a % b
                if isinstance(b, int) and b and b & (b - 1) == 0 and not sg:
                    return shr(w, a, b.bit_length() - 1, False) if op == 'Div' else band(w, a, b - 1)
                return uf(w, op, a, b)
            return f
        raise AnalysisError(f'binary {op}')

    # ---- enums
    def c_discr(self, pl):
        ty = pl[3]
        t = self.types[ty]
        if t['k'] != 'adt' or t['adt'] != 'enum':
            return lambda m, fr: 0
        return lambda m, fr: m.get_discr(ty, *m.place(fr, pl)[:2])

    def get_discr(self, ty, o, off):
        t = self.types[ty]
        lay = t['layout']
        v = lay['v']
        dsz = self.size(t['discr_ty'])
        mask = (1 << (8 * dsz)) - 1
        vs = t['variants']
        if v['k'] == 'single':
            return int(vs[v['index']]['discr']) & mask
        if v['k'] == 'empty':
            raise AnalysisError('discriminant of an uninhabited enum')
        tv = self.load(o, off + v['tag_off'], v['tag_size'])
        if tv is UNDEF:
            raise AnalysisError(f'discriminant of uninitialised {t["name"]}')
        if v['enc'] == 'direct':
            x = self.num(tv, v['tag_size'])
            tt = self.types[t['discr_ty']]
            if v['tag_size'] < dsz:
                return sext(x, 8 * v['tag_size'], 8 * dsz) if tt.get('signed') else zext(x, 8 * dsz)
            return trunc(x, 8 * dsz)
        e = v
        unt = e['untagged']
        w = 8 * v['tag_size']
        n = e['nv_end'] - e['nv_start']
        if isinstance(tv, (Ext, Opaque)):
            return int(vs[unt]['discr']) & mask
        x = self.num(tv, v['tag_size'])
        ns = int(e['niche_start'])
        if isinstance(x, int):
            r = (x - ns) % (1 << w)
            i = e['nv_start'] + r if r <= n else unt
            return int(vs[i]['discr']) & mask
        for r in range(n + 1):
            if e['nv_start'] + r == unt:
                continue
            if self.eq(x, (ns + r) % (1 << w), w):
                return int(vs[e['nv_start'] + r]['discr']) & mask
        return int(vs[unt]['discr']) & mask

    def set_discr(self, ty, variant, o, off):
        t = self.types[ty]
        v = t['layout']['v']
        if v['k'] != 'multi':
            return
        w = 8 * v['tag_size']
        if v['enc'] == 'direct':
            self.store(o, off + v['tag_off'], v['tag_size'], int(t['variants'][variant]['discr']) & ((1 << w) - 1))
        elif variant != v['untagged']:
            self.store(o, off + v['tag_off'], v['tag_size'], (int(v['niche_start']) + variant - v['nv_start']) % (1 << w))

    def make_enum(self, ty, variant, fields=()):
        """Build an enum value: variant given by name or index, field values in order."""
        t = self.types[ty]
        if isinstance(variant, str):
            variant = next(i for i, v in enumerate(t['variants']) if v['name'] == variant)
        o = self.new_obj('local', 'tmp', self.size(ty))
        for i, x in enumerate(fields):
            off, fty = self.field(ty, variant, i)
            self.store(o, off, self.size(fty), x)
        self.set_discr(ty, variant, o, 0)
        return self.load(o, 0, self.size(ty)) if self.size(ty) else Blob(0, [])

    def make_struct(self, ty, fields):
        o = self.new_obj('local', 'tmp', self.size(ty))
        for i, x in enumerate(fields):
            off, fty = self.field(ty, 0, i)
            self.store(o, off, self.size(fty), x)
        return self.load(o, 0, self.size(ty)) if self.size(ty) else Blob(0, [])

    def c_agg(self, body, rv, dty):
        kind = rv[1]
        ops = [self.c_operand(body, x) for x in rv[2]]
        sz = self.size(dty)
        P = self.P
        t = self.types[dty]
        if kind[0] == 'rawptr':
            def f(m, fr):
                a = ops[0][0](m, fr)
                b = ops[1][0](m, fr)
                if isinstance(b, Blob) and b.size == 0:
                    return a
                return Blob(2 * P, [(0, P, m.thin(a)), (P, P, b)])
            return f
        variant = 0
        only = None
        if kind[0] == 'adt':
            variant = kind[1]
            if len(kind) > 2 and kind[2] is not None:
                only = kind[2]
        if kind[0] == 'array':
            es = self.size(t['elem'])
            offs = [i * es for i in range(len(ops))]
        elif only is not None:
            offs = [0]
        else:
            offs = [self.field(dty, variant, i)[0] for i in range(len(ops))]
        szs = [self.size(x[1]) for x in ops]
        is_enum = t['k'] == 'adt' and t['adt'] == 'enum'
        def f(m, fr):
            out = []
            for (g, _), off, s in zip(ops, offs, szs):
                if s == 0:
                    continue
                v = g(m, fr)
                if isinstance(v, Blob):
                    out.extend((off + q, n, x) for q, n, x in v.f)
                elif v is not UNDEF:
                    out.append((off, s, v))
            if is_enum:
                o = m.new_obj('local', 'tmp', sz)
                for q, n, x in out:
                    o.ch[q] = (n, x)
                m.set_discr(dty, variant, o, 0)
                out = [(q, n, x) for q, (n, x) in o.ch.items()]
            if len(out) == 1 and out[0][0] == 0 and out[0][1] == sz:
                return out[0][2]
            return Blob(sz, out)
        return f

    # ---- statements and terminators
    def compile_block(self, body, i):
        b = body.blocks[i]
        ss = []
        for s in b['s']:
            k = s[0]
            if k == '=':
                pl = self.c_place(body, s[1])
                if self.unsized(pl[3]):
                    raise AnalysisError('assignment to unsized place')
                sz = self.size(pl[3])
                f = self.c_rvalue(body, s[2], pl[3])
                if sz == 0:
                    if s[2][0] in ('use', 'agg', 'cast'):
                        continue
                if not pl[2]:
                    def g(m, fr, l=pl[0], off=pl[1], sz=sz, f=f):
                        m.store(fr.loc[l], off, sz, f(m, fr))
                else:
                    def g(m, fr, pl=pl, sz=sz, f=f):
                        v = f(m, fr)
                        o, off, _ = m.place(fr, pl)
                        m.store(o, off, sz, v)
                ss.append(g)
            elif k == 'sd':
                pl = self.c_place(body, s[1])
                ss.append(lambda m, fr, pl=pl, v=s[2]: m.set_discr(pl[3], v, *m.place(fr, pl)[:2]))
            elif k == 'cno':
                a, b_, n = (self.c_operand(body, x)[0] for x in s[1:4])
                es = self.size(s[4])
                ss.append(lambda m, fr, a=a, b=b_, n=n, es=es: m.copy(a(m, fr), b(m, fr), m.num(n(m, fr), m.P), es))
            elif k == 'assume':
                f = self.c_operand(body, s[1])[0]
                def g(m, fr, f=f):
                    v = m.num(f(m, fr), 1)
                    if isinstance(v, int) and v == 0:
                        m.ev('ub', 'violated assumption')
                ss.append(g)
            elif k in ('live', 'dead'):
                if k == 'dead':
                    pass
            else:
                raise AnalysisError(f'statement {k}')
        t = self.c_term(body, b['t'])
        return ss, t

    def copy(self, src, dst, n, es):
        total = mulc(self.W, n, es)
        if not isinstance(total, int):
            raise AnalysisError(f'copy of symbolic size {total}')
        if total == 0:
            return
        so, soff = self.deref(src)
        do, doff = self.deref(dst)
        v = self.load(so, soff, total)
        self.store(do, doff, total, v)

    def c_term(self, body, t):
        k = t['k']
        if k == 'goto':
            n = t['t']
            return lambda m, fr: n
        if k == 'ret':
            return lambda m, fr: -1
        if k == 'switch':
            f, ty = self.c_operand(body, t['d'])
            sz = self.size(ty)
            br = {int(v): b for v, b in t['br']}
            o = t['o']
            w = sz * 8
            def g(m, fr):
                v = m.num(f(m, fr), sz)
                if isinstance(v, int):
                    return br.get(v, o)
                return m.switch(v, br, o, w)
            return g
        if k == 'drop':
            return self.c_drop(body, t)
        if k == 'call':
            return self.c_call(body, t)
        if k == 'assert':
            f, _ = self.c_operand(body, t['c'])
            e = bool(t['e'])
            n = t['t']
            u = t['u']
            msg = t.get('m')
            def g(m, fr):
                if m.truth(f(m, fr)) == e:
                    return n
                return m.unwound(Unwind(f'assert {msg}'), u)
            return g
        if k == 'resume':
            def g(m, fr):
                raise m.cur_unwind
            return g
        if k == 'unreachable':
            def g(m, fr):
                m.ev('ub', 'reached unreachable code')
                raise PathEnd('unreachable')
            return g
        if k == 'abort':
            def g(m, fr):
                m.ev('abort', 'terminate')
                raise PathEnd('abort')
            return g
        if k == 'asm':
            return self.c_asm(body, t)
        if k == 'tailcall':
            t2 = dict(t)
            t2['d'] = [0, []]
            t2['t'] = None
            t2['u'] = 'continue'
            f = self.c_call(body, t2)
            def g(m, fr):
                f(m, fr)
                return -1
            return g
        raise AnalysisError(f'terminator {k}')

    def switch(self, v, br, o, w):
        if self.scn is not None:
            r = self.scn.decide_switch(self, v, br, w)
            if r is not None:
                return br.get(r, o)
        # a bitwise value: fork on each target
        for val, b in br.items():
            if self.eq(v, val, w):
                return b
        return o

    def unwound(self, e, u):
        if u == 'continue':
            raise e
        if u == 'unreachable':
            raise e
        if u == 'terminate':
            self.ev('abort', 'panic in a destructor during unwinding or in a nounwind function', getattr(e, 'why', None))
            raise PathEnd('abort')
        self.cur_unwind = e
        return u

    def c_drop(self, body, t):
        inst = t.get('inst')
        n, u = t['t'], t['u']
        if inst is None:
            return lambda m, fr: n
        pl = self.c_place(body, t['p'])
        fat = self.unsized(pl[3])
        P = self.P
        it = self.insts[inst]
        def g(m, fr):
            o, off, meta = m.place(fr, pl)
            p = m.mkptr(o, off)
            if fat:
                p = Blob(2 * P, [(0, P, p), (P, P, meta)])
            cu = getattr(m, 'cur_unwind', None)
            try:
                m.call(inst, [p], t)
            except Unwind as e:
                return m.unwound(e, u)
            m.cur_unwind = cu
            return n
        return g

    def c_call(self, body, t):
        fop = t['f']
        n, u = t['t'], t['u']
        ops = [self.c_operand(body, x) for x in t['a']]
        d = self.c_place(body, t['d'])
        dsz = self.size(d[3]) if not self.types[d[3]]['k'] == 'never' else 0
        inst = fop.get('fn') if 'c' in fop else None
        fpath = fop.get('fnpath') or ''
        ff = None if inst is not None else self.c_operand(body, fop)[0]
        fty = t.get('fty')
        untuple = any(fpath.endswith(x) for x in RUST_CALL)
        fnptr_rc = False
        if inst is None and fty is not None:
            fnptr_rc = self.types[fty].get('abi') == 'rust-call'
        opty = [o[1] for o in ops]
        opf = [o[0] for o in ops]
        def g(m, fr):
            args = [f(m, fr) for f in opf]
            i = inst
            cu = getattr(m, 'cur_unwind', None)
            try:
                if i is None:
                    fv = ff(m, fr)
                    p = m.to_ptr(fv) if not isinstance(fv, Ptr) else fv
                    if p is None or p.obj.kind != 'fn' or p.off != 0:
                        r = m.call_unknown(fv, args, opty, fty, t)
                    else:
                        r = m.call_ptr(p.obj.info, args, t)
                else:
                    if untuple and args:
                        tt = opty[-1]
                        tv = args.pop()
                        for q, fty_ in enumerate(m.types[tt]['fields']):
                            args.append(m.part(tv, *m.field(tt, 0, q)))
                        r = m.call(i, args, t, rust_call=True, argtys=opty)
                    else:
                        r = m.call(i, args, t, argtys=opty)
            except Unwind as e:
                return m.unwound(e, u)
            m.cur_unwind = cu
            if n is None:
                raise AnalysisError(f'diverging call returned: {m.insts[i]["path"] if i is not None else "?"}')
            if dsz:
                o, off, _ = m.place(fr, d)
                m.store(o, off, dsz, r)
            return n
        return g

    def part(self, v, off, ty):
        sz = self.size(ty)
        if sz == 0:
            return Blob(0, [])
        o = self.new_obj('local', 'tmp', None)
        self.store(o, 0, v.size if isinstance(v, Blob) else 1 << 20, v) if isinstance(v, Blob) else None
        if not isinstance(v, Blob):
            if off == 0:
                return v if not isinstance(v, int) else v & ((1 << 8 * sz) - 1)
            return self.chunk_part(v, off + sz, off, sz)
        return self.load(o, off, sz)

    def call_unknown(self, fv, args, opty, fty, t):
        h = self.models.get('<fnptr>')
        if h:
            return h(self, fv, args, opty, fty, t)
        raise AnalysisError(f'call through unresolved pointer {fv}')

    def model_for(self, inst):
        m = self._model_cache.get(inst, 0)
        if m != 0:
            return m
        it = self.insts[inst]
        p = it['path']
        f = self.models.get(p)
        if f is None and it['kind'] == 'intrinsic':
            f = self.models.get('intrinsic:' + p.rsplit('::', 1)[-1])
        if f is None:
            for pre, g in self.prefix_models:
                if p.startswith(pre):
                    f = g
                    break
        self._model_cache[inst] = f
        return f

    def call(self, inst, args, term=None, rust_call=False, argtys=None):
        it = self.insts[inst]
        f = self.model_for(inst)
        if f is not None:
            return f(self, it, args, argtys)
        kind = it['kind']
        if kind == 'drop' or (kind.startswith('shim') and it.get('drop_ty') is not None):
            dt = it.get('drop_ty')
            if dt is None:
                return Blob(0, [])
            if self.nodrop and (self.types[dt].get('def') or '').startswith(self.nodrop):
                return Blob(0, [])
            if self.types[dt]['k'] == 'dyn':
                p = args[0]
                vt = next(x for q, s, x in p.f if q == self.P)
                if isinstance(vt, Ptr) and vt.obj.kind == 'vt':
                    ty, drop = vt.obj.info
                    if drop is not None:
                        self.call(drop, [p.f[0][2]])
                    return Blob(0, [])
                raise AnalysisError('drop of an unresolved trait object')
            if it.get('body') is None:
                return Blob(0, [])
        if kind.startswith('virtual'):
            if self.on_virtual:
                return self.on_virtual(self, it, args, argtys)
            raise AnalysisError(f'virtual call {it["path"]}')
        if it.get('body') is None:
            raise AnalysisError(f'no model for {it["path"]} ({kind})')
        return self.run(inst, args, rust_call)

    def call_ptr(self, inst, args, t=None):
        """Call through a function pointer to a known function."""
        b = self.body(inst) if self.insts[inst]['kind'].startswith('shim') and self.insts[inst].get('body') is not None else None
        if b is not None and b.spread == 2 and self.tsz[b.locals[1]] == 0:
            # a closure without captures as a function pointer
            return self.call(inst, [Blob(0, [])] + args, t, rust_call=True)
        return self.call(inst, args, t)

    def run(self, inst, args, rust_call=False):
        body = self.body(inst)
        self.fn_count.add(inst)
        fr = Frame()
        fr.body = body
        fr.inst = inst
        loc = fr.loc = []
        tsz = self.tsz
        for i, ty in enumerate(body.locals):
            loc.append(Obj('local', i, tsz[ty]))
        sp = body.spread
        if sp is not None:
            # the tail of the arguments is collected in a tuple
            tt = body.locals[sp]
            nf = len(self.types[tt]['fields'])
            fixed = sp - 1
            rest = args[fixed:]
            if not rust_call and len(rest) == 1 and nf != 1:
                pass
            elif rust_call:
                v = self.make_struct(tt, rest)
                args = args[:fixed] + [v]
        if len(args) != body.argc:
            raise AnalysisError(f'argument count mismatch calling {self.insts[inst]["path"]}: {len(args)} vs {body.argc} (spread {sp}, rust_call {rust_call})')
        for i, v in enumerate(args):
            s = tsz[body.locals[i + 1]]
            if s:
                self.store(loc[i + 1], 0, s, v)
        bb = 0
        self.depth += 1
        self.stack.append(inst)
        if self.depth > 400:
            raise AnalysisError('call depth')
        comp = body.comp
        try:
            while True:
                c = comp[bb]
                if c is None:
                    try:
                        c = comp[bb] = self.compile_block(body, bb)
                    except AnalysisError as e:
                        raise AnalysisError(f'{e} in {self.insts[inst]["path"]} bb{bb}') from None
                for s in c[0]:
                    s(self, fr)
                self.steps += len(c[0]) + 1
                if self.steps > self.max_steps:
                    raise StepLimit('step budget exceeded')
                bb = c[1](self, fr)
                if bb == -1:
                    break
        finally:
            self.depth -= 1
            self.stack.pop()
        rs = tsz[body.locals[0]]
        return self.load(loc[0], 0, rs) if rs else Blob(0, [])

    def c_asm(self, body, t):
        ops = []
        for o in t['ops']:
            ops.append(o)
        comp = {}
        def g(m, fr):
            h = m.models.get('<asm>')
            if h is None:
                raise AnalysisError('inline assembly')
            h(m, fr, body, t)
            tt = t['t']
            if not tt:
                raise PathEnd('asm noreturn')
            return tt[0] if isinstance(tt, list) else tt
        return g

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, max_paths=4000):
        """Run fn(machine) once per choice sequence; yields (result, machine) after each path."""
        todo = [[]]
        n = 0
        while todo:
            ch = todo.pop()
            n += 1
            if n > max_paths:
                raise AnalysisError(f'more than {max_paths} paths')
            self.begin(ch)
            try:
                r = ('ret', fn(self))
            except Unwind as e:
                r = ('unwind', e.why)
            except PathEnd as e:
                r = ('end', e.why)
            except AnalysisError as e:
                if not getattr(e, 'loc', None):
                    e.loc = ' <- '.join(self.insts[i]['path'] for i in reversed(self.stack[-6:]))
                raise
            self.total_steps += self.steps
            for i in range(len(ch), len(self.taken)):
                for alt in range(1, self.taken[i][1]):
                    todo.append([x[0] for x in self.taken[:i]] + [alt])
            yield r
        self.paths = n


def run_big(f, *a):
    """Run f on a thread with a large stack (deep recursion in the interpreter)."""
    out = []
    def g():
        try:
            out.append((True, f(*a)))
        except BaseException as e:
            out.append((False, e))
    threading.stack_size(512 << 20)
    t = threading.Thread(target=g)
    t.start()
    t.join()
    ok, v = out[0]
    if ok:
        return v
    raise v
