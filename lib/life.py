"""Life-cycle scenarios: client programs of the core witness over abstract templates."""
from values import *
from interp import *
import models, tmpl, build
from models import UNIT

JIT = 0x1111


def has(at, kind):
    """Is an unknown (or the one it is a part of) of a kind?"""
    i = at.info
    while i and i[0] == 'sub':
        i = i[1].info
    return bool(i) and i[0] == kind


class Scenario:
    """One abstract template (prologue instructions + the real asm block) and the choice of outcomes."""

    def __init__(self, arch, prologue=(), residue=0, regs=None, rx_res=0, rw_res=0, outcomes=True, unwinds=True, base_atom=None):
        self.arch, self.prologue, self.residue = arch, list(prologue), residue
        self.regs = regs
        self.rx_res, self.rw_res = rx_res, rw_res
        self.outcomes, self.unwinds = outcomes, unwinds
        self.templates = {}

    # -- template memory
    def setup_fn(self, m, o):
        it = m.insts[o.info]
        term = tmpl.find_asm(m, o.info)
        w = m.W
        lo, hi = ((1 << 32), (1 << 47)) if w == 64 else (0x10000, 0xC0000000)
        at = Atom(f'T{o.info}', lo >> 4, (hi >> 4) - 64, ('obj', o))
        thumb = 1 if self.arch == 'thumb' else 0
        m.set_base(o, mk(w, self.residue + thumb, {at: 16}))
        if term is None:
            return
        regs = self.regs or tmpl.REGS[self.arch][:tmpl.out_count(term)]
        regs = regs[:tmpl.out_count(term)]
        offs = [0]
        for ins in self.prologue:
            offs.append(offs[-1] + ins['size'])
        off = offs[-1]
        items = []
        for q, ins in zip(offs, self.prologue):
            if self.arch in ('x86_64', 'i686'):
                import x86
                ins = x86.place(m, m.base_of(o), ins, q, offs)
            elif 'to' in ins:
                import arm
                ins = arm.branch(self.arch, ins['kind'], offs[ins['to']] - q)
            items.append((q, ins['size'], ins))
        code, _ = tmpl.assemble(self.arch, term, regs, (self.residue + off) % 16)
        t = {'obj': o, 'items': items, 'block': off, 'code': code, 'end': off + len(code), 'bias': -thumb,
             'term': term, 'regs': regs}
        self.templates[o.info] = t
        consts = [int(x[1]['s']['i']) for x in term['ops'] if x[0] == 'const']
        self.magics = set(consts)
        if len(consts) == 2:
            self.magics.add(consts[0] | consts[1] << 64)
        def hook(obj, a, n):
            obj.hook = None
            for q, s, ins in items:
                obj.ch[q - thumb] = (s, ins['val'])
            obj.ch[off - thumb] = (len(code), int.from_bytes(code, 'little'))
            obj.ch[off - thumb + len(code)] = (64, Opaque('tail', None, 64))
        o.hook = hook
        o.kind = 'code'

    def tmpl_of(self, p):
        """(template, offset) for a pointer into template memory."""
        if isinstance(p, Ptr) and p.obj.kind == 'code' and p.obj.info in self.templates:
            t = self.templates[p.obj.info]
            return t, (p.off - t['bias']) % (1 << (64 if '64' in self.arch else 32)) if isinstance(p.off, int) else None
        return None, None

    # -- decisions the scenario fixes
    def decide_eq(self, m, a, b, w):
        # compiled code has no name for the assembly block, so no operand refers to it
        if isinstance(a, Lin) and isinstance(b, Lin) and all(any(has(at, 'obj') for at, k in x.t) for x in (a, b)) \
                and any(has(at, 'imm') or has(at, 'disp') for x in (a, b) for at, k in x.t):
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and isinstance(x, Lin):
                if w in (m.W, 128, 64) and y in self.magics:
                    return False
            if isinstance(x, Lin):
                for at, k in x.t:
                    if at.info and at.info[0] == 'uf' and at.info[1] in ('bytes', 'opaque'):
                        return False
                    if at.info and at.info[0] == 'disp':
                        return False
        return None

    def decide_lt(self, m, a, b, w, signed):
        return None

    def decide_switch(self, m, v, br, w):
        return None


# ------------------------------------------------------------------ spies
def jit_id(m, p):
    o, off = m.deref(p)
    return m.num(m.load(o, off, m.P), m.P)


def s_alloc(m, it, args, tys):
    jid = jit_id(m, args[0])
    size = m.num(args[1], m.P)
    s = m.scn
    n = 3 if s.unwinds else 2
    c = m.choose(n, 'alloc') if s.outcomes else 0
    if c == 1:
        m.ev('alloc', jid, size, None)
        return 0
    if c == 2:
        m.ev('alloc', jid, size, 'panic')
        raise Unwind('allocator panicked')
    k = sum(1 for e in m.events if e[0] == 'alloc')
    rx = m.new_obj('rx', k, size if isinstance(size, int) else None, 1)
    rw = m.new_obj('rw', k, size if isinstance(size, int) else None, 1)
    lo, hi = ((1 << 32), (1 << 47)) if m.W == 64 else (0x10000, 0xC0000000)
    m.set_base(rx, mk(m.W, s.rx_res, {Atom(f'RX{k}', lo >> 4, hi >> 4): 16}))
    m.set_base(rw, mk(m.W, s.rw_res, {Atom(f'RW{k}', lo >> 4, hi >> 4): 16}))
    rx.info = rw.info = {'jit': jid, 'size': size, 'rx': rx, 'rw': rw, 'n': k}
    m.ev('alloc', jid, size, rx)
    m.store(*m.deref(args[2]), m.P, Ptr(rx, 0))
    m.store(*m.deref(args[3]), m.P, Ptr(rw, 0))
    return 1


def s_release(m, it, args, tys):
    jid = jit_id(m, args[0])
    m.ev('release', jid, args[1])
    if m.scn.outcomes and m.choose(2, 'release') == 1:
        return 0
    return 1


def s_protect(m, it, args, tys):
    m.ev('protect', jit_id(m, args[0]), args[1], m.num(args[2], m.P), m.num(args[3], m.P))
    return UNIT


def s_flush(m, it, args, tys):
    m.ev('flush', jit_id(m, args[0]), args[1], m.num(args[2], m.P))
    return UNIT


def s_jit_drop(m, it, args, tys):
    m.ev('jit_drop', jit_id(m, args[0]))
    return UNIT


def s_cap_drop(m, it, args, tys):
    o, off = m.deref(args[0])
    v = m.load(o, off, 2 * m.P)
    parts = [m.num(m.load(o, off + i * m.P, m.P), m.P) for i in (0, 1)]
    m.ev('cap_drop', tuple(parts), o)
    if m.scn.unwinds and m.choose(2, 'destructor') == 1:
        m.ev('cap_panic')
        raise Unwind('destructor of a captured value panicked')
    return UNIT


def s_zcap_drop(m, it, args, tys):
    m.ev('cap_drop', 'z', None)
    return UNIT


def s_cap_new(m, it, args, tys):
    m.ev('cap_new')
    return UNIT


def s_mark(m, it, args, tys):
    m.ev('mark', m.num(args[0], m.P))
    return UNIT


def s_ptr(m, it, args, tys):
    p = args[1]
    m.ev('ptr', m.num(args[0], m.P), p if isinstance(p, Ptr) else (m.to_ptr(p) or p))
    return UNIT


SPIES = {'spy_alloc': s_alloc, 'spy_release': s_release, 'spy_protect': s_protect, 'spy_flush': s_flush,
         'spy_jit_drop': s_jit_drop, 'spy_cap_drop': s_cap_drop, 'spy_zcap_drop': s_zcap_drop, 'spy_cap_new': s_cap_new, 'spy_mark': s_mark,
         'spy_ptr': s_ptr}


def machine(cfg, src='core.rs', **kw):
    m = Machine(build.dump(cfg, src, **kw))
    models.install(m)
    for it in m.insts:
        n = it['path'].rsplit('::', 1)[-1]
        if n in SPIES and it.get('body') is None:
            m.models[it['path']] = SPIES[n]
    m.arch = cfg.split('/')[0]
    m.cfg = cfg
    if m.arch in ('x86_64', 'i686'):
        import x86
        x86.install(m)
    else:
        import arm
        arm.install(m)
    return m


def run_root(m, root, scn):
    """Yield (outcome, events) for every path of a root under a scenario."""
    inst = m.roots[root]
    def go(m):
        m.scn = scn() if callable(scn) else scn
        m.run(inst, [])
    for r in m.explore(go):
        yield r, m.events
