"""Life-cycle properties: event traces of client programs under every outcome of the allocator."""
import re
import framework, life, oracle, tmpl, x86, arm, isa, build
from interp import AnalysisError
from values import *

ARCHS = ['x86_64', 'i686', 'aarch64', 'armv7', 'thumb']
CONFIGS = [a + '/std' for a in ARCHS] + ['x86_64/nightly', 'x86_64/custom', 'x86_64/spin', 'x86_64/nosafe', 'aarch64/nosafe', 'thumb/nosafe']
BUILT, FAILED, DISPOSE, DONE = 1, 2, 3, 4


def prologue(arch, kind):
    """plain: nothing to relocate; moved: one instruction must be rewritten; refused: cannot be relocated."""
    if arch in ('x86_64', 'i686'):
        e = {n: i for n, c, i in x86.entries(arch)}
        if kind == 'plain':
            return [e['push rbp' if arch == 'x86_64' else 'push ebp'], e['sub rsp, 0x28' if arch == 'x86_64' else 'sub esp, 0x14']]
        if kind == 'moved':
            return [e['push rbp'], e['lea rax, [rip+imm]']] if arch == 'x86_64' else [e['push ebx'], e['call next'], e['pop ebx ']]
        return [e['ud2']]
    e = {n: i for n, c, i in arm.entries(arch)}
    if kind == 'plain':
        return e[next(n for n in e if n.startswith({'aarch64': 'sub sp', 'armv7': 'push', 'thumb': 'push'}[arch]))]
    if kind == 'moved':
        n = {'aarch64': 'ldr x3, lit', 'armv7': 'ldr r2, [pc, imm]', 'thumb': 'ldr.w r3, [pc, imm]'}[arch]
        return e[n] if n in e else e[next(k for k in e if k.startswith(n))]
    return e[next(n for n in e if n.startswith({'aarch64': 'bl ', 'armv7': 'bl ', 'thumb': 'bl '}[arch]))]


class Trace:
    """One path: what happened, split by the marks of the client program."""

    def __init__(self, m, root, res, ev):
        self.m, self.root, self.res, self.ev = m, root, res, ev
        self.name = root.rsplit('::', 1)[-1]
        st, self.stage = 0, []
        for e in ev:
            if e[0] == 'mark':
                st = e[1]
            self.stage.append(st)
        self.marks = [e[1] for e in ev if e[0] == 'mark']
        self.built = BUILT in self.marks
        self.leak = self.built and self.name.startswith(('root_l_', 'root_zl_'))
        self.zst = self.name.startswith('root_z')
        self.cap_panic = any(e[0] == 'cap_panic' for e in ev)

    def of(self, *kinds):
        return [(i, e) for i, e in enumerate(self.ev) if e[0] in kinds]

    def allocs(self):
        return [(i, e) for i, e in self.of('alloc') if e[3] not in (None, 'panic')]

    def refused(self):
        return [(i, e) for i, e in self.of('alloc') if e[3] in (None, 'panic')]


def where(t):
    return f'{t.m.cfg} {t.root}'


def outcome(t):
    o = [{None: 'allocation refused', 'panic': 'allocator panics'}.get(e[3], 'allocated') for i, e in t.of('alloc')]
    if t.cap_panic:
        o.append('captured destructor panics')
    return ', '.join(o) or 'no allocation'


# ------------------------------------------------------------------ C01
def c01(r, t):
    def bad(k, x):
        r.bad(f'{k}:{t.root}', f'{where(t)} [{outcome(t)}]: {x}')
    news = len(t.of('cap_new'))
    drops = t.of('cap_drop')
    for i, e in t.of('ub'):
        bad('memory', f'{e[1:]}')
    if t.res[0] not in ('ret', 'unwind'):
        bad('abort', f'ends with {t.res}')
    for i, e in drops:
        if e[1] != 'z' and e[1] != (0x2222, 0x3333):
            bad('value', f'the destroyed closure state is {e[1]}')
    if t.leak:
        if drops:
            bad('leak-drops', 'a leaked wrapper destroys its closure')
    elif len(drops) != news:
        bad('count', f'{news} closures were handed over and {len(drops)} destroyed')
    r.n('closures', news)
    r.n('destructions', len(drops))
    for i, e in drops:
        if t.built and not t.leak and t.stage[i] != DISPOSE:
            bad('early', 'the closure is destroyed before its wrapper is disposed of')
        if not t.built and t.stage[i] == FAILED:
            bad('late', 'the closure outlives the failed construction')
    if not t.cap_panic:
        alive = [e[1] for i, e in t.of('heap_alloc')]
        freed = [e[1] for i, e in t.of('heap_free')]
        for o in alive:
            n = sum(1 for x in freed if x is o)
            if not t.leak and n != 1:
                bad('storage', f'a heap block is freed {n} times')
        r.n('heap_blocks', len(alive))


# ------------------------------------------------------------------ C02
def c02(r, t):
    def bad(k, x):
        r.bad(f'{k}:{t.root}', f'{where(t)} [{outcome(t)}]: {x}')
    allocs, rels = t.allocs(), t.of('release')
    if t.zst:
        for i, e in t.of('alloc', 'release', 'protect', 'flush', 'write'):
            bad('zst', f'a zero-sized closure leads to {e[0]}')
    used = set()
    for i, e in rels:
        p = e[2]
        if not isinstance(p, Ptr) or p.obj.kind != 'rx':
            bad('address', f'releases {p}, which is not executable memory of an allocator')
            continue
        info = p.obj.info
        if p.off != 0:
            bad('address', f'releases the returned address {"plus" if isinstance(p.off, int) else "with"} {p.off}')
        if info['jit'] != e[1]:
            bad('allocator', 'a block is released to another allocator')
        if id(p.obj) in used:
            bad('twice', 'a block is released twice')
        used.add(id(p.obj))
        if t.leak:
            bad('leak', 'a leaked wrapper releases its block')
        if t.built and t.stage[i] != DISPOSE:
            bad('early', 'a block is released before its wrapper is disposed of')
        for j, d in t.of('jit_drop'):
            if j < i and d[1] == e[1]:
                bad('handle', 'the allocator handle is used after it was dropped')
    if not t.leak and (t.built or t.res[0] == 'ret'):
        for i, e in allocs:
            if id(e[3]) not in used:
                bad('never', 'a block is never released')
    r.n('blocks', len(allocs))
    r.n('releases', len(rels))


# ------------------------------------------------------------------ E01
def e01(r, t):
    def bad(k, x):
        r.bad(f'{k}:{t.root}', f'{where(t)} [{outcome(t)}]: {x}')
    for i, e in t.refused():
        r.n('refusals')
        jid = e[1]
        for j, f in t.of('protect', 'flush', 'release'):
            if j > i and f[1] == jid:
                bad('effect', f'{f[0]} after the allocation was refused')
        for j, f in t.of('write'):
            if j > i and f[1].kind in ('rx', 'rw') and f[1].info['jit'] == jid:
                bad('effect', 'executable memory is written after the allocation was refused')
        if e[3] is None and not t.cap_panic and not any(x[3] == 'panic' for j, x in t.of('alloc')):
            if t.built and not t.name.startswith('root_p_'):
                bad('ignored', 'a wrapper exists although its allocation was refused')
            if t.name.startswith('root_f_') and (t.res[0] != 'ret' or FAILED not in t.marks):
                bad('unreported', f'a fallible constructor does not return the error ({t.res[0]})')
            if t.name.startswith('root_i_') and t.res[0] != 'unwind':
                bad('unreported', f'an infallible constructor does not panic ({t.res[0]})')
            if t.name.startswith(('root_c_', 'root_l_', 'root_p_', 'root_b_')) and t.res[0] != 'ret':
                bad('unreported', f'a fallible constructor does not return the error ({t.res[0]})')
    jids = {0x1111} if '_p_' not in t.name else {e[1] for i, e in t.of('alloc')}
    for j in jids:
        n = sum(1 for i, e in t.of('jit_drop') if e[1] == j)
        if t.leak:
            if n:
                bad('handle', 'a leaked wrapper drops its allocator handle')
        elif n != 1:
            bad('handle', f'the allocator handle is dropped {n} times')
    if t.of('release') and not t.cap_panic and t.res[0] != 'ret' and not t.refused():
        bad('panic', f'disposing of a wrapper ends with {t.res}')
    r.n('releases', len(t.of('release')))


# ------------------------------------------------------------------ M01
def m01(r, t):
    def bad(k, x):
        r.bad(f'{k}:{t.root}', f'{where(t)} [{outcome(t)}]: {x}')
    for i, e in t.of('write'):
        if e[1].kind == 'rx':
            bad('view', 'memory is written through its executable view')
    for ai, a in t.allocs():
        rx = a[3]
        info = rx.info
        wr = [(i, e) for i, e in t.of('write') if e[1] is info['rw'] or e[1] is rx]
        if not wr:
            continue
        pr = [(i, e) for i, e in t.of('protect') if isinstance(e[2], Ptr) and e[2].obj in (rx, info['rw'])]
        fl = [(i, e) for i, e in t.of('flush') if isinstance(e[2], Ptr) and e[2].obj in (rx, info['rw'])]
        r.n('writes', len(wr))
        for i, e in pr + fl:
            if e[1] != info['jit']:
                bad('allocator', f'{e[0]} goes to another allocator')
            if e[2].obj is not rx:
                bad('address', f'{e[0]} names the writable view')
        lo = min(e[2] for i, e in wr)
        hi = max(e[2] + e[3] for i, e in wr)
        for i, e in wr:
            win = None
            for j, p in pr:
                if j < i and covers(p, e[2], e[3]):
                    win = p[4]
                elif j < i and win is not None and p[4] == 1 and overlaps(p, e[2], e[3]):
                    win = 1
            if win != 0:
                bad('window', f'{e[3]} bytes are written at +{e[2]} outside a write window' if win is None else 'code is written after it was made executable')
        last = max(i for i, e in wr)
        for n in range(lo, hi):
            close = [j for j, p in pr if j > last and p[4] == 1 and covers(p, n, 1)]
            reopen = [j for j, p in pr if close and j > close[-1] and p[4] == 0 and covers(p, n, 1)]
            if not close or reopen:
                bad('close', f'the byte at +{n} is not made executable after the last write')
                break
            f = [j for j, p in fl if j > close[0] and covers(p, n, 1)]
            if not f:
                bad('flush', f'the instruction cache is not flushed for the byte at +{n} after it was made executable')
                break
            vis = [j for j, p in t.of('ptr', 'mark') if j < max(f[0], close[-1]) and j > ai]
            if vis:
                bad('visible', 'the function pointer is visible before the code is published')
                break
        for i, e in pr + fl:
            o, n = e[2].off, e[3]
            if not isinstance(o, int) or not isinstance(n, int) or o < 0 or o + n > info['size']:
                bad('range', f'{e[0]} covers {n} bytes at +{o} of a block of {info["size"]}')
    r.n('blocks', len(t.allocs()))


def covers(p, off, n):
    o, s = p[2].off, p[3]
    return isinstance(o, int) and isinstance(s, int) and o <= off and off + n <= o + s


def overlaps(p, off, n):
    o, s = p[2].off, p[3]
    return isinstance(o, int) and isinstance(s, int) and o < off + n and off < o + s


# ------------------------------------------------------------------ C03
def c03(r, t):
    m = t.m
    def bad(k, x):
        r.bad(f'{k}:{t.root}', f'{where(t)} [{outcome(t)}]: {x}')
    bit = 1 if m.arch == 'thumb' else 0
    ptrs = t.of('ptr')
    allocs = t.allocs()
    if t.zst:
        for i, e in ptrs:
            p = e[2]
            if not isinstance(p, Ptr) or p.obj.kind not in ('fn', 'code') or p.off != 0:
                bad('zst', f'the function pointer of a zero-sized closure is {p}')
                continue
            it = m.insts[p.obj.info]
            if 'thunk' not in it['path'] and 'thunk' not in it.get('name', ''):
                bad('zst', f'the function pointer of a zero-sized closure is {it["path"]}')
            r.n('pointers')
        return
    if not t.built:
        return
    for i, e in ptrs:
        r.n('pointers')
        p = e[2]
        if not isinstance(p, Ptr) or p.obj.kind != 'rx' or not allocs or p.obj is not allocs[0][1][3]:
            bad('entry', f'the function pointer is {p}, not executable memory of this wrapper')
    scn = m.scn
    for i, e in allocs:
        rx = e[3]
        rw = rx.info['rw']
        entries = {p[2].off for j, p in ptrs if isinstance(p[2], Ptr) and p[2].obj is rx}
        if len(entries) > 1:
            bad('entry', f'different accessors give different addresses: {sorted(entries)}')
        start = min((w[2] for j, w in t.of('write') if w[1] is rw), default=0)
        if entries and entries != {start + bit}:
            bad('entry', f'the function pointer is the executable address plus {sorted(entries)} but the code starts at +{start}' + (' (Thumb)' if bit else ''))
            continue
        got = []
        errs = []
        for tp in scn.templates.values():
            scn.closures = []
            er = []
            oracle.judge(m, scn, tp, rx, rw, start, lambda *a: er.append(a))
            if not er and scn.closures:
                got.append(scn.closures[0])
            errs += er
        if not got:
            bad('code', f'the generated code is not the thunk of any closure: {errs[0][2] if errs else ""}')
            continue
        if len(got) > 1 and len(scn.templates) == 1:
            raise AnalysisError('ambiguous thunk')
        q = got[0]
        r.n('closure_words')
        if q.obj.kind != 'heap' or q.off != 0:
            bad('closure', f'the generated code passes {q} to the closure')
            continue
        drops = [d for j, d in t.of('cap_drop')]
        if not t.leak and not any(d[2] is q.obj for d in drops):
            bad('closure', 'the generated code uses another heap location than the one the wrapper destroys')
        if t.leak and q.obj.freed:
            bad('closure', 'the closure of a leaked wrapper is freed')


RULES = {'C01': c01, 'C02': c02, 'C03': c03, 'E01': e01, 'M01': m01}


def life_job(r, prop, cfg, part, parts, kinds):
    m = life.machine(cfg)
    r.seen('functions', 0)
    roots = [x for x in sorted(m.roots) if re.search(r'::root_', x)]
    r.n('programs', len(roots[part::parts]))
    for kind in kinds:
        for root in roots[part::parts]:
            if kind != 'plain' and not re.search(r'root_(f|i|p|b|zf)_', root):
                continue
            pl = prologue(m.arch, kind)
            for res, ev in life.run_root(m, root, lambda: life.Scenario(m.arch, pl, rx_res=5, rw_res=5)):
                t = Trace(m, root, res, ev)
                if res == ('end', 'abort') and t.cap_panic and len(t.of('panic', 'cap_panic')) + sum(e[3] == 'panic' for i, e in t.of('alloc')) > 1:
                    # a destructor that panics while another panic unwinds ends the process
                    r.n('aborted_by_destructor')
                    continue
                RULES[prop](r, t)
                r.n('paths')
                r.n('events', len(ev))
                if r.counts['paths'] % 97 == 1:
                    r.sample(f'{cfg} {root} [{kind} prologue; {outcome(t)}] -> {res[0]}')
    r.sets['functions'] = set(f'{cfg}:{m.insts[i]["path"]}' for i in getattr(m, 'entered', ()))


def life_run(prop):
    def run(tier, seed):
        js = []
        kinds = ['plain', 'refused', 'moved']
        for c in CONFIGS:
            ks = kinds if 'nosafe' not in c else ['plain']
            n = 2 if c.endswith('/std') or tier == 'thorough' else 2
            for i in range(n):
                js.append((life_job, (prop, c, i, n, ks)))
        for c in CONFIGS:
            build.dump(c, 'core.rs')
        return framework.jobs(js)
    return run


# ------------------------------------------------------------------ M02, M03
LAYOUT = [a + '/' + f for a in ARCHS for f in ('std', 'nosafe') if (a, f) != ('i686', 'nosafe')]


def fill(arch, n):
    """Address-independent instructions of n bytes in total, or None."""
    if arch in ('x86_64', 'i686'):
        by = {}
        for nm, c, i in x86.entries(arch):
            if c == 'pi':
                by.setdefault(i['size'], i)
        out = []
        while n:
            k = max((z for z in by if z <= n and (n - z == 0 or n - z >= min(by))), default=None)
            if k is None:
                return None
            out.append(by[k])
            n -= k
        return out
    by = {}
    for nm, c, i in arm.entries(arch):
        if c == 'pi' and len(i) == 1:
            by.setdefault(i[0]['size'], i[0])
    out = []
    while n:
        k = max((z for z in by if z <= n), default=None)
        if k is None:
            return None
        out.append(by[k])
        n -= k
    return out


def step(arch):
    return {'x86_64': 1, 'i686': 1, 'thumb': 2}.get(arch, 4)


def shapes(arch):
    """(prologue length, address residue) of the templates considered."""
    st = step(arch)
    out = []
    for n in range(0, 17 if st == 1 else 13, st):
        for res in range(0, 16, st):
            out.append((n, res))
    return out


PAIRS = [(a, b) for a in range(16) for b in range(16)]


def m02_job(r, cfg, part, parts, deep):
    m = life.machine(cfg)
    roots = ['shared::root_f_trycc_any', 'once::root_f_trythunk_any', 'muta::root_i_new_any']
    roots = [x for x in roots if x in m.roots] or sorted(x for x in m.roots if '::root_f_' in x)[:3]
    psize = m.W // 8
    k = 0
    for si, (n, res) in enumerate(shapes(m.arch)):
        pl = fill(m.arch, n)
        if pl is None:
            continue
        full = deep or si in (0, 3, 6)
        prs = PAIRS if full else [(a, b) for a, b in PAIRS if a == b or b == (a * 7 + 3 + si) % 16]
        for rxr, rwr in prs:
            k += 1
            if k % parts != part:
                continue
            root = roots[(k // 7) % len(roots)]
            for rs, ev in life.run_root(m, root, lambda: life.Scenario(m.arch, pl, residue=res, rx_res=rxr, rw_res=rwr, outcomes=False, unwinds=False)):
                t = Trace(m, root, rs, ev)
                def bad(kk, x):
                    r.bad(f'{kk}:{root}@{cfg}', f'{where(t)} with {n} bytes of prologue at {res} mod 16, executable view at {rxr} mod 16, writable view at {rwr} mod 16: {x}')
                r.n('paths')
                r.seen('placements', (m.arch, rxr, rwr))
                r.seen('templates', (m.arch, n, res))
                if not t.allocs():
                    if rs[0] == 'ret':
                        bad('none', 'no block is allocated')
                    continue
                rx = t.allocs()[0][1][3]
                size, rw = rx.info['size'], rx.info['rw']
                if not isinstance(size, int):
                    raise AnalysisError(f'block size {size}')
                wr = [e for i, e in t.of('write') if e[1] in (rx, rw)]
                r.n('writes', len(wr))
                if not wr:
                    bad('none', 'nothing is written into the block')
                    continue
                for e in wr:
                    if not isinstance(e[2], int) or e[2] < 0 or e[2] + e[3] > size:
                        bad('bounds', f'{e[3]} bytes are written at +{e[2]} of a block of {size} bytes')
                for i, e in t.of('ub'):
                    bad('bounds', f'{e[1:]}')
                bit = 1 if m.arch == 'thumb' else 0
                start = min(e[2] for e in wr)
                for i, e in t.of('ptr'):
                    o = e[2].off if isinstance(e[2], Ptr) and e[2].obj is rx else None
                    if o != ((rxr + start) | bit) - rxr:
                        bad('views', f'the executable view is entered at {e[2]} but the code was written at +{start}')
                for i, e in t.of('protect', 'flush'):
                    if isinstance(e[2], Ptr) and isinstance(e[2].off, int) and (e[2].off < 0 or e[2].off + e[3] > size):
                        bad('bounds', f'{e[0]} covers {e[3]} bytes at +{e[2].off} of a block of {size} bytes')
                if rxr == rwr and (rxr + start - res) % psize:
                    bad('align', f'the code is displaced by {(rxr + start - res) % psize} modulo {psize}, so its data words lose their alignment')
                if k % 4001 == 1:
                    r.sample(f'{cfg} {root} prologue {n} bytes at {res} mod 16, rx {rxr}, rw {rwr}: block {size}, code at +{start}')


def m03_job(r, cfg, part, parts, deep):
    m = life.machine(cfg)
    arch = m.arch
    root = 'shared::root_f_trycc_any'
    bit = 1 if arch == 'thumb' else 0
    regs = tmpl.REGS[arch]
    cases = []
    for a, x in enumerate(regs):
        for b, y in enumerate(regs):
            if x != y and (deep or b in ((a + 1) % len(regs), (a + 5) % len(regs)) or a in (0, len(regs) - 1)):
                cases.append(([x, y], 4 if step(arch) != 1 else 5, 0))
    for n, res in shapes(arch):
        i = (n * 5 + res) % len(regs)
        cases.append(([regs[i], regs[(i + 3) % len(regs)]], n, res))
    for rg, n, res in cases[part::parts]:
        pl = fill(arch, n)
        if pl is None:
            continue
        for aligned in ((0, 8) if arch != 'thumb' else (0, 4)):
            for rs, ev in life.run_root(m, root, lambda: life.Scenario(arch, pl, residue=res, regs=rg, rx_res=aligned, rw_res=aligned, outcomes=False, unwinds=False)):
                t = Trace(m, root, rs, ev)
                w = f'{cfg} {root} registers {rg} {n} bytes of prologue at {res} mod 16'
                r.n('paths')
                if not t.allocs() or not t.built:
                    r.bad(f'refused@{cfg}', f'{w}: no code is generated for a position-independent prologue ({rs})')
                    continue
                rx = t.allocs()[0][1][3]
                p = t.of('ptr')[0][1][2]
                if not isinstance(p, Ptr) or p.obj is not rx or not isinstance(p.off, int):
                    r.bad(f'entry@{cfg}', f'{w}: the function pointer is {p}')
                    continue
                tp = list(m.scn.templates.values())[0]
                m.scn.closures = []
                er = []
                oracle.judge(m, m.scn, tp, rx, rx.info['rw'], p.off - bit, lambda *a: er.append(a))
                r.n('thunks')
                r.seen('register_choices', (arch, *tp['regs']))
                for a in er:
                    r.bad(f'{a[0]}:{a[1]}@{cfg}', f'{w}: {a[2]}')
                if not er:
                    q = m.scn.closures
                    if len(q) < 1 or any(not isinstance(x, Ptr) or x.obj.kind != 'heap' or x.off != 0 for x in q):
                        r.bad(f'closure@{cfg}', f'{w}: the code loads {q} as its closure')
                    ex = [e for i, e in t.of('flush') if isinstance(e[2], Ptr) and e[2].obj is rx and isinstance(e[2].off, int) and isinstance(e[3], int)]
                    r.n('words', len(m.scn.used))
                    for o, k in m.scn.used if ex else ():
                        if not any(e[2].off <= o and o + k <= e[2].off + e[3] for e in ex):
                            r.bad(f'range@{cfg}', f'{w}: the thunk uses {k} bytes at +{o - p.off + bit} but the generated code is only {[e[3] for e in ex]} bytes long')
                    if r.counts['thunks'] % 997 == 1:
                        r.sample(w)


def multi(job, parts, floors, rule):
    def run(tier, seed):
        for c in LAYOUT:
            build.dump(c, 'core.rs')
        return framework.jobs([(job, (c, i, parts(c, tier), tier == 'thorough')) for c in LAYOUT for i in range(parts(c, tier))])
    return {'run': run, 'rule': rule, 'assumptions': ASSUME, 'floors': floors}


ASSUME = ['standard library, iced-x86 and capstone behave as modelled in lib/models.py, lib/x86.py, lib/arm.py',
          'templates are the abstract streams of lib/life.py: address-independent prologue, the assembly block as really assembled, opaque rest']
RULE = ('Abstract interpretation of the compiler\'s MIR from {n} client programs (every constructor, conversion and disposal of the '
        'three wrapper kinds), all library code inlined, partitioned by every outcome of the allocator and the captured destructor; '
        'typestate rules over the recorded events of each path: {rule}')
SPEC = {}
for p_, rule_ in {
    'C01': 'each captured state is destroyed exactly once, at the right stage, intact; each heap block freed once; nothing after a leak',
    'C02': 'each obtained block is released exactly once, to its allocator, at the returned address, while disposing; none after a leak or for zero-sized closures',
    'C03': 'each observed pointer is the start of the generated code; evaluating that code yields the closure address the wrapper later destroys',
    'E01': 'after a refused allocation nothing touches the allocator, the error is returned or panics, the handle is dropped once; release failures never panic',
    'M01': 'every write to generated code lies in an open write window, then protect-executable, then flush, then the pointer becomes visible',
}.items():
    SPEC[p_] = {'run': life_run(p_), 'rule': RULE.format(n=126, rule=rule_), 'assumptions': ASSUME,
                'floors': {'paths': 3000, 'programs': 1000, 'events': 10000}}

SPEC['M02'] = multi(m02_job, lambda c, t: 8 if step(c.split('/')[0]) == 1 or t == 'thorough' else 2, {'paths': 10000, 'placements': 1200, 'templates': 300},
                    'Abstract interpretation of the constructors for every residue pair of the two views and every template length and residue '
                    'modulo 16: each recorded write, protect and flush lies inside the requested block, the entry is displaced like the writes, '
                    'and the displacement keeps the data words\' alignment')
SPEC['M03'] = multi(m03_job, lambda c, t: 4, {'thunks': 2000, 'register_choices': 150},
                    'The generated bytes of each interpreted constructor path are evaluated over the instruction semantics of lib/oracle.py, '
                    'with the assembly block really assembled for each register choice: the closure register holds the heap address, the jump '
                    'leads directly behind the data block in the mode of the template, all executed bytes lie in the copy')
