"""Relocation properties: abstract prologues are pushed through the real relocation code and the result is judged."""
import itertools, re
import framework, life, oracle, x86, arm, isa, build, tmpl
from c_life import ARCHS, ASSUME, Trace
from interp import AnalysisError, StepLimit
from values import *

ROOT = 'shared::root_f_trycc_any'
RULE_OF = {'unchanged': 'R01', 'effect': 'R02', 'shape': 'R03', 'patch': 'R03'}
# how much of the core set every form is paired with
PAIRS = {'aarch64': 12, 'armv7': 12, 'thumb': 12}
# first register handed to the asm block
FIRST = {'x86_64': (0, 7, 3), 'i686': (0, 2)}

# instructions that take part in longer sequences
CORE = {
    'x86_64': ['push rbp', 'mov rax, rcx', 'xor eax, eax', 'mov r11, r10', 'mov rcx, rdx', 'setne cl', 'add rax, rcx', 'push rax', 'pop rax',
               'lea rax, [rip+imm]', 'mov rax, [rip+imm]', 'mov [rip+imm], rax', 'cmp byte ptr [rip+imm], 0', 'cmp rax, [rip+imm]',
               'mov cl, [rip+imm]', 'movaps xmm0, [rip+imm]', 'lea rcx, [rip+imm]', 'inc qword ptr [rip+imm]', 'push qword ptr [rip+imm]',
               'mov r15, [rip+imm]', 'mov al, cl', 'mov rdi, rsp', 'rep stosq', 'xchg rax, [rip+imm]', 'mov cx, dx', 'mov r10d, r9d', 'mov ax, cx'],
    'i686': ['push ebp', 'push ebx', 'mov eax, ecx', 'xor eax, eax', 'call next', 'pop eax ', 'pop ecx ', 'pop ebx ', 'pop ebp ', 'mov ebx, eax',
             'add ebx, 0x1000', 'lea eax, [esp+8]', 'pop mem', 'pop ax', 'mov eax, [0x12345678]', 'nop', 'call', 'pop esi ', 'cs call next', 'ds pop edx'],
    'aarch64': ['stp x29, x30, [sp, #-16]!', 'mov x8, x0', 'add x0, x1, x2', 'ldr x0, lit', 'ldr w3, lit', 'ldrsw x9, lit', 'adr x0', 'adrp x3',
                'adr x30', 'ldr x17, lit', 'ldr d17, lit', 'ldr q0, lit', 'bti c', 'cmp x0, #1', 'csel x0, x1, x2, eq', 'adrp x16', 'b.eq #8', 'ldr xzr, lit'],
    'armv7': ['push {r4, lr}', 'mov r4, r0', 'moveq r0, r1', 'ldr r0, [pc, imm]', 'ldr r2, [pc, -imm]', 'ldrb r7, [pc, imm]', 'ldrsh r7, [pc, imm]',
              'ldrd r2, [pc, imm]', 'ldrd r0, [pc, -imm]', 'add r0, pc, imm ror 8', 'sub r3, pc, imm ror 0', 'add r14, pc, imm ror 0', 'ldr r12, [pc, imm]',
              'add r0, r1, pc', 'ldrh r2, [pc, imm]', 'cmp r0, #0', 'ldrsb r12, [pc, imm]', 'ldrb r3, [pc, r1]'],
    'thumb': ['push {r4, lr}', 'mov r4, r0', 'nop', 'nop.w', 'ldr r0, [pc, imm]', 'ldr r7, [pc, imm]', 'ldr.w r3, [pc, imm]', 'ldr.w r0, [pc, -imm]',
              'ldrh.w r3, [pc, imm]', 'ldrsb.w r0, [pc, -imm]', 'adr r1, imm', 'adr.w r0, imm', 'adr.w r3, imm', 'ldrd r0, r1, [pc, -imm]',
              'ldrd r12, r2, [pc, imm]', 'add r3, pc', 'it eq; moveq', 'push.w {r8, lr}', 'ldr.w r12, [pc, imm]', 'cmp r0, #0'],
}
# instructions around branches
AROUND = {
    'x86_64': ['push rbp', 'mov rax, rcx', 'lea rax, [rip+imm]', 'cmp byte ptr [rip+imm], 0', 'mov [rip+imm], rax', 'mov r11, r10', 'xor eax, eax', 'add rax, rcx', 'mov rcx, rdx'],
    'i686': ['push ebp', 'call next', 'pop ebx ', 'mov eax, ecx', 'nop'],
    'aarch64': ['mov x8, x0', 'ldr x0, lit', 'adr x0', 'stp x29, x30, [sp, #-16]!', 'adrp x3'],
    'armv7': ['mov r4, r0', 'ldr r0, [pc, imm]', 'add r0, pc, imm ror 8', 'push {r4, lr}', 'ldrd r2, [pc, imm]'],
    'thumb': ['nop', 'nop.w', 'ldr r0, [pc, imm]', 'ldr.w r3, [pc, imm]', 'adr.w r0, imm', 'push {r4, lr}'],
}


def entries(arch):
    if arch in ('x86_64', 'i686'):
        return [(n, c, [i]) for n, c, i in x86.entries(arch)]
    return arm.entries(arch)


def table(arch):
    return {n: (c, i) for n, c, i in entries(arch)}


def br(arch, k, to):
    """The k-th branch form of an architecture, going to item `to` of the prologue."""
    if arch in ('x86_64', 'i686'):
        n, i = [(n, i) for n, c, i in x86.entries(arch) if c == 'jcc'][k]
        return f'{n} to {to}', dict(i, to=to)
    kind = list(isa.BRANCHES[arch])[k]
    return f'{kind} to {to}', arm.branch_to(arch, kind, to)


def nbr(arch):
    return len([1 for n, c, i in x86.entries(arch) if c == 'jcc']) if arch in ('x86_64', 'i686') else len(isa.BRANCHES[arch])


def sequences(arch, tier):
    """(names, items, residue): the prologues judged."""
    T = table(arch)
    names = [n for n in T if T[n][0] != 'jcc']
    core = [n for n in CORE[arch] if n in T]
    around = [n for n in AROUND[arch] if n in T]
    ress = {'thumb': (0, 2), 'armv7': (0, 4), 'aarch64': (0, 4)}.get(arch, (0, 3))

    def mkseq(ns, res):
        return ns, [i for n in ns for i in T[n][1]], res
    for n in names:
        for res in ress:
            yield mkseq((n,), res)
    pairs = set()
    for a in names:
        for b in (names if tier == 'thorough' else core[:PAIRS.get(arch)]):
            pairs.add((a, b))
            pairs.add((b, a))
    for k, p in enumerate(sorted(pairs)):
        if tier != 'thorough' and not set(p) <= set(core) and k % 2:
            continue
        yield mkseq(p, ress[(k if tier == 'thorough' else k // 2) % len(ress)])
    small = core if tier == 'thorough' else core[:11 if arch in FIRST else 9]
    for k, p in enumerate(itertools.product(small, repeat=3)):
        yield mkseq(p, ress[(k // 3) % len(ress)])
    for n in core:
        for k in (5, 9):
            for res in ress:
                yield mkseq((n,) * k, res)
    for a, b in itertools.permutations(core, 2):
        yield mkseq((a, b) * 3, ress[0])
    # one branch among up to three (four) other instructions, to every boundary
    for ln in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for others in itertools.product(around[:len(around) if ln < 3 else 4 + (tier == 'thorough')], repeat=ln):
            for at in range(ln + 1):
                for k in range(nbr(arch)):
                    if tier != 'thorough' and k > 0 and (ln == 3 or ln == 2 and not set(others) <= set(around[:6])):
                        continue
                    cnt = 0
                    seq = []
                    pos = []
                    for j, n in enumerate(others):
                        if j == at:
                            pos.append(len(seq))
                            seq.append(None)
                        pos.append(len(seq))
                        seq += T[n][1]
                    if at == ln:
                        pos.append(len(seq))
                        seq.append(None)
                    pos.append(len(seq))
                    hole = seq.index(None)
                    for to in pos:
                        nm, it = br(arch, k, to)
                        s2 = list(seq)
                        s2[hole] = it
                        nn = list(others)
                        nn.insert(at, nm)
                        yield tuple(nn), s2, ress[(hash_(nn)) % len(ress)]


def hash_(x):
    return sum(ord(c) * (i + 1) for i, c in enumerate('|'.join(x)))


def judge_one(r, m, names, items, res, seen):
    arch = m.arch
    bit = 1 if arch == 'thumb' else 0
    regs = None
    if arch in FIRST:
        k = FIRST[arch][hash_(names) % len(FIRST[arch])]
        regs = tmpl.REGS[arch][k:] + tmpl.REGS[arch][:k]
    for rs, ev in life.run_root(m, ROOT, lambda: life.Scenario(arch, items, residue=res, regs=regs, outcomes=False, unwinds=False)):
        r.n('paths')
        t = Trace(m, ROOT, rs, ev)
        al = t.allocs()
        if not al or not t.built:
            r.n('refused')
            if any(e[0] in ('write', 'ptr') for e in ev):
                r.bad('R03', f'partial@{arch}', f'{arch} {"; ".join(names)}: fails after code was written')
            continue
        rx = al[0][1][3]
        p = t.of('ptr')[0][1][2]
        if not isinstance(p, Ptr) or p.obj is not rx or not isinstance(p.off, int):
            r.bad('R03', f'entry@{arch}', f'{arch} {"; ".join(names)}: the function pointer is {p}')
            continue
        tp = list(m.scn.templates.values())[0]
        m.scn.closures = []
        er = []
        oracle.judge(m, m.scn, tp, rx, rx.info['rw'], p.off - bit, lambda *a: er.append(a))
        r.n('judged')
        for rule, key, text in er:
            for ru in rule.split('+'):
                r.bad(RULE_OF[ru], f'{key}@{arch}',     f'{arch} [{"; ".join(names)}] at {res} mod 16: {text}')


class Filter:
    """Keeps only the violations of one property."""

    def __init__(self, r, prop):
        self.r, self.prop = r, prop
        self.n, self.seen, self.sample = r.n, r.seen, r.sample

    def bad(self, prop, key, text):
        if prop == self.prop:
            self.r.bad(key, text)
        else:
            self.r.n('reported_by_' + prop)


def reloc_job(r, prop, arch, part, parts, tier):
    m = life.machine(arch + '/std')
    m.max_steps = 400_000
    f = Filter(r, prop)
    for k, (names, items, res) in enumerate(sequences(arch, tier)):
        if k % parts != part:
            continue
        r.n('prologues')
        try:
            judge_one(f, m, names, items, res, None)
        except StepLimit:
            f.bad('R01', f'endless@{arch}', f'{arch} [{"; ".join(names)}]: relocating this prologue does not end')
            r.n('endless')
            if r.counts['endless'] > 3:
                break
        except AnalysisError as e:
            if len(r.errors) < 5:
                r.err(f'{arch} [{"; ".join(names)}]: {e} {getattr(e, "loc", "")}')
        if k % 5003 == 7:
            r.sample(f'{arch} [{"; ".join(names)}] at {res} mod 16')
    for n in CORE[arch] + AROUND[arch]:
        r.seen('forms', (arch, n))


# forms with an encoder or decoder of their own; they must be recognised whatever their operands
CODEC = {
    'aarch64': r'(ldr x|ldr w|ldrsw x)\d+, lit$|adrp? x\d+$',
    'armv7': r'(ldrs?[bh]?|ldrd) r\d+, \[pc, -?imm\]$|(add|sub) r\d+, pc, imm ror \d+$',
    'thumb': r'(ldr(s?[bh])?(\.w)?) r\d+, \[pc, -?imm\]$|ldrd r\d+, r\d+, \[pc, -?imm\]$|adr(\.w)? r\d+, -?imm$',
}
GAPS = {'aarch64': ('b', range(0x100000 - 72, 0x100000 - 24, 4)), 'armv7': ('b', range(4096 - 96, 4096 + 32, 4)),
        'thumb': ('b.w', range(4096 - 96, 4096 + 32, 2))}


def codec_cases(arch, tier):
    """(names, items, residue, must be accepted)"""
    es = arm.entries(arch, ext=True)
    ress = {'thumb': (0, 2, 4, 6), 'armv7': (0, 4), 'aarch64': (0, 4)}[arch]
    for n, c, its in es:
        for res in ress:
            yield (n,), its, res, bool(re.match(CODEC[arch], n)), c
    forms = [(n, c, i) for n, c, i in es if re.match(CODEC[arch], n)]
    kind, disps = GAPS[arch]
    bs = isa.BRANCHES[arch][kind][1]
    few = [f for f in forms if f[0] in dict.fromkeys(CORE[arch])] + forms[::18 if tier != 'thorough' else 2]
    if arch == 'aarch64':
        few = [f for f in few if f[0] in ('ldr x0, lit', 'adr x0')]   # a megabyte is scanned for each
    for n, c, its in few:
        for d in disps:
            g = [arm.branch(arch, kind, d), arm.gap(arch, d - bs)]
            yield (n, f'{kind} over {d:#x}'), its + g, ress[(d // 4) % 2], False, c
            if d % 8 == 0 and arch != 'aarch64':
                yield (few[0][0], n, f'{kind} over {d:#x}'), few[0][2] + its + g, ress[(d // 8) % 2], False, c


class All:
    """Attributes every violation to one property."""

    def __init__(self, r):
        self.r, self.n, self.seen, self.sample = r, r.n, r.seen, r.sample

    def bad(self, prop, key, text):
        self.r.bad(key, text)


def codec_job(r, arch, part, parts, tier):
    m = life.machine(arch + '/std')
    m.max_steps = 8_000_000 if arch == 'aarch64' else 400_000
    f = All(r)
    for k, (names, items, res, must, cls) in enumerate(codec_cases(arch, tier)):
        if k % parts != part:
            continue
        r.n('cases')
        before = r.counts.get('refused', 0)
        try:
            judge_one(f, m, names, items, res, None)
        except StepLimit:
            r.bad(f'endless@{arch}', f'{arch} [{"; ".join(names)}]: relocating this does not end')
        except AnalysisError as e:
            if len(r.errors) < 5:
                r.err(f'{arch} [{"; ".join(names)}]: {e} {getattr(e, "loc", "")}')
        if must:
            r.n('must_recognise')
            if r.counts.get('refused', 0) > before:
                r.bad(f'unrecognised:{names[0]}@{arch}', f'{arch} "{names[0]}" at {res} mod 16 is refused for some operands')
        if len(names) > 1:
            r.n('reach_limit_cases')


def codec_run(tier, seed):
    for a in ARCHS[2:]:
        build.dump(a + '/std', 'core.rs')
    return framework.jobs([(codec_job, (a, i, 8, tier)) for i in range(8) for a in ARCHS[2:]])


def reloc_run(prop):
    def run(tier, seed):
        for a in ARCHS:
            build.dump(a + '/std', 'core.rs')
        n = 16 if tier == 'thorough' else 8
        return framework.jobs([(reloc_job, (prop, a, i, n, tier)) for i in range(n) for a in ARCHS])
    return run


RULE = ('Every listed instruction form of each architecture (operands, displacements and addresses unknown), all pairs with a core set, all triples '
        'of a smaller one, repetitions, and branches to every boundary are interpreted abstractly through the relocation code; the produced bytes '
        'are evaluated against the original under instruction semantics written from the architecture manuals: ')
SPEC = {p: {'run': reloc_run(p), 'rule': RULE + t, 'assumptions': ASSUME, 'floors': {'prologues': 20000, 'judged': 5000, 'refused': 2000}} for p, t in {
    'R01': 'nothing whose effect depends on its address, or that leaves the stream, is copied unchanged',
    'R02': 'each register, flag and memory effect at the new address equals the original one',
    'R03': 'the instructions appear in order, once, followed only by referenced data, and the closure word is where it is written',
}.items()}
SPEC['R04'] = {'run': codec_run, 'assumptions': ASSUME, 'floors': {'cases': 1000, 'must_recognise': 400, 'reach_limit_cases': 500, 'judged': 600},
               'rule': 'Every register, rotation and direction of every instruction form with a decoder or encoder in the relocation code, with unknown immediates, '
                       'is interpreted abstractly through the relocation code: it must be recognised and its replacement must compute what the manual says; '
                       'around the reach of the replacement (jumping over a gap of every size near it) it must be refused or right.'}
