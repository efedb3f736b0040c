"""Sample instructions of the ARM family and what the architecture manuals say about them.

Each entry: name, assembly (or raw bytes), class, symbolic bit fields.
Classes
  pi      effect independent of the address, falls through
  pcrel   effect depends on the address of the instruction (must not be copied unchanged)
  ctl     may transfer control elsewhere (must not be copied unchanged)
  any     traps, hints: both copying and refusing are right
  bad     does not decode (must be refused)
  br      unconditional direct branch; allowed unchanged if its target is moved along
`sym` lists (lo, hi) bit ranges of the instruction word that are replaced by unknowns.
"""


def E(name, asm, cls, sym=(), **kw):
    d = {'name': name, 'asm': asm, 'cls': cls, 'sym': list(sym)}
    d.update(kw)
    return d


def raw(name, hx, cls, sym=(), **kw):
    return E(name, None, cls, sym, hex=hx, **kw)


def a64():
    r = []
    for a in ['nop', 'stp x29, x30, [sp, #-16]!', 'mov x29, sp', 'sub sp, sp, #32', 'str x0, [sp, #8]', 'mov x8, x0',
              'ldr x0, [x1, #8]', 'ldr q0, [sp, #16]', 'add x0, x1, x2', 'movz x3, #4660', 'movk x3, #4660, lsl #16', 'cmp x0, #1',
              'csel x0, x1, x2, eq', 'fmov d0, x0', 'stp q0, q1, [sp, #32]', 'orr x0, x1, #0xff', 'dmb ish', 'add x16, x17, #0x800',
              'ldrsw x2, [x3, #4]', 'ldrb w4, [x5]', 'ldp x19, x20, [sp], #16', 'sxtw x0, w1', 'ldr x0, [x1, x2]']:
        r.append(E(a, a, 'pi'))
    for a in ['paciasp', 'bti c', 'svc #0', 'brk #1', 'hlt #1', 'udf #1', 'hvc #0', 'smc #0', 'eret', 'wfi', 'prfm pldl1keep, #8', 'isb',
              'mrs x0, tpidr_el0', 'autiasp']:
        r.append(E(a, a, 'any'))
    for rt in (0, 3, 9, 16, 17, 29, 30):
        for op, ty in (('ldr', 'x'), ('ldr', 'w'), ('ldrsw', 'x')):
            r.append(E(f'{op} {ty}{rt}, lit', f'{op} {ty}{rt}, #8', 'pcrel', [(5, 24)]))
        r.append(E(f'adr x{rt}', f'adr x{rt}, #8', 'pcrel', [(5, 24), (29, 31)]))
        r.append(E(f'adrp x{rt}', f'adrp x{rt}, #4096', 'pcrel', [(5, 24), (29, 31)]))
    r.append(E('ldr xzr, lit', 'ldr xzr, #8', 'pcrel', [(5, 24)]))
    r.append(E('adr xzr', 'adr xzr, #8', 'pcrel', [(5, 24), (29, 31)]))
    for ty in 'sdq':
        r.append(E(f'ldr {ty}0, lit', f'ldr {ty}0, #16', 'pcrel', [(5, 24)], word='ldr-fp-lit'))
    r.append(E('ldr d17, lit', 'ldr d17, #16', 'pcrel', [(5, 24)]))
    for a in ['bl #8', 'bl #0x100000', 'cbz x0, #8', 'cbnz w0, #8', 'tbz x0, #1, #8', 'tbnz x0, #40, #8', 'br x0', 'blr x0', 'ret', 'ret x3',
              'retaa', 'retab', 'braaz x0', 'blraaz x1', 'braa x0, x1', 'bc.eq #8', 'bc.ne #-8',
              'b.eq #8', 'b.ne #8', 'b.eq #-8', 'b.al #8', 'b.hi #0x10000']:
        r.append(E(a, a, 'ctl'))
    for h in ['ffffffff', '00000060']:
        r.append(raw(f'undecodable {h}', h, 'bad'))
    return r


def a32():
    r = []
    for a in ['nop', 'push {r4, lr}', 'sub sp, sp, #16', 'mov r4, r0', 'str r0, [sp]', 'add r0, r1, r2', 'ldr r0, [r1, #4]', 'movw r0, #4660',
              'movt r0, #4660', 'cmp r0, #0', 'moveq r0, r1', 'ldreq r0, [r1]', 'add r11, sp, #8', 'vpush {d8}', 'vldr d0, [r1, #8]',
              'ldr r0, [r1, r2]', 'ldrd r2, r3, [r4, #8]', 'strd r2, r3, [sp, #-8]!', 'bic sp, sp, #7', 'ldm r0, {r1, r2}',
              'add r0, sp, #4', 'dmb ish', 'orr r0, r1, #1', 'ldrh r0, [r1, #2]', 'subs r3, r4, #1', 'stmdb sp!, {r0, r1, r2, r3}']:
        r.append(E(a, a, 'pi'))
    for a in ['svc #0', 'udf #0', 'bkpt #0', 'mrs r0, cpsr', 'pld [pc, #4]', 'rfeia sp!']:
        r.append(E(a, a, 'any'))
    for rt in (0, 2, 7, 12, 14):
        for u in ('', '-'):
            r.append(E(f'ldr r{rt}, [pc, {u}imm]', f'ldr r{rt}, [pc, #{u}8]', 'pcrel', [(0, 12)]))
            r.append(E(f'ldrb r{rt}, [pc, {u}imm]', f'ldrb r{rt}, [pc, #{u}8]', 'pcrel', [(0, 12)]))
            for op in ('ldrh', 'ldrsb', 'ldrsh'):
                r.append(E(f'{op} r{rt}, [pc, {u}imm]', f'{op} r{rt}, [pc, #{u}8]', 'pcrel', [(0, 4), (8, 12)]))
    for u in ('', '-'):
        for rt in (0, 2, 6, 10):
            r.append(E(f'ldrd r{rt}, [pc, {u}imm]', f'ldrd r{rt}, r{rt+1}, [pc, #{u}8]', 'pcrel', [(0, 4), (8, 12)]))
    for rd in (0, 3, 12, 14):
        for op, base in (('add', 0x028f0000), ('sub', 0x024f0000)):
            for rot in ((0, 1, 4, 8, 11, 15) if rd == 0 else (0, 12)):
                w = 0xe0000000 | base | rd << 12 | rot << 8 | 4
                r.append(raw(f'{op} r{rd}, pc, imm ror {2 * rot}', w.to_bytes(4, 'little').hex(), 'pcrel', [(0, 8)]))
    for a in ['ldr r0, [pc, r1]', 'ldr r0, [pc, -r1]', 'ldrb r3, [pc, r1]', 'ldr r0, [pc, r1, lsl #2]', 'ldrb r0, [pc, -r1, lsr #3]',
              'ldrh r0, [pc, r1]', 'ldrsb r0, [pc, r1]', 'ldrsh r0, [pc, -r1]', 'ldrd r2, r3, [pc, r0]', 'ldrd r2, r3, [pc, -r0]',
              'add r0, pc, r0', 'add r0, r1, pc', 'sub r0, pc, r1', 'adds r0, pc, #4', 'subs r0, pc, #4', 'mov r0, pc', 'movs r0, pc', 'mvn r0, pc', 'tst pc, r0', 'cmp pc, r0',
              'rsb r0, pc, #0', 'adc r0, pc, #0', 'sbc r0, pc, #0', 'rsc r0, pc, #0', 'and r0, pc, #3', 'eor r0, pc, r1', 'orr r0, pc, #1', 'bic r0, pc, #3',
              'vldr d0, [pc, #8]', 'vldr s0, [pc, #8]', 'vldr d3, [pc, #-8]', 'str r0, [pc, #4]', 'strb r0, [pc, #4]', 'strh r0, [pc, #4]',
              'ldm pc, {r0, r1}', 'str pc, [sp]', 'stmdb sp!, {r4, pc}', 'ldreq r0, [pc, #4]', 'ldrne r3, [pc, #-4]', 'addeq r0, pc, #4', 'subgt r2, pc, #8',
              'ldc p14, c5, [pc, #4]', 'vldmia pc, {d0}', 'add r2, pc, r3, lsl #2', 'ldrheq r0, [pc, #4]']:
        r.append(E(a, a, 'pcrel'))
    for a in ['beq #4', 'bne #-8', 'bl #4', 'blx #4', 'bleq #4', 'bx r0', 'bx lr', 'bxeq lr', 'blx r0', 'mov pc, r0', 'movs pc, lr', 'ldr pc, [r0]', 'ldr pc, [pc, #4]',
              'pop {r4, pc}', 'add pc, pc, r0', 'ldm r0, {r1, pc}', 'ldr pc, [pc, r0, lsl #2]', 'add pc, r1, #4', 'sub pc, lr, #4', 'bxj r0',
              'ldreq pc, [r0]', 'moveq pc, lr', 'popeq {pc}', 'subs pc, lr, #4']:
        r.append(E(a, a, 'ctl'))
    for h in ['ffffffff', '000000ff', '00f0f0ff']:
        r.append(raw(f'undecodable {h}', h, 'bad'))
    return r


def t32():
    r = []
    for a in ['nop', 'push {r4, lr}', 'sub sp, #16', 'mov r4, r0', 'str r0, [sp]', 'adds r0, r1, r2', 'ldr r0, [r1, #4]', 'movw r0, #4660',
              'movt r0, #4660', 'cmp r0, #0', 'add r7, sp, #8', 'vpush {d8}', 'vldr d0, [r1, #8]', 'ldr.w r0, [r1, r2]',
              'ldrd r2, r3, [r4, #8]', 'push.w {r8, lr}', 'mov.w r0, #1', 'ldr.w r8, [r1, #4]', 'nop.w', 'dmb ish', 'stmdb sp!, {r0, r1, r2, r3}',
              'add r0, sp, #4', 'ldr r0, [r1, r2]', 'ldrh r0, [r1, #2]', 'uxtb r0, r1', 'mov r12, sp']:
        r.append(E(a, a, 'pi'))
    for a in ['svc #0', 'udf #0', 'bkpt #0', 'mrs r0, apsr', 'pld [pc, #4]', 'pli [pc, #4]', 'rfeia sp!']:
        r.append(E(a, a, 'any'))
    for rt in (0, 1, 5, 7):
        r.append(E(f'ldr r{rt}, [pc, imm]', f'ldr r{rt}, [pc, #8]', 'pcrel', [(0, 8)]))
        r.append(E(f'adr r{rt}, imm', f'adr r{rt}, #8', 'pcrel', [(0, 8)]))
    for rt in (0, 3, 9, 12, 14):
        for op in ('ldr', 'ldrb', 'ldrh', 'ldrsb', 'ldrsh'):
            for u in ('', '-'):
                r.append(E(f'{op}.w r{rt}, [pc, {u}imm]', f'{op}.w r{rt}, [pc, #{u}8]', 'pcrel', [(16, 28)]))
        for u in ('', '-'):
            r.append(E(f'adr.w r{rt}, {u}imm', f'adr.w r{rt}, #{u}8', 'pcrel', [(10, 11), (16, 24), (28, 31)]))
    for rt, rt2 in ((0, 1), (3, 8), (12, 2)):
        for u in ('', '-'):
            r.append(E(f'ldrd r{rt}, r{rt2}, [pc, {u}imm]', f'ldrd r{rt}, r{rt2}, [pc, #{u}8]', 'pcrel', [(16, 24)]))
    for a in ['add r0, pc', 'add r3, pc', 'mov r0, pc', 'mov r9, pc', 'vldr d0, [pc, #8]', 'vldr s0, [pc, #8]', 'vldr d3, [pc, #-8]',
              'vldmia pc, {d0}', 'ldc p14, c5, [pc, #4]', 'add r8, pc']:
        r.append(E(a, a, 'pcrel'))
    for a in ['beq #4', 'bne #-8', 'beq.w #400', 'bne.w #-400', 'bl #4', 'blx #4', 'cbz r0, #4', 'cbnz r0, #4', 'bx r0', 'bx lr', 'blx r0', 'mov pc, r0', 'mov pc, lr',
              'ldr.w pc, [r0]', 'ldr.w pc, [pc, #4]', 'pop {r4, pc}', 'pop.w {r8, pc}', 'tbb [pc, r0]', 'tbh [pc, r0, lsl #1]', 'tbb [r1, r0]',
              'add pc, r0', 'ldm.w r0, {r1, pc}', 'subs pc, lr, #4', 'bxj r0']:
        r.append(E(a, a, 'ctl'))
    r.append(E('it eq; ldreq lit', 'it eq\nldreq r0, [pc, #4]', 'seq', part=['pi', 'pcrel']))
    r.append(E('it ne; ldrne.w lit', 'it ne\nldrne.w r3, [pc, #4]', 'seq', part=['pi', 'pcrel']))
    r.append(E('it eq; beq', 'it eq\nbeq #4', 'seq', part=['pi', 'ctl']))
    r.append(E('it eq; bxeq', 'it eq\nbxeq lr', 'seq', part=['pi', 'ctl']))
    r.append(E('it eq; moveq', 'it eq\nmoveq r0, r1', 'seq', part=['pi', 'pi']))
    r.append(E('it eq; adreq', 'it eq\nadreq r0, #4', 'seq', part=['pi', 'pcrel']))
    r.append(E('it eq; addeq pc', 'it eq\naddeq r0, pc', 'seq', part=['pi', 'pcrel']))
    for h in ['ffffffff']:
        r.append(raw(f'undecodable {h}', h, 'bad'))
    return r


def more(mode, r):
    """Further register and rotation choices of the rewritten forms; judged on their own only."""
    have = {e['name'] for e in r}

    def add(e):
        if e['name'] not in have:
            e['ext'] = True
            r.append(e)
    if mode == 'aarch64':
        for rt in range(31):
            for op, ty in (('ldr', 'x'), ('ldr', 'w'), ('ldrsw', 'x')):
                add(E(f'{op} {ty}{rt}, lit', f'{op} {ty}{rt}, #8', 'pcrel', [(5, 24)]))
            add(E(f'adr x{rt}', f'adr x{rt}, #8', 'pcrel', [(5, 24), (29, 31)]))
            add(E(f'adrp x{rt}', f'adrp x{rt}, #4096', 'pcrel', [(5, 24), (29, 31)]))
    elif mode == 'armv7':
        for rt in list(range(13)) + [14]:
            for u in ('', '-'):
                for op in ('ldr', 'ldrb'):
                    add(E(f'{op} r{rt}, [pc, {u}imm]', f'{op} r{rt}, [pc, #{u}8]', 'pcrel', [(0, 12)]))
                for op in ('ldrh', 'ldrsb', 'ldrsh'):
                    add(E(f'{op} r{rt}, [pc, {u}imm]', f'{op} r{rt}, [pc, #{u}8]', 'pcrel', [(0, 4), (8, 12)]))
                if rt % 2 == 0 and rt < 12:
                    add(E(f'ldrd r{rt}, [pc, {u}imm]', f'ldrd r{rt}, r{rt+1}, [pc, #{u}8]', 'pcrel', [(0, 4), (8, 12)]))
            for op, base in (('add', 0x028f0000), ('sub', 0x024f0000)):
                for rot in range(16):
                    w = 0xe0000000 | base | rt << 12 | rot << 8 | 4
                    add(raw(f'{op} r{rt}, pc, imm ror {2 * rot}', w.to_bytes(4, 'little').hex(), 'pcrel', [(0, 8)]))
    else:
        for rt in range(8):
            add(E(f'ldr r{rt}, [pc, imm]', f'ldr r{rt}, [pc, #8]', 'pcrel', [(0, 8)]))
            add(E(f'adr r{rt}, imm', f'adr r{rt}, #8', 'pcrel', [(0, 8)]))
        for rt in list(range(13)) + [14]:
            for u in ('', '-'):
                for op in ('ldr', 'ldrb', 'ldrh', 'ldrsb', 'ldrsh'):
                    add(E(f'{op}.w r{rt}, [pc, {u}imm]', f'{op}.w r{rt}, [pc, #{u}8]', 'pcrel', [(16, 28)]))
                add(E(f'adr.w r{rt}, {u}imm', f'adr.w r{rt}, #{u}8', 'pcrel', [(10, 11), (16, 24), (28, 31)]))
                for rt2 in (0, 7, 12):
                    if rt2 != rt:
                        add(E(f'ldrd r{rt}, r{rt2}, [pc, {u}imm]', f'ldrd r{rt}, r{rt2}, [pc, #{u}8]', 'pcrel', [(16, 24)]))
    return r


# branches are placed by the analyses themselves: (name, bytes for a displacement in bytes, condition)
def b_a64(disp):
    return (0x14000000 | (disp >> 2) & 0x3ffffff).to_bytes(4, 'little')


def b_a32(disp, cond=14):
    return (cond << 28 | 0x0a000000 | ((disp - 8) >> 2) & 0xffffff).to_bytes(4, 'little')


def b_t16(disp):
    return (0xe000 | ((disp - 4) >> 1) & 0x7ff).to_bytes(2, 'little')


def bcc_t16(disp, cond):
    return (0xd000 | cond << 8 | ((disp - 4) >> 1) & 0xff).to_bytes(2, 'little')


def b_t32(disp):
    d = disp - 4
    s = (d >> 24) & 1
    i1, i2 = (d >> 23) & 1, (d >> 22) & 1
    j1, j2 = 1 ^ i1 ^ s, 1 ^ i2 ^ s
    h1 = 0xf000 | s << 10 | (d >> 12) & 0x3ff
    h2 = 0x9000 | j1 << 13 | j2 << 11 | (d >> 1) & 0x7ff
    return h1.to_bytes(2, 'little') + h2.to_bytes(2, 'little')


def bcc_t32(disp, cond):
    d = disp - 4
    s = (d >> 20) & 1
    j2, j1 = (d >> 19) & 1, (d >> 18) & 1
    h1 = 0xf000 | s << 10 | cond << 6 | (d >> 12) & 0x3f
    h2 = 0x8000 | j1 << 13 | j2 << 11 | (d >> 1) & 0x7ff
    return h1.to_bytes(2, 'little') + h2.to_bytes(2, 'little')


BRANCHES = {
    'aarch64': {'b': (b_a64, 4, None)},
    'armv7': {'b': (b_a32, 4, None), 'beq': (lambda d: b_a32(d, 0), 4, 'eq'), 'bgt': (lambda d: b_a32(d, 12), 4, 'gt')},
    'thumb': {'b': (b_t16, 2, None), 'b.w': (b_t32, 4, None), 'beq': (lambda d: bcc_t16(d, 0), 2, 'eq'),
              'bne.w': (lambda d: bcc_t32(d, 1), 4, 'ne')},
}
BR_DISPS = {'aarch64': sorted({0x1000, -0x1000, 0x7fffffc, -0x8000000} | set(range(-60, 64, 4)) | set(range(0x100000 - 96, 0x100000 + 32, 4))),
            'armv7': sorted({0x1000, -0x1000, 0x2000000 + 4, -0x2000000 + 8} | set(range(-60, 64, 4)) | set(range(4096 - 96, 4096 + 32, 4))),
            'thumb': sorted({200, -200} | set(range(-60, 62, 2)))}
BR_DISPS_W = {'thumb': list(range(4096 - 96, 4096 + 32, 2))}  # only for the wide unconditional form
LISTS = {'aarch64': lambda: more('aarch64', a64()), 'armv7': lambda: more('armv7', a32()), 'thumb': lambda: more('thumb', t32())}


# x86: (name, Intel syntax or raw bytes, class); addresses relative to the instruction become unknowns
def x64():
    r = []
    for a in ['push rbp', 'push rbx', 'push r12', 'mov rbp, rsp', 'sub rsp, 0x28', 'sub rsp, 0x1000', 'and rsp, -64', 'mov [rsp+8], rdi',
              'mov [rsp+0x18], rcx', 'mov rax, rcx', 'mov eax, ecx', 'xor eax, eax', 'mov al, cl', 'mov ah, ch', 'mov ax, cx', 'lea rax, [rsp+8]',
              'movaps [rsp+0x10], xmm0', 'test al, al', 'nop', 'endbr64', 'cmovne rax, rcx', 'mov rcx, rdx', 'mov r10, rdi', 'mov r11, r10',
              'xor r11d, r11d', 'setne cl', 'cpuid', 'rep stosq', 'mov rax, fs:[0x28]', 'mov rdi, rsp', 'mov rax, [rax]', 'add rax, rcx', 'mov r12d, 5',
              'xchg rax, rcx', 'push rax', 'pop rax', 'mov rax, [rsi+rax*8]', 'bswap eax', 'movabs rcx, 0x1122334455667788', 'mov rsi, rdi',
              'vmovaps [rsp], ymm1', 'mov [rsp], r9', 'sub rsp, rax', 'mov rsp, rbp', 'rdtsc', 'mov edx, eax', 'movzx edx, al', 'sbb eax, eax', 'xabort 1',
              'mov cx, dx', 'mov r9w, 5', 'movzx cx, dl', 'pop cx', 'mov ch, dl', 'mov r10d, r9d', 'lea ecx, [rdx+1]', 'mov rbx, rsi', 'movzx ecx, dx']:
        r.append((a, a, 'pi'))
    for a in ['lea rax, [rip+8]', 'lea rcx, [rip+8]', 'lea r12, [rip+8]', 'mov rax, [rip+8]', 'mov rdx, [rip+8]', 'mov r15, [rip+8]', 'mov [rip+8], rax', 'mov [rip+8], r10',
              'cmp byte ptr [rip+8], 0', 'cmp rax, [rip+8]', 'cmp rsp, [rip+8]', 'movaps xmm0, [rip+8]', 'add rax, [rip+8]', 'mov eax, [rip+8]',
              'mov al, [rip+8]', 'mov cl, [rip+8]', 'movzx ecx, byte ptr [rip+8]', 'inc qword ptr [rip+8]', 'mov qword ptr [rip+8], 7', 'push qword ptr [rip+8]',
              'xchg rax, [rip+8]', 'cmovne rax, [rip+8]', 'movss [rip+8], xmm3', 'vmovaps ymm0, [rip+8]', 'lock inc dword ptr [rip+8]', 'imul rdx, [rip+8], 10',
              'movsx r11, word ptr [rip+8]', 'bt dword ptr [rip+8], ecx', 'mov eax, [eip+8]', 'mul qword ptr [rip+8]', 'pop qword ptr [rip+8]']:
        r.append((a.replace('+8', '+imm'), a, 'pcrel'))
    for a in ['ret', 'ret 8', 'call rax', 'jmp rax', 'call [rip+8]', 'jmp [rip+8]', 'int3', 'ud2', 'syscall', 'iretq', 'int 0x80', 'jmp [rax]', 'sysretq']:
        r.append((a, a, 'ctl'))
    for n, h in [('call', 'e8fb000000'), ('call next', 'e800000000'), ('jmp short', 'eb1e'), ('jmp near', 'e9fb1f0000'), ('loop', 'e20e'), ('jrcxz', 'e30e'),
                 ('xbegin', 'c7f80a000000'), ('loopne', 'e00e'), ('jecxz', '67e30e'), ('jmp back', 'ebfe'), ('jmp next', 'eb00')]:
        r.append((n, 'raw:' + h, 'ctl'))
    for h in ['06', 'ffff', 'f0', 'c5', '0f0b'[:2] + '04', '62']:
        r.append(('undecodable ' + h, 'raw:' + h, 'bad'))
    r += [('je short', 'raw:7410', 'jcc'), ('jg short', 'raw:7f10', 'jcc'), ('jne near', 'raw:0f8500010000', 'jcc'), ('jb near', 'raw:0f8200010000', 'jcc')]
    return r


def x32():
    r = []
    for a in ['push ebp', 'push ebx', 'push esi', 'push edi', 'mov ebp, esp', 'sub esp, 0x14', 'and esp, -16', 'mov [esp+4], ecx', 'mov eax, ecx', 'xor eax, eax',
              'lea eax, [esp+8]', 'nop', 'mov eax, [ebp+8]', 'mov edx, [esp+8]', 'movaps [esp], xmm0', 'fld dword ptr [esp]', 'mov eax, gs:[0x14]', 'endbr32',
              'pop eax', 'pop ecx', 'mov ebx, eax', 'mov eax, [0x12345678]', 'add ebx, 0x1000', 'cpuid', 'mov al, cl']:
        r.append((a, a, 'pi'))
    for g in ['eax', 'ecx', 'edx', 'ebx', 'esi', 'edi', 'ebp']:
        r.append((f'pop {g} ', f'pop {g}', 'pop'))
    r.append(('call next', 'raw:e800000000', 'callnext'))
    r.append(('call16 next', 'raw:66e80000', 'ctl'))
    r.append(('cs call next', 'raw:2ee800000000', 'callnext'))
    r.append(('ds pop edx', 'raw:3e5a', 'pop'))
    r.append(('pop edx long', 'raw:8fc2', 'pop'))
    r.append(('pop mem', 'pop dword ptr [eax]', 'pi'))
    r.append(('pop ax', 'pop ax', 'pi'))
    for a in ['ret', 'ret 8', 'call eax', 'jmp eax', 'int3', 'ud2', 'iretd', 'int 0x80', 'jmp [eax]',
              'sysenter', 'call [eax]', 'call [0x1234]']:
        r.append((a, a, 'ctl'))
    for n, h in [('call', 'e8fb000000'), ('jmp short', 'eb1e'), ('jmp near', 'e9fb1f0000'), ('loop', 'e20e'), ('jecxz', 'e30e'),
                 ('xbegin', 'c7f80a000000'), ('jcxz', '67e30e'), ('jmp back', 'ebfe'), ('jmp next', 'eb00'), ('call +1', 'e801000000')]:
        r.append((n, 'raw:' + h, 'ctl'))
    for h in ['ffff', 'f0', '0f04', '62']:
        r.append(('undecodable ' + h, 'raw:' + h, 'bad'))
    r += [('je short', 'raw:7410', 'jcc'), ('jne near', 'raw:0f8500010000', 'jcc')]
    return r


X86LISTS = {'x86_64': x64, 'i686': x32}
