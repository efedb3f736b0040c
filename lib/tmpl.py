"""Thunk templates as the analyses see them: an abstract prologue, the real assembly block, a tail.

The assembly block is taken from the MIR of the thunk template (template string and const operands)
and assembled with the toolchain's own LLVM for a given register choice and address residue, so it
is always the block of the current tree.
"""
import hashlib, json, os, re, subprocess
import build
from values import *
from interp import AnalysisError

REGS = {
    'x86_64': ['rax', 'rcx', 'rdx', 'rbx', 'rsi', 'rdi'] + [f'r{i}' for i in range(8, 16)],
    'i686': ['eax', 'ecx', 'edx', 'ebx', 'edi'],
    'aarch64': [f'x{i}' for i in list(range(0, 18)) + list(range(20, 29))],
    'armv7': [f'r{i}' for i in list(range(0, 6)) + [7, 8, 9, 10, 12]] + ['lr'],
    'thumb': [f'r{i}' for i in [0, 1, 2, 3, 4, 5, 8, 9, 10, 12]] + ['lr'],
}
LLVM_TRIPLE = {'x86_64': 'x86_64-unknown-linux-gnu', 'i686': 'i686-unknown-linux-gnu',
               'aarch64': 'aarch64-unknown-linux-gnu', 'armv7': 'armv7-unknown-linux-gnueabihf',
               'thumb': 'thumbv7-unknown-linux-gnueabihf'}


def find_asm(m, inst):
    """The asm terminator of a thunk template: the first one reachable from it that has an output."""
    seen = {inst}
    todo = [inst]
    while todo:
        i = todo.pop(0)
        b = m.insts[i].get('body')
        if not b:
            continue
        for bl in b['blocks']:
            t = bl['t']
            if t['k'] == 'asm' and any(o[0] in ('out', 'inout') for o in t['ops']):
                return t
            if t['k'] == 'call':
                f = t['f'].get('fn')
                if f is not None and f not in seen and len(seen) < 40:
                    seen.add(f)
                    todo.append(f)
    return None


def out_count(term):
    return sum(1 for o in term['ops'] if o[0] in ('out', 'inout', 'lateout'))


def render(term, regs):
    regs = list(regs)
    ri = {}
    for i, o in enumerate(term['ops']):
        if o[0] == 'const':
            ri[i] = str(int(o[1]['s']['i']))
        elif o[0] in ('out', 'lateout'):
            ri[i] = None
        else:
            raise AnalysisError(f'assembly operand {o[0]}')
    outs = [i for i in ri if ri[i] is None]
    txt = ''
    for p in term['tpl']:
        if isinstance(p, str):
            txt += p.replace('$', '$$').replace('{', '${:-}{') if False else p.replace('$', '$$')
        else:
            i, mod = p
            if ri[i] is not None:
                txt += ri[i]
            else:
                txt += '${%d%s}' % (outs.index(i), ':' + mod if mod else '')
    return txt, [regs[k] for k in range(len(outs))]


def tool(name):
    return os.path.join(build.sysroot(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin', name)


_mem = {}


def assemble(arch, term, regs, residue):
    """(bytes, [(offset, size, text)]) of the asm block placed at an address = residue mod 16."""
    key = json.dumps([arch, term['tpl'], [o[:2] for o in term['ops']], term['opt'], list(regs), residue, 3])
    h = hashlib.sha256(key.encode()).hexdigest()[:20]
    if h in _mem:
        return _mem[h]
    path = os.path.join(build.TARGET, 'cache', 'asm-' + h + '.json')
    if os.path.exists(path):
        with open(path) as f:
            r = json.load(f)
        _mem[h] = (bytes.fromhex(r[0]), [tuple(x) for x in r[1]])
        return _mem[h]
    body, rs = render(term, regs)
    w = 64 if arch in ('x86_64', 'aarch64') else 32
    intel = arch in ('x86_64', 'i686') and 'ATT_SYNTAX' not in term['opt']
    skip = f'.balign 16\n.skip {residue}\n' if residue else '.balign 16\n'
    txt = skip + '.globl vp_start\nvp_start:\n' + body + '\n.globl vp_end\nvp_end:\n'
    esc = ''.join(c if c.isprintable() and c not in '"\\' else '\\%02X' % ord(c) for c in txt)
    rty = f'i{w}' if len(rs) == 1 else '{ ' + ', '.join([f'i{w}'] * len(rs)) + ' }'
    if not rs:
        rty = 'void'
    cons = ','.join('={%s}' % r for r in rs)
    tgt = 'target triple = "%s"\n' % LLVM_TRIPLE[arch]
    ir = tgt + f'define void @f() naked nounwind {{\n  %r = call {rty} asm sideeffect {"inteldialect " if intel else ""}"{esc}", "{cons}"()\n  unreachable\n}}\n'
    tmp = path + f'.{os.getpid()}'
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        p = subprocess.run([tool('llc'), '-filetype=obj', '-o', tmp + '.o', '-'], input=ir, text=True, capture_output=True)
        if p.returncode:
            raise AnalysisError('the assembly block does not assemble: ' + p.stderr[:500])
        args = ['-d', '-t', '--no-show-raw-insn', '-z', '-s']
        syms = subprocess.run([tool('llvm-nm'), tmp + '.o'], text=True, capture_output=True).stdout
        pos = {l.split()[-1]: int(l.split()[0], 16) for l in syms.splitlines() if len(l.split()) == 3}
        if arch == 'thumb':
            pos = {k: v & ~1 for k, v in pos.items()}
        a, b = pos['vp_start'], pos['vp_end']
        raw = subprocess.run([tool('llvm-objcopy'), '-O', 'binary', '--only-section=.text', tmp + '.o', tmp + '.bin'],
                             capture_output=True, text=True)
        if raw.returncode:
            raise AnalysisError('objcopy: ' + raw.stderr)
        data = open(tmp + '.bin', 'rb').read()[a:b]
    finally:
        for x in ('.o', '.bin'):
            if os.path.exists(tmp + x):
                os.unlink(tmp + x)
    with open(tmp, 'w') as f:
        json.dump([data.hex(), []], f)
    os.replace(tmp, path)
    _mem[h] = (data, [])
    return _mem[h]
