"""Models of the ARM disassembler library over abstract instruction streams.

What the library answers about an encoding comes from lib/facts/capstone.json (recorded once from
the pinned library version; operand fields that the streams leave symbolic do not influence it).
"""
import json, os, re
from values import *
from interp import *
from models import UNIT
import isa

_F = None


def facts():
    global _F
    if _F is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'facts/capstone.json')) as f:
            _F = json.load(f)
    return _F


def item(mode, hx, fact, cls, name, sym=()):
    """A stream item from one encoding; `sym` bit ranges become unknowns."""
    b = bytes.fromhex(hx)
    n = len(b)
    word = int.from_bytes(b, 'little')
    bits = [(word >> i) & 1 for i in range(8 * n)]
    for k, (lo, hi) in enumerate(sym):
        at = Atom(f'imm{k}', 0, (1 << (hi - lo)) - 1, ('imm', k))
        for i in range(lo, hi):
            bits[i] = (at, i - lo)
    v = from_bits(bits) if sym else word
    return {'size': n, 'val': v, 'word': word, 'fact': fact, 'cls': cls, 'name': name, 'mode': mode}


def entries(mode, ext=False):
    """Stream fragments (name, class, [items]) of an architecture; ext: also those judged on their own only."""
    F = facts()
    out = []
    for e in F['entries']:
        if e['mode'] != mode or e.get('ext') and not ext:
            continue
        ins = F['facts'][mode][''.join(e['enc'])]
        cl = e['part'] if e['cls'] == 'seq' else [e['cls']]
        items = []
        for i, h in enumerate(e['enc']):
            items.append(item(mode, h, ins[i] if i < len(ins) else None, cl[i], e['name'], e['sym'] if len(e['enc']) == 1 else ()))
        out.append((e['name'], e['cls'] if e['cls'] != 'seq' else cl[-1], items))
    return out


def branch(mode, kind, disp):
    f, size, cond = isa.BRANCHES[mode][kind]
    h = f(disp).hex()
    fact = facts()['facts'][mode].get(h)
    if fact is None:
        raise AnalysisError(f'no recorded facts for {mode} {h}')
    it = item(mode, h, fact[0], 'br' if cond is None else 'ctl', f'{kind} {disp:+#x}')
    it['disp'] = disp
    return it


def branch_to(mode, kind, to):
    """A branch to the to-th item of its prologue (placed by the scenario)."""
    return {'size': isa.BRANCHES[mode][kind][1], 'to': to, 'kind': kind}


def gap(mode, size):
    """Bytes that are jumped over."""
    return {'size': size, 'val': Opaque('gap', None, size), 'word': None, 'fact': None, 'cls': 'bad', 'name': 'gap', 'mode': mode}


def block_item(mode, t, off):
    """The instruction at an offset of the assembly block."""
    c = t['code'][off - t['block']:]
    F = facts()['facts'][mode]
    for n in ((4,) if mode != 'thumb' else (2, 4)):
        h = c[:n].hex()
        if h in F and F[h] and F[h][0]['len'] == n:
            return item(mode, h, F[h][0], 'block', 'asm block')
    # data words and padding are never reached by a linear scan that stops at the closure load
    return None


def decode_at(m, t, off):
    for q, s, f in t['items']:
        if q == off:
            return f
    if t['block'] <= off < t['end']:
        return block_item(m.arch, t, off)
    m.ev('decode_misaligned', off)
    return None


def install(m):
    m.nodrop = 'capstone_git::'

    def obj_with(v, size, kind='const'):
        o = m.new_obj(kind, 'cs', None)
        if size:
            o.ch[0] = (size, v)
        return Ptr(o, 0)

    def at(v, tag):
        o, off = m.deref(v)
        c = o.ch.get(off)
        if c is None or not isinstance(c[1], Opaque) or c[1].tag != tag:
            raise AnalysisError(f'not a {tag}')
        return c[1].d

    def opaque(it, tag, d):
        return Opaque(tag, d, m.size(it['output']))

    def ok(it, tag, d):
        f = m.field(it['output'], 0, 0)[1]
        return m.make_enum(it['output'], 'Ok', [Opaque(tag, d, m.size(f))])

    def slice_of(it, vals):
        ety = m.types[m.types[it['output']]['to']]['elem']
        es = m.size(ety)
        o = m.new_obj('const', 'slice', None)
        for i, v in enumerate(vals):
            o.ch[i * es] = (es, v)
        return Blob(2 * m.P, [(0, m.P, Ptr(o, 0) if vals else es), (m.P, m.P, len(vals))])

    def builder(m, it, args, tys):
        d = {'mode': None, 'detail': False}
        return opaque(it, 'builder', d) if m.size(it['output']) else UNIT

    def b_mode(m, it, args, tys):
        d = dict(args[0].d)
        sz = m.size(it['inputs'][1])
        ty = m.types[it['inputs'][1]]
        v = m.num(args[1], sz) if sz else 0
        d['mode'] = next((x['name'] for x in ty['variants'] if int(x['discr'] or 0) == v), None)
        return opaque(it, 'builder', d)

    def b_detail(m, it, args, tys):
        d = dict(args[0].d)
        d['detail'] = m.truth(args[1])
        return opaque(it, 'builder', d)

    def b_same(m, it, args, tys):
        return Opaque('builder', dict(args[0].d), m.size(it['output']))

    def build(m, it, args, tys):
        d = args[0].d
        m.ev('disassembler', d['mode'], d['detail'])
        return ok(it, 'cs', d)

    def fat(v):
        p = v.f[0][2]
        n = m.num(next(x for q, s, x in v.f if q == m.P), m.P)
        return p, n

    def start(args):
        p, n = fat(args[1])
        t, off = m.scn.tmpl_of(p)
        if t is None:
            if n == 0:
                return {'t': None, 'start': 0, 'len': 0, 'addr': m.num(args[2], 8), 'pos': 0}
            raise AnalysisError(f'disassembling memory that is not the thunk template: {p}')
        if off is None:
            # a guessed branch target in the middle of nowhere: nothing decodes
            return {'t': None, 'start': 0, 'len': 0, 'addr': m.num(args[2], 8), 'pos': 0}
        return {'t': t, 'start': off, 'len': n, 'addr': m.num(args[2], 8), 'pos': 0}

    def disasm_iter(m, it, args, tys):
        d = start(args)
        cs = at(args[0], 'cs')
        want = {'thumb': 'Thumb', 'armv7': 'Arm', 'aarch64': 'Arm'}[m.arch]
        if cs['mode'] is not None and cs['mode'] != want:
            m.ev('wrong_mode', cs['mode'])
            raise AnalysisError('disassembler opened for another instruction set')
        d['detail'] = cs['detail']
        return ok(it, 'iter', d)

    def nxt(m, it, args, tys):
        d = at(args[0], 'iter')
        f = None
        if d['pos'] < d['len']:
            off = d['start'] + d['pos']
            f = decode_at(m, d['t'], off)
        if f is None or f['fact'] is None or d['pos'] + f['size'] > d['len']:
            return m.make_enum(it['output'], 'None')
        x = dict(f)
        x['off'] = off
        x['addr'] = add(64, d['addr'], d['pos'])
        d['pos'] += f['size']
        m.ev('decoded', off)
        return m.make_enum(it['output'], 'Some', [Opaque('insn', x, m.size(m.field(it['output'], 1, 0)[1]))])

    def reset(m, it, args, tys):
        d = at(args[0], 'iter')
        e = start(args)
        e['detail'] = d['detail']
        d.clear()
        d.update(e)
        return UNIT

    def insn(v):
        return at(v, 'insn')

    def i_bytes(m, it, args, tys):
        x = insn(args[0])
        return Blob(2 * m.P, [(0, m.P, obj_with(x['val'], x['size'])), (m.P, m.P, x['size'])])

    def detail(m, it, args, tys):
        return ok(it, 'detail', insn(args[1]))

    def det(v):
        return at(v, 'detail')

    def arch_detail(m, it, args, tys):
        return Opaque('archdetail', det(args[0]), m.size(it['output']))

    def ad_arm(m, it, args, tys):
        d = at(args[0], 'archdetail')
        pty = m.field(it['output'], 1, 0)[1]
        to = m.types[pty]['to']
        return m.make_enum(it['output'], 'Some', [obj_with(Opaque('armdetail', d, m.size(to)), m.size(to))])

    def armd(v):
        return at(v, 'armdetail')

    def operands(m, it, args, tys):
        d = armd(args[0])
        return Opaque('ops', {'d': d, 'i': 0}, m.size(it['output']))

    def op_next(m, it, args, tys):
        st = at(args[0], 'ops')
        d = st['d']
        ops = d['fact']['ops']
        if st['i'] >= len(ops):
            return m.make_enum(it['output'], 'None')
        o = ops[st['i']]
        st['i'] += 1
        opty = m.field(it['output'], 1, 0)[1]
        tmp = m.new_obj('local', 'tmp', m.size(opty))
        t = m.types[opty]
        for i, f in enumerate(t['variants'][0]['fields']):
            off, fty = m.field(opty, 0, i)
            if f['name'] == 'op_type':
                k = o[0]
                if k == 'Imm':
                    v = o[1]
                    if d.get('disp') is not None:
                        v = add(32, trunc(d['addr'], 32), d['disp'])
                    else:
                        v &= 0xffffffff
                    m.store(tmp, off, m.size(fty), m.make_enum(fty, 'Imm', [v]))
                elif k == 'Reg':
                    m.store(tmp, off, m.size(fty), m.make_enum(fty, 'Reg', [o[1]]))
                elif k == 'Mem':
                    vi = next(j for j, v in enumerate(m.types[fty]['variants']) if v['name'] == 'Mem')
                    m.store(tmp, off, m.size(fty), m.make_enum(fty, 'Mem', [Opaque('mem', o, m.size(m.field(fty, vi, 0)[1]))]))
                else:
                    m.store(tmp, off, m.size(fty), m.make_enum(fty, 'Invalid'))
            elif f['name'] == 'vector_index':
                m.store(tmp, off, m.size(fty), m.make_enum(fty, 'None'))
            elif f['name'] == 'subtracted':
                m.store(tmp, off, 1, 0)
        return m.make_enum(it['output'], 'Some', [m.load(tmp, 0, m.size(opty))])

    def enum_eq(neg):
        def g(m, it, args, tys):
            ty = m.types[it['inputs'][0]].get('to')
            sz = m.size(ty)
            a = m.num(m.load(*m.deref(args[0]), sz), sz)
            b = m.num(m.load(*m.deref(args[1]), sz), sz)
            return int(m.eq(a, b, 8 * sz) != neg)
        return g

    def ident(m, it, args, tys):
        return args[0]

    M = {
        'Capstone::new': builder, 'CapstoneBuilder::arm64': builder, 'CapstoneBuilder::arm': builder,
        'ArchCapstoneBuilder::mode': b_mode, 'ArchCapstoneBuilder::detail': b_detail, 'ArchCapstoneBuilder::build': build,
        'ArchCapstoneBuilder::endian': b_same, 'ArchCapstoneBuilder::syntax': b_same, 'ArchCapstoneBuilder::extra_mode': b_same,
        'Capstone::disasm_iter': disasm_iter, 'DisasmIter::next': nxt, 'DisasmIter::reset': reset,
        'Insn::address': lambda m, it, a, t: insn(a[0])['addr'],
        'Insn::bytes': i_bytes,
        'Insn::len': lambda m, it, a, t: insn(a[0])['size'],
        'Insn::id': lambda m, it, a, t: insn(a[0])['fact']['id'],
        'Capstone::insn_detail': detail,
        'InsnDetail::groups': lambda m, it, a, t: slice_of(it, det(a[0])['fact']['groups']),
        'InsnDetail::regs_read': lambda m, it, a, t: slice_of(it, det(a[0])['fact']['rr']),
        'InsnDetail::regs_write': lambda m, it, a, t: slice_of(it, det(a[0])['fact']['rw']),
        'InsnDetail::arch_detail': arch_detail, 'ArchDetail::arm': ad_arm,
        'ArmInsnDetail::cc': lambda m, it, a, t: armd(a[0])['fact']['cc'],
        'ArmInsnDetail::operands': operands, 'ArmOperandIterator::next': op_next,
        'arm_insn::from': ident, 'arm64_insn::from': ident, 'u32::from': ident,
        '*::eq': enum_eq(False), '*::ne': enum_eq(True),
    }
    for it in m.insts:
        p = it['path']
        if 'capstone' not in p or it.get('body') is not None:
            continue
        q = re.sub(r"::<(?!impl )[^<>]*>", '', p)
        mm = re.match(r"^<(.+?) as .*>::(\w+)$", q)
        if mm:
            ty, name = re.sub(r'<.*', '', mm.group(1)).rsplit('::', 1)[-1], mm.group(2)
        else:
            q = re.sub(r'<impl ([^>]*)>', lambda k: k.group(1).rsplit('::', 1)[-1], q)
            parts = q.split('::')
            ty, name = parts[-2] if len(parts) > 1 else '', parts[-1]
        f = M.get(f'{ty}::{name}') or M.get(f'*::{name}')
        if f is not None:
            m.models[p] = f
