"""Models of the x86 decoder and encoder, over abstract instruction streams."""
import json, os
from values import *
from interp import *
from models import UNIT

CR = 'closure_ffi_iced_x86::'


def ins(size, **f):
    """An abstract prologue instruction."""
    d = {'size': size, 'flow': 'Next', 'invalid': False, 'jcc': False, 'iprel': False, 'code': None, 'op0': 'None',
         'used': [], 'cls': 'plain', 'target': None, 'disp': None}
    d.update(f)
    d['val'] = Opaque('code', d, size)
    return d


_F = None


def entries(mode):
    """[(name, class, instruction)] recorded for an architecture (lib/facts/iced.json)."""
    global _F
    if _F is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'facts/iced.json')) as f:
            _F = json.load(f)
    out = []
    for d in _F:
        if d['mode'] == mode:
            i = ins(d['len'], flow=d['flow'], invalid=d['invalid'], jcc=d['jcc'], iprel=d['iprel'], code=d['code'], op0=d['op0'],
                    used=[tuple(u) for u in d['used']], cls=d['cls'], name=d['name'], near=d['near'] if d['near'] > -60000 else None,
                    mbase=d['base'], mindex=d['index'], hex=d['hex'])
            if d['iprel']:
                i['dispsize'] = d['dispsize']
                i['eip'] = d['base'] == 'EIP'
            out.append((d['name'], d['cls'], i))
    return out


def place(m, base, d, off, offs):
    """The instruction at an offset of the template; `to` names the item a branch goes to."""
    if d.get('near') is None and not (d['iprel'] and d['disp'] is None) and 'to' not in d:
        return d
    d = dict(d)
    if 'to' in d:
        d['target'] = offs[d['to']]
    elif d.get('near') is not None:
        d['target'] = off + d['near']
    if d['iprel'] and d['disp'] is None:
        at = Atom('rel%d' % off, 0, (1 << 32) - 1, ('disp', off))
        v = mk(64, 0, {at: 1})
        d['disp'] = v if d.get('eip') else add(64, zext(add(m.W, base, off + d['size']), 64), sub(64, v, 1 << 31))
    d['val'] = Opaque('code', d, d['size'])
    return d


def block_ins(t, off, arch):
    """Facts about the instruction at offset `off` inside the assembly block."""
    c = t['code']
    i = off - t['block']
    b = c[i:]
    def d32(p):
        return int.from_bytes(b[p:p + 4], 'little', signed=True)
    if arch == 'x86_64':
        if b[0] in (0x48, 0x4C) and b[1] == 0x8B and b[2] & 0xC7 == 5:
            r = ((b[2] >> 3) & 7) + (8 if b[0] & 4 else 0)
            return ins(7, iprel=True, disp=off + 7 + d32(3), op0=R64[r], used=[(R64[r], 'Write')], cls='block')
        if b[0] in (0x48, 0x4C) and b[1] == 0x8D and b[2] & 0xC7 == 5:
            r = ((b[2] >> 3) & 7) + (8 if b[0] & 4 else 0)
            return ins(7, iprel=True, disp=off + 7 + d32(3), op0=R64[r], used=[(R64[r], 'Write')], cls='block')
        if b[0] == 0xFF and b[1] == 0x25:
            return ins(6, iprel=True, disp=off + 6 + d32(2), flow='IndirectBranch', cls='block')
    if b[0] in range(0xB8, 0xC0):
        return ins(5, op0=R32[b[0] & 7], used=[(R32[b[0] & 7], 'Write')], cls='block')
    if b[0] == 0xFF and b[1] & 0xF8 == 0xE0:
        return ins(2, flow='IndirectBranch', cls='block')
    if b[0] == 0x90:
        return ins(1, cls='block')
    if b[0] == 0xCC:
        return ins(1, flow='Interrupt', cls='block')
    if b[0] == 0xF0:
        return ins(1, invalid=True, cls='block')
    raise AnalysisError(f'unknown instruction in the assembly block: {b[:8].hex()}')


R64 = ['RAX', 'RCX', 'RDX', 'RBX', 'RSP', 'RBP', 'RSI', 'RDI'] + [f'R{i}' for i in range(8, 16)]
R32 = ['EAX', 'ECX', 'EDX', 'EBX', 'ESP', 'EBP', 'ESI', 'EDI'] + [f'R{i}D' for i in range(8, 16)]
R16 = ['AX', 'CX', 'DX', 'BX', 'SP', 'BP', 'SI', 'DI'] + [f'R{i}W' for i in range(8, 16)]
R8 = ['AL', 'CL', 'DL', 'BL', 'SPL', 'BPL', 'SIL', 'DIL'] + [f'R{i}L' for i in range(8, 16)]
R8H = ['AH', 'CH', 'DH', 'BH']


def reg_info(name):
    """(full index, size in bytes) for a general purpose register, or None."""
    for sz, t in ((8, R64), (4, R32), (2, R16), (1, R8), (1, R8H)):
        if name in t:
            return t.index(name), sz
    return None


class X86:
    def __init__(self, m):
        self.m = m
        self.enums = {}

    def enum_ty(self, suffix):
        t = self.enums.get(suffix)
        if t is None:
            for i, ty in enumerate(self.m.types):
                if ty['k'] == 'adt' and ty['adt'] == 'enum' and ty['def'] in (CR + suffix, CR + suffix.lower() + '::' + suffix) or \
                        (ty['k'] == 'adt' and ty['adt'] == 'enum' and ty['def'].startswith(CR) and ty['def'].endswith('::' + suffix)):
                    t = self.enums[suffix] = i
                    break
            else:
                raise AnalysisError(f'no type {suffix}')
        return t

    def enum(self, suffix, name):
        return self.m.make_enum(self.enum_ty(suffix), name)

    def name_of(self, suffix, v):
        t = self.m.types[self.enum_ty(suffix)]
        sz = self.m.size(self.enum_ty(suffix))
        n = self.m.num(v, sz)
        if not isinstance(n, int):
            raise AnalysisError(f'symbolic {suffix}')
        for x in t['variants']:
            if int(x['discr']) == n:
                return x['name']
        raise AnalysisError(f'bad {suffix} {n}')


def fix_off(m, s, t, v):
    """Absolute 64-bit address of a template offset or an already absolute form."""
    if isinstance(v, int):
        return zext(add(m.W, add(m.W, t['obj'].base, t['bias']), v), 64)
    return v


def decode_at(m, t, off):
    for q, s, f in t['items']:
        if q == off:
            return f
    if t['block'] <= off < t['end']:
        return block_ins(t, off, m.arch)
    m.ev('decode_misaligned', off)
    return ins(1, invalid=True)


def install(m):
    m.nodrop = CR
    x = X86(m)
    m.x86 = x

    def self_ins(v):
        o, off = m.deref(v)
        sz = x_ins_size()
        r = m.load(o, off, sz)
        if isinstance(r, Opaque) and r.tag == 'ins':
            return r.d
        raise AnalysisError(f'not an instruction: {r}')

    def x_ins_size():
        for i, ty in enumerate(m.types):
            if ty['k'] == 'adt' and ty['def'].endswith('::Instruction') and ty['def'].startswith(CR):
                return m.size(i)
        raise AnalysisError('no Instruction type')

    def put_ins(v, d):
        o, off = m.deref(v)
        sz = x_ins_size()
        m.store(o, off, sz, Opaque('ins', d, sz))

    def dec_new(m, it, args, tys):
        names = it['path'].rsplit('::', 1)[-1]
        bits = m.num(args[0], 4)
        sl = args[1]
        p, n = sl.f[0][2], m.num(next(v for q, s, v in sl.f if q == m.P), m.P)
        ip = m.num(args[2], 8) if names.startswith('with_ip') else 0
        t, off = m.scn.tmpl_of(p)
        if t is None:
            raise AnalysisError(f'decoding memory that is not the thunk template: {p}')
        d = {'t': t, 'start': off, 'len': n, 'ip': ip, 'pos': 0, 'bits': bits}
        m.ev('decoder', bits, off, n, ip, t)
        return Opaque('decoder', d, m.size(it['output']))

    def dec_self(v):
        o, off = m.deref(v)
        for co, (cs, cv) in o.ch.items():
            if co == off and isinstance(cv, Opaque) and cv.tag == 'decoder':
                # models mutate a private copy: the object is owned by its place
                return cv.d
        raise AnalysisError('not a decoder')

    def can_decode(m, it, args, tys):
        d = dec_self(args[0])
        return int(d['pos'] < d['len'])

    def do_decode(d):
        off = d['start'] + d['pos']
        f = decode_at(m, d['t'], off)
        size = f['size']
        if d['pos'] + size > d['len']:
            f = ins(max(1, d['len'] - d['pos']), invalid=True)
            size = f['size']
        r = dict(f)
        r['len'] = size
        r['off'] = off
        r['t'] = d['t']
        r['ip'] = add(64, d['ip'], d['pos'])
        d['pos'] += size
        return r

    def decode_out(m, it, args, tys):
        put_ins(args[1], do_decode(dec_self(args[0])))
        return UNIT

    def decode(m, it, args, tys):
        return Opaque('ins', do_decode(dec_self(args[0])), m.size(it['output']))

    def set_position(m, it, args, tys):
        d = dec_self(args[0])
        n = m.num(args[1], m.P)
        out = m.types[it['output']]
        if not isinstance(n, int):
            raise AnalysisError('symbolic decoder position')
        if n > d['len']:
            return m.make_enum(it['output'], 'Err', [Opaque('err', None, m.size(m.field(it['output'], 1, 0)[1]))])
        d['pos'] = n
        return m.make_enum(it['output'], 'Ok', [UNIT])

    def getter(f):
        def g(m, it, args, tys):
            return f(self_ins(args[0]), it)
        return g

    def abs_target(d, v):
        return fix_off(m, None, d['t'], v)

    def near_target(d):
        if d['target'] is None:
            return 0
        return abs_target(d, d['target'])

    def mem_disp(d):
        if d['disp'] is None:
            return 0
        return abs_target(d, d['disp'])

    def next_ip(d):
        return add(64, d['ip'], d['len'])

    def setter(key, conv):
        def g(m, it, args, tys):
            d = dict(self_ins(args[0]))
            d[key] = conv(args[1])
            d.setdefault('edits', ())
            d['edits'] = d['edits'] + ((key, d[key]),)
            put_ins(args[0], d)
            return UNIT
        return g

    def with2(m, it, args, tys):
        code = x.name_of('Code', args[0])
        reg = x.name_of('Register', args[1])
        sz = m.size(it['inputs'][2])
        imm = m.num(args[2], sz)
        out = m.types[it['output']]
        d = ins(0, cls='new', code=code, op0=reg)
        d['imm'] = imm
        d['imm_signed'] = bool(m.types[it['inputs'][2]].get('signed'))
        if code == 'Mov_r64_imm64':
            d['len'] = 10
            ok = reg in R64
        elif code == 'Mov_r32_imm32':
            d['len'] = 5 + (1 if reg in R32[8:] else 0)
            ok = reg in R32
        else:
            raise AnalysisError(f'construction of {code}')
        if not ok:
            return m.make_enum(it['output'], 'Err', [Opaque('err', None, m.size(m.field(it['output'], 1, 0)[1]))])
        isz = x_ins_size()
        return m.make_enum(it['output'], 'Ok', [Opaque('ins', d, isz)])

    def is_gpr(m, it, args, tys):
        return int(reg_info(x.name_of('Register', args[0])) is not None)

    def full_register(m, it, args, tys):
        n = x.name_of('Register', args[0])
        r = reg_info(n)
        return x.enum('Register', R64[r[0]] if r else n)

    def full_register32(m, it, args, tys):
        n = x.name_of('Register', args[0])
        r = reg_info(n)
        return x.enum('Register', R32[r[0]] if r else n)

    def reg_size(m, it, args, tys):
        n = x.name_of('Register', args[0])
        r = reg_info(n)
        if r:
            return r[1]
        if n.startswith('XMM'):
            return 16
        if n.startswith('YMM'):
            return 32
        return 8 if n in ('RIP', 'EIP') else 0

    def reg_number(m, it, args, tys):
        n = x.name_of('Register', args[0])
        r = reg_info(n)
        return r[0] if r else 0

    def reg_add(m, it, args, tys):
        ty = x.enum_ty('Register')
        sz = m.size(ty)
        a = m.num(args[0], sz)
        b = m.num(args[1], m.size(it['inputs'][1]))
        if not isinstance(b, int):
            raise AnalysisError('symbolic register number')
        return a + b

    def enum_eq(neg):
        def g(m, it, args, tys):
            ty = m.types[it['inputs'][0]].get('to')
            sz = m.size(ty)
            a = m.num(m.load(*m.deref(args[0]), sz), sz)
            b = m.num(m.load(*m.deref(args[1]), sz), sz)
            r = m.eq(a, b, 8 * sz)
            return int(r != neg)
        return g

    def info_new(m, it, args, tys):
        return Opaque('factory', None, m.size(it['output']))

    def info_of(m, it, args, tys):
        d = self_ins(args[1])
        o = m.new_obj('const', 'info', None)
        ty = m.types[it['output']].get('to')
        o.ch[0] = (m.size(ty), Opaque('info', d, m.size(ty)))
        return Ptr(o, 0)

    def used_registers(m, it, args, tys):
        o, off = m.deref(args[0])
        d = o.ch[off][1].d
        ety = m.types[m.types[it['output']]['to']]['elem']
        es = m.size(ety)
        arr = m.new_obj('const', 'used', None)
        for i, (r, a) in enumerate(d['used']):
            arr.ch[i * es] = (es, Opaque('used', (r, a), es))
        return Blob(2 * m.P, [(0, m.P, Ptr(arr, 0)), (m.P, m.P, len(d['used']))])

    def used_get(k):
        def g(m, it, args, tys):
            v = m.load(*m.deref(args[0]), m.size(m.types[it['inputs'][0]]['to']))
            return x.enum('Register', v.d[0]) if k == 0 else x.enum('OpAccess', v.d[1])
        return g

    def enc_new(m, it, args, tys):
        bits = m.num(args[0], 4)
        o = Opaque('encoder', {'buf': None, 'bits': bits}, None)
        out = m.types[it['output']]
        if out['name'].startswith('core::result') or out.get('def', '').endswith('Result'):
            fty = m.field(it['output'], 0, 0)[1]
            o.size = m.size(fty)
            return m.make_enum(it['output'], 'Ok', [o])
        o.size = m.size(it['output'])
        return o

    def enc_self(v):
        o, off = m.deref(v)
        for co, (cs, cv) in o.ch.items():
            if co == off and isinstance(cv, Opaque) and cv.tag == 'encoder':
                return cv.d
        raise AnalysisError('not an encoder')

    def enc_len(d):
        """Encoded size of an instruction, or None if it cannot be encoded."""
        if d['cls'] == 'new':
            return d['len']
        n = d['size']
        if d['iprel'] and d.get('base') not in (None, 'RIP', 'EIP'):
            i = reg_info(d['base'])
            if i is None:
                return None
            disp = d.get('disp64', mem_disp(d))
            if not isinstance(disp, int):
                return None
            disp = disp - (1 << 64) if disp >> 63 else disp
            if not -(1 << 31) <= disp < 1 << 31:
                return None
            # the decoder gives the operand an 8 byte displacement, which is encoded in 4 bytes
            sz = d.get('dispsize', 8)
            if sz == 0 and disp == 0:
                n -= 3 if i[0] in (5, 13) else 4
            elif sz == 1:
                n -= 3 if -128 <= disp < 128 else 0
            elif sz != i[1]:
                return None
            if i[0] in (4, 12):
                n += 1
            if i[0] >= 8 and not d.get('rex', True):
                n += 1
        return n

    def encode(m, it, args, tys):
        e = enc_self(args[0])
        d = self_ins(args[1])
        rip = m.num(args[2], 8)
        n = enc_len(d)
        e.setdefault('items', [])
        if n is None or (d.get('can_fail') and m.choose(2, 'encode')):
            return m.make_enum(it['output'], 'Err', [Opaque('err', None, m.size(m.field(it['output'], 1, 0)[1]))])
        code = dict(d)
        code['size'] = n
        code['enc_rip'] = rip
        push_bytes(m, e, n, Opaque('enc', code, n))
        return m.make_enum(it['output'], 'Ok', [n])

    def push_bytes(m, e, n, v):
        """Append n bytes to the encoder's buffer, kept as a list of chunks."""
        e['buf'] = (e['buf'] or []) + [(n, v)]

    def take_buffer(m, it, args, tys):
        e = enc_self(args[0])
        buf = e['buf'] or []
        e['buf'] = None
        total = sum(n for n, _ in buf)
        vty = it['output']
        if total == 0:
            return mkvec(vty, m, None, 0, 0)
        cap = max(64, 2 * total)
        o = m.new_obj('heap', len(m.objs), cap, 1)
        m.objs.append(o)
        m.ev('heap_alloc', o)
        p = 0
        for n, v in buf:
            o.ch[p] = (n, v)
            p += n
        return mkvec(vty, m, o, total, cap)

    def vec_fields(vty):
        """Offsets of (ptr, cap, len) inside Vec<u8>."""
        def scan(ty, off):
            t = m.types[ty]
            res = {}
            if t['k'] == 'adt' and t['adt'] == 'struct':
                for i, f in enumerate(t['variants'][0]['fields']):
                    o, fty = m.field(ty, 0, i)
                    if m.size(fty) == 0:
                        continue
                    if f['name'] == 'len':
                        res['len'] = off + o
                    elif f['name'] == 'cap':
                        res['cap'] = off + o
                    elif f['name'] in ('ptr', 'pointer') and m.size(fty) == m.P:
                        res['ptr'] = off + o
                    else:
                        res.update(scan(fty, off + o))
            return res
        r = scan(vty, 0)
        if set(r) != {'len', 'cap', 'ptr'}:
            raise AnalysisError(f'layout of Vec: {r}')
        return r

    def mkvec(vty, m, o, n, cap):
        f = vec_fields(vty)
        return Blob(m.size(vty), [(f['ptr'], m.P, Ptr(o, 0) if o is not None else 1), (f['len'], m.P, n), (f['cap'], m.P, cap)])

    def set_buffer(m, it, args, tys):
        e = enc_self(args[0])
        vty = it['inputs'][1]
        f = vec_fields(vty)
        tmp = m.new_obj('local', 'tmp', m.size(vty))
        m.store(tmp, 0, m.size(vty), args[1])
        n = m.num(m.load(tmp, f['len'], m.P), m.P)
        if not isinstance(n, int):
            raise AnalysisError('symbolic buffer length')
        if n == 0:
            e['buf'] = []
        else:
            v = m.load(*m.deref(m.load(tmp, f['ptr'], m.P)), n)
            parts = v.f if isinstance(v, Blob) else [(0, n, v)]
            parts = sorted(parts, key=lambda y: y[0])
            if sum(s for q, s, w in parts) != n:
                raise AnalysisError('uninitialised bytes in buffer')
            e['buf'] = [(s, w) for q, s, w in parts]
        p = m.load(tmp, f['ptr'], m.P)
        if isinstance(p, Ptr):
            m.ev('heap_free', p.obj)
            p.obj.freed = True
        return UNIT

    M = {
        'Decoder::with_ip': dec_new, 'Decoder::new': dec_new, 'Decoder::try_with_ip': None,
        'Decoder::can_decode': can_decode, 'Decoder::decode_out': decode_out, 'Decoder::decode': decode,
        'Decoder::position': lambda m, it, a, t: dec_self(a[0])['pos'],
        'Decoder::ip': lambda m, it, a, t: (lambda d: add(64, d['ip'], d['pos']))(dec_self(a[0])),
        'Decoder::max_position': lambda m, it, a, t: dec_self(a[0])['len'],
        'Decoder::set_position': set_position,
        'Instruction::default': lambda m, it, a, t: Opaque('ins', ins(0, cls='default', len=0, off=None), m.size(it['output'])),
        'Instruction::new': lambda m, it, a, t: Opaque('ins', ins(0, cls='default', len=0, off=None), m.size(it['output'])),
        'Instruction::is_invalid': getter(lambda d, it: int(d['invalid'])),
        'Instruction::flow_control': getter(lambda d, it: x.enum('FlowControl', d['flow'])),
        'Instruction::is_jcc_short_or_near': getter(lambda d, it: int(d['jcc'])),
        'Instruction::is_jcc_short': getter(lambda d, it: int(d['jcc'] and d['size'] == 2)),
        'Instruction::is_jcc_near': getter(lambda d, it: int(d['jcc'] and d['size'] != 2)),
        'Instruction::near_branch_target': getter(lambda d, it: near_target(d)),
        'Instruction::near_branch64': getter(lambda d, it: near_target(d)),
        'Instruction::near_branch32': getter(lambda d, it: trunc(near_target(d), 32)),
        'Instruction::is_ip_rel_memory_operand': getter(lambda d, it: int(d['iprel'] and d.get('base') in (None, 'RIP', 'EIP'))),
        'Instruction::memory_displacement64': getter(lambda d, it: d['disp64'] if 'disp64' in d else mem_disp(d)),
        'Instruction::ip_rel_memory_address': getter(lambda d, it: mem_disp(d)),
        'Instruction::len': getter(lambda d, it: d['len']),
        'Instruction::ip': getter(lambda d, it: d['ip']),
        'Instruction::ip32': getter(lambda d, it: trunc(d['ip'], 32)),
        'Instruction::next_ip': getter(lambda d, it: next_ip(d)),
        'Instruction::next_ip32': getter(lambda d, it: trunc(next_ip(d), 32)),
        'Instruction::next_ip64': getter(lambda d, it: next_ip(d)),
        'Instruction::op0_register': getter(lambda d, it: x.enum('Register', d['op0'])),
        'Instruction::code': getter(lambda d, it: x.enum('Code', d['code'] or 'Nopd')),
        'Instruction::memory_base': getter(lambda d, it: x.enum('Register', d.get('base') or d.get('mbase') or ('RIP' if d['iprel'] else 'None'))),
        'Instruction::memory_index': getter(lambda d, it: x.enum('Register', d.get('index') or 'None')),
        'Instruction::set_memory_base': setter('base', lambda v: x.name_of('Register', v)),
        'Instruction::set_memory_index': setter('index', lambda v: x.name_of('Register', v)),
        'Instruction::set_memory_displacement64': setter('disp64', lambda v: m.num(v, 8)),
        'Instruction::set_memory_displ_size': setter('dispsize', lambda v: m.num(v, 4)),
        'Instruction::set_near_branch64': setter('target', lambda v: m.num(v, 8)),
        'Instruction::set_near_branch32': setter('target', lambda v: zext(m.num(v, 4), 64)),
        'Instruction::with2': with2,
        'Register::is_gpr': is_gpr, 'Register::full_register': full_register, 'Register::full_register32': full_register32,
        'Register::is_gpr64': lambda m, it, a, t: int(x.name_of('Register', a[0]) in R64),
        'Register::is_gpr32': lambda m, it, a, t: int(x.name_of('Register', a[0]) in R32),
        'Register::size': reg_size, 'Register::number': reg_number, 'Register::add': reg_add,
        'InstructionInfoFactory::new': info_new, 'InstructionInfoFactory::info_options': info_of,
        'InstructionInfoFactory::info': info_of,
        'InstructionInfo::used_registers': used_registers,
        'UsedRegister::access': used_get(1), 'UsedRegister::register': used_get(0),
        'Encoder::try_with_capacity': enc_new, 'Encoder::new': enc_new, 'Encoder::with_capacity': enc_new, 'Encoder::try_new': enc_new,
        'Encoder::encode': encode, 'Encoder::take_buffer': take_buffer, 'Encoder::set_buffer': set_buffer,
        '*::eq': enum_eq(False), '*::ne': enum_eq(True),
    }
    m.fn_vec = vec_fields
    import re
    for it in m.insts:
        p = it['path']
        if 'iced' not in p or it.get('body') is not None:
            continue
        base = p.rsplit('::', 1)[-1]
        q = re.sub(r'::<(?!impl )[^<>]*>', '', p)
        mm = re.match(r'^<([\w:<>\' ,]+?) as ([\w:<>]+)>::(\w+)$', q)
        if mm:
            ty = re.sub(r'<.*', '', mm.group(1)).rsplit('::', 1)[-1]
            name = mm.group(3)
        else:
            parts = re.sub(r'<impl ([^>]*)>', lambda k: k.group(1).rsplit('::', 1)[-1], q).split('::')
            ty, name = parts[-2] if len(parts) > 1 else '', parts[-1]
        f = M.get(f'{ty}::{name}') or M.get(f'*::{name}')
        if f is not None:
            m.models[p] = f
