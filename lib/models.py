"""Models of the functions whose bodies the interpreter does not enter: compiler intrinsics, the heap,
panics, the spies of the witness crates."""
from values import *
from interp import *

UNIT = Blob(0, [])


def tparam(m, it, i=0):
    return it['args'][i]


# ------------------------------------------------------------------ intrinsics
def i_size_of_val(m, it, args, tys):
    t = tparam(m, it)
    return val_layout(m, t, args[0])[0]


def i_align_of_val(m, it, args, tys):
    t = tparam(m, it)
    return val_layout(m, t, args[0])[1]


def val_layout(m, t, p):
    ty = m.types[t]
    if not m.unsized(t):
        return ty['layout']['size'], ty['layout']['align']
    meta = next(x for q, s, x in p.f if q == m.P)
    if ty['k'] == 'dyn':
        if isinstance(meta, Ptr) and meta.obj.kind == 'vt':
            l = m.types[meta.obj.info[0]]['layout']
            return l['size'], l['align']
        raise AnalysisError('layout of an unresolved trait object')
    if ty['k'] in ('slice', 'str'):
        es = m.size(ty['elem']) if ty['k'] == 'slice' else 1
        al = m.types[ty['elem']]['layout']['align'] if ty['k'] == 'slice' else 1
        return mulc(m.W, m.num(meta, m.P), es), al
    if ty['k'] == 'adt':
        fields = ty['variants'][0]['fields']
        last = fields[-1]['ty']
        s, a = val_layout(m, last, p)
        off = ty['layout']['offsets'][len(fields) - 1]
        al = max(a, ty['layout']['align'])
        off = (off + a - 1) // a * a
        return (off + s + al - 1) // al * al, al
    raise AnalysisError(f'layout of {ty["name"]}')


def i_arith_offset(m, it, args, tys):
    es = m.size(tparam(m, it))
    d = mulc(m.W, m.num(args[1], m.P), es)
    p = args[0]
    if isinstance(p, Ptr):
        return Ptr(p.obj, add(m.W, p.off, d))
    return add(m.W, m.num(p, m.P), d)


def i_ptr_diff(m, it, args, tys):
    es = m.size(tparam(m, it))
    a, b = args
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        d = sub(m.W, a.off, b.off)
    else:
        d = sub(m.W, m.num(a, m.P), m.num(b, m.P))
    if isinstance(d, int):
        if d >> (m.W - 1):
            d -= 1 << m.W
        return (d // es) & ((1 << m.W) - 1)
    if es == 1:
        return d
    if es & (es - 1) == 0:
        return shr(m.W, d, es.bit_length() - 1, True)
    return uf(m.W, 'div', d, es)


def blob_bytes(m, v, size):
    """Per-chunk view [(off, size, val)] of a value."""
    if isinstance(v, Blob):
        return sorted(v.f, key=lambda x: x[0])
    return [(0, size, v)]


def values_equal(m, a, b, size):
    """Bytewise comparison of two loaded values: True/False."""
    pa, pb = blob_bytes(m, a, size), blob_bytes(m, b, size)
    cuts = sorted({q for q, s, _ in pa} | {q + s for q, s, _ in pa} | {q for q, s, _ in pb} | {q + s for q, s, _ in pb})
    def at(ps, lo, hi):
        for q, s, v in ps:
            if q <= lo and hi <= q + s:
                return m.chunk_part(v, s, lo - q, hi - lo)
        raise AnalysisError('comparison of uninitialised bytes')
    und = []
    for lo, hi in zip(cuts, cuts[1:]):
        x, y = at(pa, lo, hi), at(pb, lo, hi)
        if x is y or (not isinstance(x, Opaque) and x == y):
            continue
        if isinstance(x, int) and isinstance(y, int):
            return False
        und.append((x, y, hi - lo))
    for x, y, n in und:
        if not m.eq(m.num(x, n), m.num(y, n), 8 * n):
            return False
    return True


def i_raw_eq(m, it, args, tys):
    sz = m.size(tparam(m, it))
    if sz == 0:
        return 1
    a = m.load(*m.deref(args[0]), sz)
    b = m.load(*m.deref(args[1]), sz)
    return int(values_equal(m, a, b, sz))


def i_compare_bytes(m, it, args, tys):
    n = m.num(args[2], m.P)
    if n == 0:
        return 0
    a = m.load(*m.deref(args[0]), n)
    b = m.load(*m.deref(args[1]), n)
    return 0 if values_equal(m, a, b, n) else 1


def i_write_bytes(m, it, args, tys):
    es = m.size(tparam(m, it))
    n = mulc(m.W, m.num(args[2], m.P), es)
    if not isinstance(n, int):
        raise AnalysisError('write_bytes of symbolic length')
    if n == 0:
        return UNIT
    o, off = m.deref(args[0])
    v = m.num(args[1], 1)
    if not isinstance(v, int):
        raise AnalysisError('write_bytes of symbolic value')
    m.store(o, off, n, int.from_bytes(bytes([v]) * n, 'little'))
    return UNIT


def i_copy(m, it, args, tys):
    m.copy(args[0], args[1], m.num(args[2], m.P), m.size(tparam(m, it)))
    return UNIT


def bits1(f):
    def g(m, it, args, tys):
        sz = m.size(tparam(m, it))
        v = m.num(args[0], sz)
        if isinstance(v, int):
            return f(v, sz * 8)
        return uf(32, it['path'], v)
    return g


def i_exact_div(m, it, args, tys):
    sz = m.size(tparam(m, it))
    a, b = m.num(args[0], sz), m.num(args[1], sz)
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int) and b & (b - 1) == 0:
        return shr(sz * 8, a, b.bit_length() - 1, False)
    return uf(sz * 8, 'div', a, b)


def i_nop(m, it, args, tys):
    return UNIT


def i_bswap(v, w):
    return int.from_bytes(v.to_bytes(w // 8, 'little'), 'big')


def i_rot(left):
    def g(m, it, args, tys):
        sz = m.size(tparam(m, it))
        v, k = m.num(args[0], sz), m.num(args[1], 4)
        w = sz * 8
        if not isinstance(k, int):
            return uf(w, it['path'], v, k)
        k %= w
        if not left:
            k = (w - k) % w
        if isinstance(v, int):
            return ((v << k) | (v >> (w - k))) & ((1 << w) - 1)
        b = to_bits(v, w)
        if b is None:
            return uf(w, 'rot', v, k)
        return from_bits(b[w - k:] + b[:w - k])
    return g


def i_minmax(f):
    def g(m, it, args, tys):
        sz = m.size(tparam(m, it))
        sg = bool(m.types[tparam(m, it)].get('signed'))
        a, b = m.num(args[0], sz), m.num(args[1], sz)
        l = m.lt(a, b, sz * 8, sg)
        return (a if l else b) if f == 'min' else (b if l else a)
    return g


def i_sat(op):
    def g(m, it, args, tys):
        t = tparam(m, it)
        sz = m.size(t)
        w = 8 * sz
        if m.types[t].get('signed'):
            raise AnalysisError('signed saturating arithmetic')
        a, b = m.num(args[0], sz), m.num(args[1], sz)
        if op == 'sub':
            return 0 if m.lt(a, b, w, False) else sub(w, a, b)
        r = add(w, a, b)
        return (1 << w) - 1 if m.overflow('Add', a, b, r, w, False) else r
    return g


def i_arith(op):
    def g(m, it, args, tys):
        t = tparam(m, it)
        sz = m.size(t)
        sg = bool(m.types[t].get('signed'))
        bsz = m.size(tparam(m, it, 1)) if len(it['args']) > 1 else sz
        return m.arith(op, 8 * sz, sg, bsz)(m, m.num(args[0], sz), m.num(args[1], bsz))
    return g


def i_with_overflow(op):
    def g(m, it, args, tys):
        t = tparam(m, it)
        sz = m.size(t)
        sg = bool(m.types[t].get('signed'))
        a, b = m.num(args[0], sz), m.num(args[1], sz)
        r = m.arith(op, 8 * sz, sg, sz)(m, a, b)
        return m.make_struct(it['output'], [r, int(m.overflow(op, a, b, r, 8 * sz, sg))])
    return g


def i_volatile_load(m, it, args, tys):
    sz = m.size(tparam(m, it))
    return m.load(*m.deref(args[0]), sz)


def i_volatile_store(m, it, args, tys):
    sz = m.size(tparam(m, it))
    m.store(*m.deref(args[0]), sz, args[1])
    return UNIT


def i_select(m, it, args, tys):
    return args[1] if m.truth(args[0]) else args[2]


def i_unchecked_abort(m, it, args, tys):
    m.ev('abort', it['path'])
    raise PathEnd('abort')


def i_const_eval_select(m, it, args, tys):
    raise AnalysisError('const_eval_select')


def i_typed_swap(m, it, args, tys):
    sz = m.size(tparam(m, it))
    a, b = m.deref(args[0]), m.deref(args[1])
    if sz:
        x, y = m.load(*a, sz), m.load(*b, sz)
        m.store(*a, sz, y)
        m.store(*b, sz, x)
    return UNIT


INTRINSICS = {
    'size_of_val': i_size_of_val, 'align_of_val': i_align_of_val, 'min_align_of_val': i_align_of_val,
    'arith_offset': i_arith_offset, 'offset': i_arith_offset,
    'ptr_offset_from_unsigned': i_ptr_diff, 'ptr_offset_from': i_ptr_diff,
    'raw_eq': i_raw_eq, 'compare_bytes': i_compare_bytes, 'write_bytes': i_write_bytes,
    'copy': i_copy, 'copy_nonoverlapping': i_copy, 'volatile_copy_nonoverlapping_memory': i_copy,
    'volatile_copy_memory': i_copy,
    'volatile_load': i_volatile_load, 'unaligned_volatile_load': i_volatile_load, 'volatile_store': i_volatile_store,
    'unaligned_volatile_store': i_volatile_store,
    'ctpop': bits1(lambda v, w: bin(v).count('1')),
    'cttz': bits1(lambda v, w: (v & -v).bit_length() - 1 if v else w),
    'cttz_nonzero': bits1(lambda v, w: (v & -v).bit_length() - 1),
    'ctlz': bits1(lambda v, w: w - v.bit_length()), 'ctlz_nonzero': bits1(lambda v, w: w - v.bit_length()),
    'exact_div': i_exact_div,
    'assert_inhabited': i_nop, 'assert_zero_valid': i_nop, 'assert_mem_uninitialized_valid': i_nop,
    'assume': i_nop, 'cold_path': i_nop, 'forget': i_nop, 'likely': lambda m, it, a, t: a[0], 'unlikely': lambda m, it, a, t: a[0],
    'abort': i_unchecked_abort, 'abort_immediate': i_unchecked_abort, 'unreachable': i_unchecked_abort, 'breakpoint': i_unchecked_abort,
    'black_box': lambda m, it, a, t: a[0],
    'rotate_left': i_rot(True), 'rotate_right': i_rot(False),
    'saturating_sub': i_sat('sub'), 'saturating_add': i_sat('add'),
    'wrapping_add': i_arith('Add'), 'wrapping_sub': i_arith('Sub'), 'wrapping_mul': i_arith('Mul'),
    'unchecked_add': i_arith('Add'), 'unchecked_sub': i_arith('Sub'), 'unchecked_mul': i_arith('Mul'),
    'unchecked_shl': i_arith('Shl'), 'unchecked_shr': i_arith('Shr'),
    'unchecked_div': i_arith('Div'), 'unchecked_rem': i_arith('Rem'), 'disjoint_bitor': i_arith('BitOr'),
    'add_with_overflow': i_with_overflow('Add'), 'sub_with_overflow': i_with_overflow('Sub'), 'mul_with_overflow': i_with_overflow('Mul'),
    'select_unpredictable': i_select,
    'typed_swap_nonoverlapping': i_typed_swap,
    'bswap': lambda m, it, a, t: i_bswap(m.num(a[0], m.size(tparam(m, it))), 8 * m.size(tparam(m, it))),
    'ptr_mask': lambda m, it, a, t: band(m.W, m.num(a[0], m.P), m.num(a[1], m.P)),
    'is_val_statically_known': lambda m, it, a, t: 0,
    'caller_location': lambda m, it, a, t: 16,
}


# ------------------------------------------------------------------ heap
def layout_of(m, v, ty):
    """(size, align) from a core Layout value."""
    t = m.types[ty]
    so, sty = m.layout_field(ty, 'size')
    ao, aty = m.layout_field(ty, 'align')
    return m.num(m.part(v, so, sty), m.P), m.num(m.part(v, ao, aty), m.P)


def find_arg(m, it, args, pred):
    for i, ty in enumerate(it['inputs']):
        if pred(m.types[ty]):
            return i
    raise AnalysisError(f'arguments of {it["path"]}')


def heap_alloc(m, it, args, tys):
    """Global::alloc_impl(layout, zeroed) -> Result<NonNull<[u8]>, AllocError> (any arg order)."""
    li = find_arg(m, it, args, lambda t: t['name'].endswith('alloc::Layout') or t['name'].endswith('layout::Layout'))
    size, align = layout_of(m, args[li], it['inputs'][li])
    if not isinstance(size, int):
        raise AnalysisError('heap allocation of symbolic size')
    if size == 0:
        p = align
    else:
        o = m.new_obj('heap', len(m.objs), size, align)
        m.objs.append(o)
        m.ev('heap_alloc', o)
        p = Ptr(o, 0)
        zi = [i for i, ty in enumerate(it['inputs']) if m.types[ty]['k'] == 'bool']
        if zi and m.truth(args[zi[0]]):
            m.store(o, 0, size, 0)
    out = m.types[it['output']]
    if out['k'] == 'ptr':
        return p
    return m.make_enum(it['output'], 'Ok', [Blob(2 * m.P, [(0, m.P, p), (m.P, m.P, size)])])


def heap_free(m, it, args, tys):
    li = find_arg(m, it, args, lambda t: t['name'].endswith('alloc::Layout') or t['name'].endswith('layout::Layout'))
    size, align = layout_of(m, args[li], it['inputs'][li])
    pi = find_arg(m, it, args, lambda t: 'NonNull' in t['name'] or t['k'] == 'ptr')
    if size == 0:
        return UNIT
    p = args[pi]
    q = p if isinstance(p, Ptr) else m.to_ptr(m.num(p, m.P))
    if q is None or q.obj.kind != 'heap' or q.off != 0:
        m.ev('ub', 'deallocation of a pointer that is not a heap block', p)
        return UNIT
    if q.obj.freed:
        m.ev('ub', 'double free', q.obj)
    if size != q.obj.size or (align != q.obj.align):
        m.ev('ub', f'deallocation with layout ({size}, {align}), allocated with ({q.obj.size}, {q.obj.align})', q.obj)
    q.obj.freed = True
    m.ev('heap_free', q.obj)
    return UNIT


def heap_grow(m, it, args, tys):
    """Global::grow_impl(ptr, old_layout, new_layout, zeroed) (and shrink_impl)."""
    ls = [i for i, ty in enumerate(it['inputs']) if m.types[ty]['name'].endswith('::Layout')]
    pi = find_arg(m, it, args, lambda t: 'NonNull' in t['name'])
    os_, oa = layout_of(m, args[ls[0]], it['inputs'][ls[0]])
    ns, na = layout_of(m, args[ls[1]], it['inputs'][ls[1]])
    o = m.new_obj('heap', len(m.objs), ns, na)
    m.objs.append(o)
    m.ev('heap_alloc', o)
    if os_:
        q = m.to_ptr(m.num(args[pi], m.P)) if not isinstance(args[pi], Ptr) else args[pi]
        n = min(os_, ns)
        v = m.load(q.obj, q.off, n)
        m.store(o, 0, n, v)
        q.obj.freed = True
        m.ev('heap_free', q.obj)
    return m.make_enum(it['output'], 'Ok', [Blob(2 * m.P, [(0, m.P, Ptr(o, 0)), (m.P, m.P, ns)])])


def panic(m, it, args, tys):
    n = it['path'].rsplit('::', 1)[-1]
    if n.startswith('panic_nounwind') or n in ('panic_cannot_unwind', 'panic_in_cleanup'):
        m.ev('abort', it['path'])
        raise PathEnd('abort')
    m.ev('panic', it['path'])
    raise Unwind(it['path'])


def oom(m, it, args, tys):
    raise PathEnd('out of memory')


def opaque_ret(m, it, args, tys):
    sz = m.size(it['output'])
    return Opaque('fmt', it['path'], sz) if sz else UNIT


def std_panicking(m, it, args, tys):
    n = it['path'].rsplit('::', 1)[-1]
    if n == 'panicking' or it['path'].endswith('panic_count::count_is_zero') or n in ('count_is_zero', 'is_zero_slow_path'):
        return m.std_panicking(it)
    return panic(m, it, args, tys)


def install(m):
    for k, f in INTRINSICS.items():
        m.models['intrinsic:' + k] = f
    for i, it in enumerate(m.insts):
        p = it['path']
        base = p.rsplit('::', 1)[-1]
        if p.startswith('alloc::alloc::'):
            if it.get('body') is not None:
                continue
            if base in ('alloc_impl', 'alloc_impl_runtime', 'exchange_malloc', 'allocate', 'alloc'):
                m.models[p] = heap_alloc
            elif base in ('deallocate_impl', 'deallocate_impl_runtime', 'deallocate', 'dealloc'):
                m.models[p] = heap_free
            elif base in ('grow_impl', 'grow_impl_runtime', 'shrink_impl', 'shrink_impl_runtime', 'grow', 'shrink', 'grow_zeroed'):
                m.models[p] = heap_grow
            elif base == 'handle_alloc_error':
                m.models[p] = oom
        elif p.startswith('<alloc::alloc::Global') and it.get('body') is None:
            if base == 'allocate' or base == 'allocate_zeroed':
                m.models[p] = heap_alloc
            elif base == 'deallocate':
                m.models[p] = heap_free
            elif base in ('grow', 'shrink', 'grow_zeroed'):
                m.models[p] = heap_grow
    m.prefix_models += [
        ('core::panicking::', panic), ('core::option::unwrap_failed', panic), ('core::option::expect_failed', panic),
        ('core::result::unwrap_failed', panic), ('core::slice::index::slice_', panic), ('alloc::raw_vec::handle_error', oom),
        ('alloc::raw_vec::capacity_overflow', oom), ('core::fmt::', opaque_ret), ('alloc::fmt::', opaque_ret),
        ('core::slice::copy_from_slice_impl::len_mismatch_fail', panic), ('core::panic', panic), ('std::panicking::', std_panicking),
        ('core::str::slice_error_fail', panic),
    ]
