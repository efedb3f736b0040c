"""Allocator handles: every operation is forwarded faithfully, and shared state is only used under its lock."""
import re
import framework, build, rsq, models
from interp import *
from values import *
from models import UNIT
from c_abi import Quiet

HEAD = '''#![no_std]
#![allow(dead_code, unused)]
extern crate alloc;
use alloc::{{boxed::Box, rc::Rc, sync::Arc}};
use core::mem::ManuallyDrop;
use core::ops::Deref;
use core::pin::Pin;
use closure_ffi::jit_alloc::*;

extern "Rust" {{
    fn spy_new(p: *mut u8, size: usize);
    fn spy_alloc(id: usize, size: usize, rx: *mut *const u8, rw: *mut *mut u8) -> bool;
    fn spy_release(id: usize, rx: *const u8) -> bool;
    fn spy_protect(id: usize, p: *const u8, size: usize, access: usize);
    fn spy_flush(id: usize, p: *const u8, size: usize);
    fn spy_ok(rx: *const u8, rw: *const u8);
    fn spy_err();
}}

/// The user's allocator: all it does is recorded.
pub struct J(usize);
impl J {{
    fn mk() -> Self {{
        let mut r = core::mem::MaybeUninit::<Self>::uninit();
        unsafe {{ spy_new(r.as_mut_ptr() as *mut u8, core::mem::size_of::<Self>()); r.assume_init() }}
    }}
}}
impl JitAlloc for J {{
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {{
        let (mut rx, mut rw) = (core::ptr::null(), core::ptr::null_mut());
        if unsafe {{ spy_alloc(self.0, size, &mut rx, &mut rw) }} {{ Ok((rx, rw)) }} else {{ Err(JitAllocError) }}
    }}
    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {{
        if spy_release(self.0, rx) {{ Ok(()) }} else {{ Err(JitAllocError) }}
    }}
    unsafe fn protect_jit_memory(&self, p: *const u8, size: usize, access: ProtectJitAccess) {{ spy_protect(self.0, p, size, access as usize) }}
    unsafe fn flush_instruction_cache(&self, p: *const u8, size: usize) {{ spy_flush(self.0, p, size) }}
}}
pub struct D<T>(u8, T);
impl<T> Deref for D<T> {{
    type Target = T;
    fn deref(&self) -> &T {{ &self.1 }}
}}

fn do_alloc<A: JitAlloc>(a: &A, size: usize) {{
    match a.alloc(size) {{ Ok((x, w)) => unsafe {{ spy_ok(x, w) }}, Err(_) => unsafe {{ spy_err() }} }}
}}
fn do_release<A: JitAlloc>(a: &A, p: *const u8) {{
    match unsafe {{ a.release(p) }} {{ Ok(()) => unsafe {{ spy_ok(core::ptr::null(), core::ptr::null()) }}, Err(_) => unsafe {{ spy_err() }} }}
}}
fn do_flush<A: JitAlloc>(a: &A, p: *const u8, size: usize) {{ unsafe {{ a.flush_instruction_cache(p, size); spy_ok(core::ptr::null(), core::ptr::null()) }} }}
fn do_rw<A: JitAlloc>(a: &A, p: *const u8, size: usize) {{ unsafe {{ a.protect_jit_memory(p, size, ProtectJitAccess::ReadWrite); spy_ok(core::ptr::null(), core::ptr::null()) }} }}
fn do_rx<A: JitAlloc>(a: &A, p: *const u8, size: usize) {{ unsafe {{ a.protect_jit_memory(p, size, ProtectJitAccess::ReadExecute); spy_ok(core::ptr::null(), core::ptr::null()) }} }}
macro_rules! handle {{
    ($m:ident, |$j:ident| $($e:tt)*) => {{
        pub mod $m {{
            use super::*;
            pub fn root_alloc(size: usize) {{ let $j = J::mk(); let h = $($e)*; do_alloc(&h, size); core::mem::forget(h) }}
            pub fn root_release(p: *const u8) {{ let $j = J::mk(); let h = $($e)*; do_release(&h, p); core::mem::forget(h) }}
            pub fn root_flush(p: *const u8, size: usize) {{ let $j = J::mk(); let h = $($e)*; do_flush(&h, p, size); core::mem::forget(h) }}
            pub fn root_rw(p: *const u8, size: usize) {{ let $j = J::mk(); let h = $($e)*; do_rw(&h, p, size); core::mem::forget(h) }}
            pub fn root_rx(p: *const u8, size: usize) {{ let $j = J::mk(); let h = $($e)*; do_rx(&h, p, size); core::mem::forget(h) }}
            pub fn root_history(size: usize, size2: usize, p: *const u8, q: *const u8) {{
                let $j = J::mk();
                let h = $($e)*;
                do_alloc(&h, size);
                do_rw(&h, p, size);
                do_flush(&h, p, size);
                do_alloc(&h, size2);
                do_release(&h, p);
                do_rx(&h, q, size2);
                do_release(&h, q);
                do_alloc(&h, size2);
                core::mem::forget(h)
            }}
        }}
    }};
}}
handle!(plain, |j| j);
handle!(by_ref, |j| &j);
handle!(by_ref_mut, |mut_j| {{ let mut b = Box::new(mut_j); let r: &'static mut J = Box::leak(b); r }});
handle!(by_ref_ref, |j| &&j);
handle!(boxed, |j| Box::new(j));
handle!(boxed_boxed, |j| Box::new(Box::new(j)));
handle!(rc, |j| Rc::new(j));
handle!(arc, |j| Arc::new(j));
handle!(arc_ref, |j| &Arc::new(&j));
handle!(manual, |j| ManuallyDrop::new(j));
handle!(own_deref, |j| D(3, j));
handle!(own_deref_box, |j| D(3, Box::new(D(4, j))));
handle!(pinned, |j| Pin::new(&j));
{more}
'''
GLOBALS = ''.join(f'handle!({n}, |j| {e});\n' for n, e in (
    ('global', 'GlobalJitAlloc'), ('global_default', 'GlobalJitAlloc::default()'), ('global_copy', '{ let g = GlobalJitAlloc; let h = g; h.clone() }'),
    ('global_ref', '&GlobalJitAlloc'), ('global_arc', 'Arc::new(GlobalJitAlloc)'), ('global_deref', 'D(1, &GlobalJitAlloc)')))
THREADS = ''.join(f'handle!({n}, |j| {e});\n' for n, e in (
    ('thread', 'ThreadJitAlloc::default()'), ('thread_clone', 'ThreadJitAlloc::default().clone()'), ('thread_ref', '&ThreadJitAlloc::default()'),
    ('thread_rc', 'Rc::new(ThreadJitAlloc::default())')))
# both kinds of shared allocator, and two handles of each
MIXED = '''
pub mod mixed {
    use super::*;
    pub fn root_history(size: usize, size2: usize, p: *const u8, q: *const u8) {
        let (g, t, g2, t2) = (GlobalJitAlloc, ThreadJitAlloc::default(), GlobalJitAlloc, ThreadJitAlloc::default());
        do_alloc(&g, size);
        do_alloc(&t, size2);
        do_alloc(&g2, size2);
        do_release(&t2, q);
        do_release(&g2, p);
        do_release(&t, p);
        do_release(&g, q);
    }
}
'''
MIXED_KINDS = 'gtgtgtg'
PROVIDER = {
    'static': '''pub struct K;
impl JitAlloc for K {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> { J(77).alloc(size) }
    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> { J(77).release(rx) }
    unsafe fn protect_jit_memory(&self, p: *const u8, size: usize, access: ProtectJitAccess) { J(77).protect_jit_memory(p, size, access) }
    unsafe fn flush_instruction_cache(&self, p: *const u8, size: usize) { J(77).flush_instruction_cache(p, size) }
}
static PROVIDER: K = K;
''',
    'cell': 'static PROVIDER: J = J(77);\n',
}
FORMS = {'static/path': PROVIDER['static'] + 'global_jit_alloc!(PROVIDER);\n', 'cell/path': PROVIDER['cell'] + 'global_jit_alloc!(PROVIDER);\n',
         'static/block': PROVIDER['static'] + 'global_jit_alloc!(unsafe { &PROVIDER });\n',
         'cell/block': PROVIDER['cell'] + 'global_jit_alloc!(unsafe { let p = &PROVIDER; p });\n',
         'module path': 'pub mod deep { pub mod er { ' + 'pub static PROVIDER: crate::J = crate::J(77); ' + '} }\nglobal_jit_alloc!(deep::er::PROVIDER);\n'}
ORDER = ['alloc', 'rw', 'flush', 'alloc', 'release', 'rx', 'release', 'alloc']


GUARD_DROP = re.compile(r'^<(std::sync::.*(Mutex|RwLock)\w*Guard|spin::.*(Mutex|RwLock)\w*Guard)<.*> as core::ops::Drop>::drop$')
GUARD_DEREF = re.compile(r'^<spin::.*Guard<.*> as core::ops::Deref(Mut)?>::deref(_mut)?$')
LOCK = re.compile(r'^(std::sync|spin)::.*(Mutex|RwLock).*::(lock|write|read|try_lock|try_write|get_mut|into_inner|force_unlock|is_locked|is_poisoned|clear_poison)$')


class Run:
    def __init__(self, cfg, code, r):
        self.r, self.cfg = r, cfg
        self.arm = cfg.split('/')[0] in ('armv7', 'thumb')
        m = self.m = Machine(rsq.generated(cfg, code, 'jit'))
        models.install(m)
        for it in m.insts:
            p = it['path']
            n = p.rsplit('::', 1)[-1]
            if GUARD_DROP.match(p):
                m.models[p] = self.unlock
            if it.get('body') is not None:
                continue
            if n.startswith('spy_') and it['crate'] == 'witness':
                m.models[p] = getattr(self, n)
            elif it['crate'] == 'jit_allocator2':
                m.models[p] = self.engine
            elif it['crate'] == 'libc' and n == 'syscall':
                m.models[p] = self.syscall
            elif GUARD_DEREF.match(p):
                m.models[p] = self.deref
            elif LOCK.match(p):
                m.models[p] = self.lock
            elif re.match(r'^(std::sync|spin)::.*(Mutex|RwLock)::<.*>::new$', p):
                m.models[p] = self.new_lock
            elif p == 'std::thread::local::panic_access_error':
                m.models[p] = self.panic
            elif re.match(r'^std::sys::thread_local::.*::(get_or_init|get)$', p):
                m.models[p] = self.tls
            elif it.get('foreign') and it['crate'] == 'closure_ffi' and it.get('symbol') in m.externs:
                m.models[p] = self.provider
            elif re.match(r'^(std|spin)::.*(OnceLock|LazyLock|Once|Lazy)\b.*::(get_or_init|call_once|force|deref|get)$', p):
                m.models[p] = self.once
            elif it['kind'] == 'intrinsic' and n.startswith('atomic_'):
                m.models[p] = self.atomic
        m.on_virtual = self.virtual
        m.max_steps = 300_000

    def begin(self):
        m = self.m
        m.scn = Quiet()
        self.held, self.slots, self.intls, self.inonce, self.data, self.refused = [], {}, 0, 0, {}, 0
        self.jid = mk(m.W, 0, {Atom('id', 0, (1 << m.W) - 1): 1})

    # -- the user's allocator
    def spy_new(self, m, it, args, tys):
        o, off = m.deref(args[0])
        m.store(o, off, m.num(args[1], m.P), self.jid)
        return UNIT

    def views(self, m):
        k = sum(1 for e in m.events if e[0] == 'op')
        return Ptr(m.new_obj('rx', k, None, 16), 0), Ptr(m.new_obj('rw', k, None, 16), 0)

    def op(self, m, name, target, args, result):
        m.ev('op', name, target, args, result, tuple(h[1] for h in self.held))

    def spy_alloc(self, m, it, args, tys):
        if m.choose(2, 'alloc') == 1:
            self.op(m, 'alloc', args[0], (args[1],), None)
            return 0
        v = self.views(m)
        self.op(m, 'alloc', args[0], (args[1],), v)
        m.store(*m.deref(args[2]), m.P, v[0])
        m.store(*m.deref(args[3]), m.P, v[1])
        return 1

    def spy_release(self, m, it, args, tys):
        c = m.choose(2, 'release')
        self.op(m, 'release', args[0], (args[1],), c == 0)
        return 1 - c

    def spy_protect(self, m, it, args, tys):
        a = m.num(args[3], m.P)
        self.op(m, {0: 'rw', 1: 'rx'}.get(a, a), args[0], (args[1], args[2]), True)
        return UNIT

    def spy_flush(self, m, it, args, tys):
        self.op(m, 'flush', args[0], (args[1], args[2]), True)
        return UNIT

    def spy_ok(self, m, it, args, tys):
        m.ev('done', True, args[0], args[1], tuple(h[1] for h in self.held))
        return UNIT

    def spy_err(self, m, it, args, tys):
        m.ev('done', False, None, None, tuple(h[1] for h in self.held))
        return UNIT

    # -- the bundled engine
    def engine(self, m, it, args, tys):
        p = it['path']
        n = p.rsplit('::', 1)[-1]
        out = it['output']
        if n == 'default':
            z = m.size(out)
            return Opaque('options', None, z) if z else UNIT
        if n == 'new':
            t = m.types[out]
            if m.size(out) != m.P:
                raise AnalysisError(f'an engine of type {t["name"]}')
            o = m.new_obj('engine', len([e for e in m.events if e[0] == 'new']), None, 64)
            o.info = {'tls': self.intls, 'once': self.inonce}
            m.ev('new', o, tuple(h[1] for h in self.held))
            return Ptr(o, 0)
        if n in ('alloc', 'release') and 'JitAllocator' in p:
            q = m.to_ptr(args[0])
            if q is None or q.obj.kind != 'engine':
                raise AnalysisError(f'an engine operation on {args[0]}')
            if n == 'alloc':
                v = self.views(m) if m.choose(2, n) == 0 else None
                self.op(m, 'alloc', q.obj, (args[1],), v)
                if v:
                    tt = m.types[out]['variants'][0]['fields'][0]['ty']
                    return m.make_enum(out, 0, [m.make_struct(tt, list(v))])
            else:
                c = m.choose(2, n)
                self.op(m, 'release', q.obj, (args[1],), c == 0)
                if c == 0:
                    return m.make_enum(out, 0, [UNIT])
            e = m.types[out]['variants'][1]['fields'][0]['ty']
            # which of its errors is chosen does not matter to this crate, but it may look
            k = len(m.types[e].get('variants') or [])
            return m.make_enum(out, 1, [m.make_enum(e, m.choose(k, 'error') if k > 1 and self.single else 0, [])])
        if n == 'flush_instruction_cache':
            self.op(m, 'flush', 'engine', (args[0], args[1]), True)
            return UNIT
        if n == 'protect_jit_memory':
            t = it['inputs'][0]
            a = m.num(args[0], m.size(t))
            vs = [v['name'] for v in m.types[t]['variants']]
            self.op(m, {'ReadWrite': 'rw', 'ReadExecute': 'rx'}.get(vs[a], vs[a]), 'engine', None, True)
            return UNIT
        if n == 'drop':
            q = m.to_ptr(args[0])
            m.ev('destroyed', q.obj)
            return UNIT
        m.ev('other', p)
        raise PathEnd(f'calls {p}')

    def syscall(self, m, it, args, tys):
        m.ev('syscall', list(args))
        return 0

    def atomic(self, m, it, args, tys):
        # one thread at a time: what other threads do between the operations is what the lock rule is about
        n = it['path'].rsplit('::', 1)[-1]
        if 'fence' in n:
            return UNIT
        z = m.size(m.types[it['inputs'][0]]['to'])
        o, off = m.deref(args[0])
        if n.startswith('atomic_store'):
            m.store(o, off, z, args[1])
            return UNIT
        old = m.load(o, off, z)
        if n.startswith('atomic_load'):
            return old
        if n.startswith('atomic_cxchg'):
            hit = m.num(old, z) == m.num(args[1], z)
            if hit:
                m.store(o, off, z, args[2])
            return m.make_struct(it['output'], [old, int(hit)])
        f = {'atomic_xadd': add, 'atomic_xsub': sub, 'atomic_xchg': lambda w, a, b: b}.get(n)
        if f is None:
            raise AnalysisError(f'no model for {it["path"]}')
        m.store(o, off, z, f(8 * z, m.num(old, z), m.num(args[1], z)))
        return old

    # -- locks
    def cell(self, mt):
        """Offset and type of the data behind a lock."""
        m = self.m
        todo, cells = [(0, mt)], []
        while todo:
            off, ty = todo.pop()
            t = m.types[ty]
            if t['k'] != 'adt' or not t.get('variants'):
                continue
            n = t['name']
            if re.match(r'^(core|std)::cell::UnsafeCell<', n):
                if not re.search(r'UnsafeCell<(bool|u8|u32|usize|i32|core::sync::atomic.*)>$', n):
                    cells.append((off, m.field(ty, 0, 0)[1]))
                continue
            for i in range(len(t['variants'][0]['fields'])):
                o, f = m.field(ty, 0, i)
                todo.append((off + o, f))
        if len(cells) != 1:
            raise AnalysisError(f'{m.types[mt]["name"]} has {len(cells)} data cells')
        return cells[0]

    def lock(self, m, it, args, tys):
        n = it['path'].rsplit('::', 1)[-1]
        if n not in ('lock', 'write', 'try_lock', 'try_write'):
            m.ev('other', it['path'])
            raise PathEnd(f'calls {it["path"]}')
        q = m.to_ptr(args[0])
        again = any(h[0] == q for h in self.held)
        out = it['output']
        if n.startswith('try_') and (again or (not self.refused and m.choose(2, 'lock is busy') == 1)):
            self.refused += 1
            t = m.types[out]
            if 'Option<' in t['name'].split('Guard')[0]:
                return m.make_enum(out, 0, [])
            e = t['variants'][1]['fields'][0]['ty']
            return m.make_enum(out, 1, [m.make_enum(e, 1, [])])
        m.ev('lock', q.obj, again)
        if again:
            raise PathEnd('deadlock')
        self.held.append((q, q.obj))
        mt = m.types[it['inputs'][0]]['to']
        off, ty = self.cell(mt)
        d = Ptr(q.obj, add(m.W, q.off, off))
        gt, var = out, None
        t = m.types[out]
        if re.match(r'^(core|std)::(result::Result|option::Option)<', t['name']):
            var = 0 if 'result::Result<' in t['name'].split('Guard')[0] else 1
            gt = t['variants'][var]['fields'][0]['ty']
        g = self.fill(gt, q, d)
        self.data[q] = d
        return g if var is None else m.make_enum(out, var, [g])

    def new_lock(self, m, it, args, tys):
        t = it['output']
        off, ty = self.cell(t)
        o = m.new_obj('tmp', 0, m.size(t), 16)
        o.raw, o.rel = bytes(m.size(t)), {}
        m.store(o, off, m.size(ty), args[0])
        return m.load(o, 0, m.size(t))

    def fill(self, ty, q, d):
        """A guard: its references to the lock and to the data, everything else zero."""
        m = self.m
        t = m.types[ty]
        if t['k'] in ('ref', 'ptr'):
            to = m.types[t['to']]['name']
            if re.search(r'(Mutex|RwLock)<', to):
                return q
            return self.lockword(q) if 'atomic::Atomic' in to else d
        if t['k'] == 'adt' and t.get('variants') and m.size(ty):
            fs = [self.fill(m.field(ty, 0, i)[1], q, d) for i in range(len(t['variants'][0]['fields']))]
            return m.make_struct(ty, fs)
        return UNIT if not m.size(ty) else 0

    def lockword(self, q):
        o = self.m.new_obj('lockword', str(q), None, 8, q)
        return Ptr(o, 0)

    def of_guard(self, p, ty):
        """The lock a guard belongs to."""
        m = self.m
        o, off = m.deref(p)
        for i in range(0, m.size(ty) - m.P + 1, m.P):
            v = m.load(o, add(m.W, off, i), m.P)
            if not isinstance(v, Ptr):
                continue
            if v.obj.kind == 'lockword':
                return v.obj.info
            for k, d in self.data.items():
                if v in (k, d):
                    return k
        raise AnalysisError('a guard of no lock')

    def unlock(self, m, it, args, tys):
        q = self.of_guard(args[0], m.types[it['inputs'][0]]['to'])
        before = len(self.held)
        self.held = [h for h in self.held if h[0] != q]
        # nested guards of one lock are dropped from outside in
        if len(self.held) < before:
            m.ev('unlock', q.obj)
        return UNIT

    def deref(self, m, it, args, tys):
        return self.data[self.of_guard(args[0], m.types[it['inputs'][0]]['to'])]

    def call_fn(self, it, f, args=()):
        m = self.m
        fns = it.get('fns')
        if fns:
            inst = fns[0][1]
            if m.types[fns[0][0]]['k'] == 'closure':
                return m.call(inst, [f] + list(args), rust_call=True)
            return m.call(inst, list(args))
        q = m.to_ptr(f)
        if q is not None and q.obj.kind == 'fn':
            return m.call_ptr(q.obj.info, list(args))
        raise AnalysisError(f'{it["path"]} calls something unknown')

    def once(self, m, it, args, tys):
        n = it['path'].rsplit('::', 1)[-1]
        q = m.to_ptr(args[0])
        if q not in self.slots:
            if n == 'get':
                return m.make_enum(it['output'], 0, [])
            self.inonce += 1
            if n in ('force', 'deref'):
                lt = m.types[it['inputs'][0]]['to']
                off, ty = self.cell(lt)
                v = self.call_fn({'path': it['path']}, m.load(q.obj, add(m.W, q.off, off), m.P))
            else:
                v = self.call_fn(it, args[1])
            self.inonce -= 1
            o = m.new_obj('once', str(q.obj.name), None, 64)
            t = m.types[m.types[it['output']]['to']]
            m.store(o, 0, m.size(m.types[it['output']]['to']), v)
            self.slots[q] = Ptr(o, 0)
        if n == 'get':
            return m.make_enum(it['output'], 1, [self.slots[q]])
        return self.slots[q]

    # -- thread-local storage
    def panic(self, m, it, args, tys):
        raise Unwind('the thread is exiting')

    def tls(self, m, it, args, tys):
        n = it['path'].rsplit('::', 1)[-1]
        q = m.to_ptr(args[0])
        if q.obj.kind != 'tls':
            m.ev('shared', q.obj)
        if q not in self.slots:
            if m.choose(2, 'the thread is exiting') == 1:
                self.slots[q] = None
            elif n == 'get':
                self.slots[q] = q
            else:
                self.intls += 1
                v = self.call_fn(it, args[2])
                self.intls -= 1
                o = m.new_obj('tlsval', q.obj.name, None, 64)
                m.store(o, 0, m.size(m.types[it['output']]['to']), v)
                self.slots[q] = Ptr(o, 0)
        s = self.slots[q]
        return 0 if s is None else s

    # -- the user's global allocator
    def provider(self, m, it, args, tys):
        m.ev('provider')
        return m.call(m.externs[it['symbol']], [])

    def virtual(self, m, it, args, tys):
        v = args[0]
        n = it['path'].rsplit('::', 1)[-1]
        if isinstance(v, Blob) and len(v.f) == 2:
            vt = m.to_ptr(v.f[1][2])
            ty = m.types[vt.obj.info[0]]['name'] if vt is not None and vt.obj.kind == 'vt' else None
            for i, x in enumerate(m.insts):
                if ty and x['crate'] == 'witness' and x['path'].startswith(f'<{ty} as ') and x['path'].endswith('>::' + n):
                    return m.call(i, [v.f[0][2]] + list(args[1:]))
        raise AnalysisError(f'virtual call {it["path"]} on {v}')


def arguments(run, name):
    m = run.m
    size = [mk(m.W, 0, {Atom(f'size{i}', 0, (1 << m.W) - 1): 1}) for i in range(2)]
    p = [Ptr(m.new_obj('code', i, None, 16), 0) for i in range(2)]
    if name == 'alloc':
        return [size[0]], [('alloc', (size[0],))]
    if name == 'release':
        return [p[0]], [('release', (p[0],))]
    if name in ('flush', 'rw', 'rx'):
        return [p[0], size[0]], [(name, (p[0], size[0]))]
    h = [('alloc', (size[0],)), ('rw', (p[0], size[0])), ('flush', (p[0], size[0])), ('alloc', (size[1],)), ('release', (p[0],)),
         ('rx', (p[1], size[1])), ('release', (p[1],)), ('alloc', (size[1],))]
    if name == 'mixed':
        h = [('alloc', (size[0],)), ('alloc', (size[1],)), ('alloc', (size[1],)), ('release', (p[1],)), ('release', (p[0],)), ('release', (p[0],)), ('release', (p[1],))]
    return [size[0], size[1], p[0], p[1]], h


def segments(ev):
    out, cur = [], []
    for e in ev:
        cur.append(e)
        if e[0] == 'done':
            out.append(cur)
            cur = []
    return out, cur


def same(run, a, b):
    m = run.m
    if isinstance(b, Ptr):
        return m.to_ptr(a) == b
    return m.num(a, m.P) == b


def judge(run, name, res, ev, want, sink):
    """Every finding of one path: (property, rule, text)."""
    m = run.m
    handle = name.split('::')[0]
    shared = handle.startswith(('global', 'mixed'))
    local = handle.startswith(('thread', 'mixed'))
    bundled = shared and 'custom' not in run.cfg or local
    segs, rest = segments(ev)
    seen = {}

    def bad(prop, rule, text):
        sink(prop, rule, text)
    if res[0] == 'unwind':
        bad('G01', 'panics', f'panics: {res[1]}')
    elif res[0] == 'end':
        relocked = any(e[0] == 'lock' and e[2] for e in ev)
        if not relocked and not any(e[0] == 'other' for e in ev):
            bad('G01', 'never returns', f'does not return: {res[1]}')
    elif len(segs) != len(want):
        bad('G01', 'lost', f'reports {len(segs)} results for {len(want)} operations')
    for (op, args), s in zip(want, segs + ([rest] if len(segs) < len(want) else [])):
        ops = [e for e in s if e[0] == 'op']
        done = s[-1] if s and s[-1][0] == 'done' else None
        run.r.n('operations')
        mine = [e for e in ops if e[1] == op]
        for e in ops:
            if e[1] != op:
                bad('G01', f'{op} does {e[1]}', f'{op} performs {e[1]}')
        if done is None:
            continue
        if op == 'flush' and bundled and run.arm:
            calls = [e[1] for e in s if e[0] == 'syscall']
            if not any(len(c) >= 3 and m.num(c[0], 4) == 0x0f0002 and same(run, c[1], args[0]) and m.to_ptr(c[2]) == Ptr(args[0].obj, args[1]) and
                       (len(c) < 4 or m.num(c[3], 4) == 0) for c in calls):
                bad('G01', 'flush', f'flush does not reach the kernel with the range: {calls}')
        elif not mine:
            if not (local and op in ('alloc', 'release') and not done[1] and any(v is None for v in run.slots.values())):
                bad('G01', f'{op} lost', f'{op} reaches no allocator')
        else:
            if len(mine) > 1 and op in ('alloc', 'release'):
                bad('G01', f'{op} repeated', f'{op} is performed {len(mine)} times')
            for e in mine:
                if e[3] is not None and not all(same(run, a, b) for a, b in zip(e[3], args)):
                    bad('G01', f'{op} arguments', f'{op} was asked for {args} and performed with {e[3]}')
                t = e[2]
                if not bundled:
                    goal = 77 if handle.startswith(('global', 'provider')) else run.jid
                    if m.num(t, m.P) != goal:
                        bad('G01', f'{op} elsewhere', f'{op} reaches another allocator: {t}')
                elif not (t == 'engine' or isinstance(t, Obj)):
                    bad('G01', f'{op} elsewhere', f'{op} reaches another allocator: {t}')
                elif t != 'engine':
                    # one handle kind, one allocator
                    kind = handle if handle != 'mixed' else MIXED_KINDS[segs.index(s)]
                    if seen.setdefault(kind, t) is not t:
                        bad('G01', f'{op} elsewhere', f'{op} reaches another allocator than the operations before it')
            got = mine[-1][4]
            if op == 'alloc':
                if (got is None) == done[1]:
                    bad('G01', 'alloc result', f'the allocator {"fails" if got is None else "succeeds"} and the handle says {"success" if done[1] else "failure"}')
                elif got is not None and not (m.to_ptr(done[2]) == got[0] and m.to_ptr(done[3]) == got[1]):
                    bad('G01', 'alloc views', f'allocated {got}, reported {done[2:4]}')
            elif op == 'release' and got != done[1]:
                bad('G01', 'release result', f'the allocator {"succeeds" if got else "fails"} and the handle says {"success" if done[1] else "failure"}')
        if done[4]:
            bad('G02', 'lock kept', f'{op} returns with the lock held')
    if not bundled:
        return
    for e in ev:
        if e[0] == 'lock' and e[2]:
            bad('G02', 'relocked', 'the lock is taken again while held')
        elif e[0] == 'other':
            bad('G02', 'other use', f'the shared state is used through {e[1]}')
        elif e[0] == 'destroyed':
            bad('G02', 'destroyed', 'the allocator is destroyed between operations')
        elif e[0] == 'shared':
            bad('G02', 'not thread-local', f'thread-local state lives in {e[1]}')
    engines = {}
    for e in ev:
        if e[0] == 'new':
            run.r.n('creations')
            o = e[1]
            if o.info['tls']:
                engines.setdefault('tls', []).append(o)
            else:
                engines.setdefault('shared', []).append(o)
                if not e[2] and not o.info['once']:
                    bad('G02', 'created unlocked', 'the allocator is created without the lock')
    for k, v in engines.items():
        if len(v) > 1:
            bad('G02', 'created again', f'{len(v)} {k} allocators were created')
    locks = set()
    for e in ev:
        if e[0] == 'op' and isinstance(e[2], Obj):
            run.r.n('guarded')
            if e[2].info['tls']:
                if shared and not local:
                    bad('G02', 'wrong allocator', f'the global {e[1]} uses a thread-local allocator')
                continue
            if not e[5]:
                bad('G02', 'unlocked', f'{e[1]} on the shared allocator without its lock')
            locks.add(tuple(id(x) for x in e[5]))
    if len(locks) > 1:
        bad('G02', 'locks differ', 'operations on the shared allocator hold different locks')


def crate(cfg, form):
    fs = build.compiled(cfg)['feats']
    more = ''
    if 'default_jit_alloc' in fs or 'global_jit_alloc' in fs:
        more += GLOBALS
    if {'default_jit_alloc', 'std'} <= set(fs):
        more += THREADS + MIXED
    if form:
        more += FORMS[form] + ('handle!(provider, |j| &K);\n' if 'static' in form else '')
    return HEAD.format(more=more)


def job(r, prop, cfg, form):
    run = Run(cfg, crate(cfg, form), r)
    m = run.m
    for name, inst in sorted(m.roots.items()):
        kind = name.rsplit('::', 1)[-1][5:]
        if name.startswith('mixed'):
            kind = 'mixed'
        box = {}

        def go(m):
            run.begin()
            run.single = kind not in ('history', 'mixed')
            a, box['want'] = arguments(run, kind)
            return m.run(inst, a)
        found = set()

        def sink(p, rule, text):
            if p != prop or rule in found:
                return
            found.add(rule)
            key = f'{cfg.split("/")[1]}:{re.sub("_.*", "", name.split("::")[0])}:{rule.replace(" ", "-")}'
            r.bad(key, f'{name} ({cfg}{", provider " + form if form else ""}): {text}')
        for res in m.explore(go):
            r.n('paths')
            judge(run, name, res, m.events, box['want'], sink)
        r.n('roots')
        r.seen('handles', cfg.split('/')[1] + name.split('::')[0])
    r.n('functions', len(m.fn_count))
    r.sample(dict(config=cfg, handles=len(m.roots), provider=form))


ARCHS = ['x86_64', 'i686', 'aarch64', 'armv7', 'thumb']


def mk_run(prop):
    def run(tier, seed):
        plan = [(a + '/std', None) for a in ARCHS + ['win64', 'win32']] + [(a + '/spin', None) for a in ARCHS] + [('x86_64/nightly', None)]
        if prop == 'G01':
            plan += [(a + '/custom', f) for a in (ARCHS if tier == 'thorough' else ARCHS[:1]) for f in FORMS]
            plan += [(a + '/custom', 'cell/path') for a in ARCHS[1:] if tier != 'thorough'] + [(a + '/nosafe', None) for a in ARCHS if a != 'i686']
        return framework.jobs([(job, (prop, c, f)) for c, f in plan])
    return run


ASSUME = ['the bundled engine does what its documentation says, does not panic, and its instruction-cache flush does nothing on 32-bit ARM Linux',
          'a std or spin lock excludes other holders and is never poisoned; thread-local storage is private to its thread',
          'each operation of the underlying allocator may succeed or fail independently']
RULE = 'Every handle (plain, references, boxes, counted pointers, user Deref types, the global and thread-local handles, both provider forms) is interpreted abstractly from its MIR for each operation and for a history of ' \
       'operations, with unknown arguments, all results of the underlying allocator, and a thread that may be exiting. '
SPEC = {
    'G01': dict(run=mk_run('G01'), floors={'roots': 1500, 'operations': 20000, 'handles': 60}, assumptions=ASSUME,
                rule=RULE + 'Rule: each operation performs exactly the corresponding operation once, with the same arguments, and reports its result; an operation on a gone thread-local allocator reports failure.'),
    'G02': dict(run=mk_run('G02'), floors={'roots': 1200, 'guarded': 5000, 'creations': 500}, assumptions=ASSUME,
                rule=RULE + 'Rule: the shared allocator is created once and used only with its one lock held, which is never taken again while held and is free when the operation returns; '
                            'thread-local operations only reach the allocator in thread-local storage.'),
}
