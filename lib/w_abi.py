"""Generates the witness programs for the calling-convention properties.

A witness hands the library instrumented callables. `K*` types implement the three call traits by hand, so that
the way a thunk uses its closure (consumed, mutably or shared borrowed) is visible in the calls of `spy_call`."""

COMMON = [('Rust', 'Rust'), ('C', 'C'), ('CUnwind', 'C-unwind'), ('System', 'system'), ('SystemUnwind', 'system-unwind'),
          ('Efiapi', 'efiapi')]
OF = {
    'x86_64': [('Sysv64', 'sysv64'), ('Sysv64Unwind', 'sysv64-unwind'), ('Win64', 'win64'), ('Win64Unwind', 'win64-unwind')],
    'i686': [('Fastcall', 'fastcall'), ('FastcallUnwind', 'fastcall-unwind'), ('Stdcall', 'stdcall'),
             ('StdcallUnwind', 'stdcall-unwind'), ('Cdecl', 'cdecl'), ('CdeclUnwind', 'cdecl-unwind'),
             ('Thiscall', 'thiscall'), ('ThiscallUnwind', 'thiscall-unwind')],
    'armv7': [('Aapcs', 'aapcs'), ('AapcsUnwind', 'aapcs-unwind')],
    'thumb': [('Aapcs', 'aapcs'), ('AapcsUnwind', 'aapcs-unwind')],
    'aarch64': [],
}
OF['win64'], OF['win32'] = OF['x86_64'], OF['i686']
# the constructors named after a convention: (stem, marker, where they exist)
CTORS = [('new_rust', 'Rust', None), ('new_c', 'C', None), ('new_system', 'System', None), ('new_efiabi', 'Efiapi', None),
         ('new_sysv64', 'Sysv64', ('x86_64',)), ('new_aapcs', 'Aapcs', ('armv7', 'thumb')),
         ('new_win64', 'Win64', ('win64',)), ('new_fastcall', 'Fastcall', ('win32',)), ('new_stdcall', 'Stdcall', ('win32',)),
         ('new_cdecl', 'Cdecl', ('win32',)), ('new_thiscall', 'Thiscall', ('win32',))]
KINDS = [('once', 'FnOnceThunk', 'THUNK_TEMPLATE_ONCE', 'BareFnOnceAny', 'UntypedBareFnOnce', 'make_once_thunk', 'call_once', 1, 'once_'),
         ('mut', 'FnMutThunk', 'THUNK_TEMPLATE_MUT', 'BareFnMutAny', 'UntypedBareFnMut', 'make_mut_thunk', 'call_mut', 2, 'mut_'),
         ('shared', 'FnThunk', 'THUNK_TEMPLATE', 'BareFnAny', 'UntypedBareFn', 'make_thunk', 'call', 3, '')]

HEAD = '''#![no_std]
#![feature(unboxed_closures, fn_traits{features})]
#![allow(improper_ctypes, improper_ctypes_definitions, dead_code, unused, non_camel_case_types)]
extern crate alloc;
use closure_ffi::bare_closure::*;
use closure_ffi::jit_alloc::{{JitAlloc, JitAllocError, ProtectJitAccess}};
use closure_ffi::traits::*;
use closure_ffi::{{cc, thunk_factory}};

extern "Rust" {{
    fn spy_call(this: *const u8, kind: usize, args: *const u8, ret: *mut u8);
    fn spy_drop(this: *const u8);
    fn spy_new(this: *mut u8, size: usize);
}}

/// Arguments of different types, so that each position has its own.
#[derive(Clone, Copy)]
pub struct A<const N: usize>(usize);
#[derive(Clone, Copy)]
pub struct Ret(usize);
#[derive(Clone, Copy)]
pub struct Big([usize; 5]);

/// Everything a callable does with its arguments: they are recorded in order, by value.
fn record<T, R>(this: *const u8, kind: usize, args: T) -> R {{
    let args = core::mem::ManuallyDrop::new(args);
    let mut r = core::mem::MaybeUninit::<R>::uninit();
    unsafe {{
        spy_call(this, kind, &args as *const _ as *const u8, r.as_mut_ptr() as *mut u8);
        r.assume_init()
    }}
}}

macro_rules! callable {{
    ($n:ident, $t:ty $(, $a:literal)?) => {{
        $(#[repr(align($a))])?
        pub struct $n($t);
        impl Drop for $n {{
            fn drop(&mut self) {{ unsafe {{ spy_drop(self as *const $n as *const u8) }} }}
        }}
        impl $n {{
            fn mk() -> Self {{
                let mut r = core::mem::MaybeUninit::<Self>::uninit();
                unsafe {{
                    spy_new(r.as_mut_ptr() as *mut u8, core::mem::size_of::<Self>());
                    r.assume_init()
                }}
            }}
        }}
    }};
}}
callable!(K, [usize; 2]);
callable!(KZ, ());
callable!(KZ64, (), 64);
callable!(K1, u8);
callable!(KBig, [usize; 40]);
callable!(KAl, [usize; 16], 64);

macro_rules! calls {{
    (($($g:tt)*), $k:ty, $args:ty, $r:ty) => {{
        impl $($g)* FnOnce<$args> for $k {{
            type Output = $r;
            extern "rust-call" fn call_once(self, args: $args) -> $r {{ record(&self as *const Self as *const u8, 1, args) }}
        }}
        impl $($g)* FnMut<$args> for $k {{
            extern "rust-call" fn call_mut(&mut self, args: $args) -> $r {{ record(self as *mut Self as *const u8, 2, args) }}
        }}
        impl $($g)* Fn<$args> for $k {{
            extern "rust-call" fn call(&self, args: $args) -> $r {{ record(self as *const Self as *const u8, 3, args) }}
        }}
    }};
}}

fn t_once<C, F, B: FnPtr>() -> *const u8 where (C, F): FnOnceThunk<B> {{ <(C, F) as FnOnceThunk<B>>::THUNK_TEMPLATE_ONCE }}
fn t_mut<C, F, B: FnPtr>() -> *const u8 where (C, F): FnMutThunk<B> {{ <(C, F) as FnMutThunk<B>>::THUNK_TEMPLATE_MUT }}
fn t_shared<C, F, B: FnPtr>() -> *const u8 where (C, F): FnThunk<B> {{ <(C, F) as FnThunk<B>>::THUNK_TEMPLATE }}
fn of_once<B: FnPtr, T: FnOnceThunk<B>>(t: T) -> *const u8 {{ core::mem::forget(t); T::THUNK_TEMPLATE_ONCE }}
fn of_mut<B: FnPtr, T: FnMutThunk<B>>(t: T) -> *const u8 {{ core::mem::forget(t); T::THUNK_TEMPLATE_MUT }}
fn of_shared<B: FnPtr, T: FnThunk<B>>(t: T) -> *const u8 {{ core::mem::forget(t); T::THUNK_TEMPLATE }}
fn do_once<B: FnPtr, T: FnOnceThunk<B>>(t: T, a: B::Args<'static, 'static, 'static>) -> B::Ret<'static, 'static, 'static> {{ unsafe {{ t.call_once(a) }} }}
fn do_mut<B: FnPtr, T: FnMutThunk<B>>(t: T, a: B::Args<'static, 'static, 'static>) -> B::Ret<'static, 'static, 'static> {{
    let mut t = core::mem::ManuallyDrop::new(t);
    unsafe {{ t.call_mut(a) }}
}}
fn do_shared<B: FnPtr, T: FnThunk<B>>(t: T, a: B::Args<'static, 'static, 'static>) -> B::Ret<'static, 'static, 'static> {{
    let t = core::mem::ManuallyDrop::new(t);
    unsafe {{ t.call(a) }}
}}

/// No allocation is needed for zero-sized callables, so this one is never asked.
pub struct NoJit;
impl JitAlloc for NoJit {{
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {{ loop {{}} }}
    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {{ loop {{}} }}
    unsafe fn protect_jit_memory(&self, p: *const u8, size: usize, access: ProtectJitAccess) {{ loop {{}} }}
    unsafe fn flush_instruction_cache(&self, p: *const u8, size: usize) {{ loop {{}} }}
}}
'''


def head(info):
    fs = set(info['feats'])
    f = ''
    if 'c_variadic' in fs:
        f += ', c_variadic'
    if 'coverage' in fs:
        f += ', coverage_attribute'
    if 'tuple_trait' in fs:
        f += ', tuple_trait'
    return HEAD.format(features=f)


class Crate:
    """Collects modules of roots and what is expected of each."""

    def __init__(self, info):
        self.src = head(info)
        self.expect = {}
        self.mods = 0
        self.lines = {}
        self.rename = {}

    def unit(self, name, decl, bty, marker, abi, args, ret, variadic=False, deep=False, direct=True, ctors=(), gen='', glob=False,
             full=None, raw=None):
        """One bare function type: all the ways it can be used."""
        full = full or args
        mod = f'm{self.mods}'
        self.mods += 1
        tup = '(' + ''.join(a + ', ' for a in full) + ')'
        stup = tup.replace("'a ", "'static ").replace("'b ", "'static ").replace("'c ", "'static ") if gen else tup
        sret = ret.replace("'a ", "'static ").replace("'b ", "'static ").replace("'c ", "'static ") if gen else ret
        ks = ['K', 'KZ'] + (['KZ64', 'K1', 'KBig', 'KAl'] if deep else [])
        s = [f'pub mod {mod} {{ use super::*;', decl.replace('\n', ' '), f'type B = {bty};', f'type TA = {stup};', f'type TR = {sret};']
        for k in ks:
            # a call signature of its own per unit, or implementations for two units would overlap
            s.append(f'pub struct {k}(super::{k});')
            s.append(f'impl {k} {{ fn mk() -> Self {{ {k}(super::{k}::mk()) }} }}')
            s.append(f'calls!(({gen}), {k}, {tup}, {ret});')
        e = dict(name=name, abi=abi, args=args, ret=ret, variadic=variadic, full=full)
        first = self.src.count('\n') + 1

        def root(n, sig, body, **x):
            self.lines[first + len(s)] = f'{mod}::root_{n}'
            s.append(f'pub fn root_{n}{sig} {{ {body} }}')
            self.expect[f'{mod}::root_{n}'] = dict(e, root=n, **x)
        # the types a bare function exposes
        root('cc', f'(c: <B as FnPtr>::CC) -> {marker}', 'c', what='type')
        if not gen:
            root('args', "(a: <B as FnPtr>::Args<'static, 'static, 'static>) -> TA", 'a', what='type')
            root('ret', "(a: <B as FnPtr>::Ret<'static, 'static, 'static>) -> TR", 'a', what='type')
        for kind, tr, const, W, U, make, call, num, ff in KINDS:
            for k in ks:
                root(f't_{kind}_{k}', '() -> *const u8', f't_{kind}::<{marker}, {k}, B>()', what='thunk', kind=num, k=k)
            # a zero-sized callable's wrapper exposes its compiled thunk
            root(f'w_{kind}', '() -> *const ()',
                 f'{W}::<B, dyn Any, NoJit>::with_cc_in(<{marker}>::default(), KZ::mk(), NoJit).leak().to_ptr()', what='thunk', kind=num, k='KZ')
            root(f'wt_{kind}', '() -> *const ()',
                 f'{W}::<B, dyn Any, NoJit>::with_thunk_in((<{marker}>::default(), KZ::mk()), NoJit).leak().to_ptr()', what='thunk', kind=num, k='KZ')
            for c in ctors:
                root(f'c_{kind}_{c}', '() -> *const ()', f'{W}::<B, dyn Any, NoJit>::{c}_in(KZ::mk(), NoJit).leak().to_ptr()', what='thunk', kind=num, k='KZ')
                if glob:
                    root(f'g_{kind}_{c}', '() -> *const ()', f'{W}::<B, dyn Any>::{c}(KZ::mk()).leak().to_ptr()', what='thunk', kind=num, k='KZ')
            for k in ks:
                root(f'k_{kind}_{k}', '(t: TA) -> TR', f'do_{kind}::<B, _>((<{marker}>::default(), {k}::mk()), t)', what='direct', kind=num, k=k)
            # packed-argument callables
            pk = {'once': 'FnOnce::call_once(k, t)', 'mut': '(&mut k).call_mut(t)', 'shared': '(&k).call(t)'}[kind]
            # (capturing a reference to the callable would not tell consuming from borrowing, so the callable itself moves in)
            for k in ('K', 'KZ'):
                mk = f'{{ let {"mut " if kind == "mut" else ""}k = {k}::mk(); pack_{kind}(move |t| {pk}) }}'
                root(f'm_{kind}_{k}', '() -> *const u8', f'of_{kind}::<B, _>(<B as FnPtr>::{make}({mk}))', what='thunk', kind=num, k=k)
                root(f'd_{kind}_{k}', '(t: TA) -> TR', f'do_{kind}::<B, _>(<B as FnPtr>::{make}({mk}), t)', what='direct', kind=num, k=k)
                if deep:
                    for fac in ('', 'send', 'sync', 'send_sync'):
                        fn = 'make_' + ff + fac if fac else 'make' + ('_' + ff[:-1] if ff else '')
                        for q in ('of', 'do'):
                            root(f'f{q}_{fn}_{k}', '() -> *const u8' if q == 'of' else '(t: TA) -> TR',
                                 f'{q}_{kind}::<B, _>(thunk_factory::{fn}::<B, _>({mk})' + (', t)' if q == 'do' else ')'),
                                 what='thunk' if q == 'of' else 'direct', kind=num, k=k)
            trn = {'once': 'FnOnce', 'mut': 'FnMut', 'shared': 'Fn'}[kind]
            bound = f"for<'a, 'b, 'c> Packed{trn}<'a, 'b, 'c, B>" if gen else f'{trn}({tup}) -> {ret}'
            s.append(f'fn pack_{kind}<F: {bound}>(f: F) -> F {{ f }}')
        root('ptr', '(f: B) -> *const ()', 'f.to_ptr()', what='ptr')
        root('from', '(p: *const ()) -> B', 'unsafe { B::from_ptr(p) }', what='ptr')
        if raw:
            s.append(f'type RAW = {raw};')
            root('into', '(f: RAW) -> B', 'B::from(f)', what='ptr')
            root('outof', '(f: B) -> RAW', 'f.into()', what='ptr')
            root('deref', '(f: B) -> RAW', '*f', what='ptr')
            root('field', '(f: B) -> RAW', 'f.0', what='ptr')
            root('clone', '(f: B) -> B', 'f.clone()', what='ptr')
            root('copy', '(f: B) -> (B, B)', '(f, f)', what='type')
            root('debug', "(f: B) -> &'static dyn core::fmt::Debug", 'loop {}; let x: &dyn core::fmt::Debug = &f;', what='type')
            root('marker', '(f: B) -> ' + marker, f'{bty.replace("H<", "H::<")}::cc()', what='type')
        if not variadic:
            root('call', '(f: B, t: TA) -> TR', 'unsafe { FnPtr::call(f, t) }', what='call')
        s.append('}')
        for i in range(len(s)):
            self.lines.setdefault(first + i, mod)
        self.src += '\n'.join(s) + '\n'

    def without(self, names):
        """Blank the given roots (or whole units), keeping all line numbers."""
        ls = self.src.split('\n')
        for l, n in self.lines.items():
            if n in names or n.split('::')[0] in names:
                ls[l - 1] = ''
        self.src = '\n'.join(ls)
        self.expect = {n: e for n, e in self.expect.items() if n not in names and n.split('::')[0] not in names}


def builtin(info, arch, part, parts, variadic=False):
    """The built-in function pointer types of one architecture; every `parts`-th convention from `part`."""
    c = Crate(info)
    glob = 'default_jit_alloc' in info['feats'] or 'global_jit_alloc' in info['feats']
    if variadic:
        for n in range(13):
            args = [f'A<{i}>' for i in range(n)]
            bty = 'unsafe extern "C" fn(' + ''.join(a + ', ' for a in args) + '...) -> Ret'
            c.unit(f'Variadic/{n}', '', bty, 'cc::Variadic', 'C', args, 'Ret', variadic=True, deep=n in (0, 3),
                   ctors=['new_variadic'], gen="<'a>", glob=glob, full=args + ["core::ffi::VaList<'a >"])
        return c
    for marker, abi in (COMMON + OF[arch])[part::parts]:
        ctors = [s for s, m, w in CTORS if m == marker and (w is None or arch in w)]
        for n in range(13):
            args = [f'A<{i}>' for i in range(n)]
            bty = f'unsafe extern "{abi}" fn(' + ', '.join(args) + ') -> Ret'
            c.unit(f'{marker}/{n}', '', bty, f'cc::{marker}', abi, args, 'Ret', deep=marker == 'C' and n in (0, 3, 12), ctors=ctors, glob=glob)
        # other shapes of arguments and results
        if marker in ('Rust', 'C', 'CUnwind', 'Sysv64', 'Aapcs', 'Fastcall'):
            for args, ret in (([], '()'), (['()'], 'Big'), (['Big', 'u8', 'f64', '()', "&'static str"], 'Big'), (['u16', 'u16', 'u16', 'u16'], 'u8')):
                bty = f'unsafe extern "{abi}" fn(' + ', '.join(args) + f') -> {ret}'
                c.unit(f'{marker}({", ".join(args)})->{ret}', '', bty, f'cc::{marker}', abi, args, ret, ctors=ctors)
    return c


# ------------------------------------------------------------------------------------------ declared types
def decl(name, generics, where, lts, unsafety, abi, args, ret, vis='pub '):
    f = (f"for<{', '.join(lts)}> " if lts else '') + unsafety + (f'extern "{abi}" ' if abi else 'extern ' if abi == '' else '') + f"fn({', '.join(args)})" + (f' -> {ret}' if ret else '')
    return f'closure_ffi::bare_hrtb! {{ {vis}type {name}{generics}{where} = {f}; }}'


def declared(info, arch, part, parts, few=False):
    """Types made by the declaration macro."""
    c = Crate(info)
    us = []
    abis = [a for _, a in COMMON + OF[arch]]
    L = ["'a", "'b", "'c"]
    for k, abi in enumerate(abis):
        for n in ((0, 1, 2, 3, 12, 14) if not few or abi == 'C' else (2,)):
            # every position has its own type
            args = [f'A<{i}>' for i in range(n)]
            us.append((f'{abi}/{n}', '', '', [], '', abi if abi != 'Rust' or n % 2 else None, abi, args, 'Ret', 'H', n in (2, 12) and abi == 'C'))
            if n in (1, 2, 3, 14):
                # and the same type at all positions, with lifetimes
                for nl in (1, 2, 3):
                    if nl > n:
                        continue
                    lt = [L[i % nl] for i in range(n)]
                    args = [f"&{x} usize" for x in lt]
                    us.append((f'{abi}/{n} with {nl} lifetimes', '', '', L[:nl], 'unsafe ' if n % 2 else '', abi if abi != 'Rust' else None, abi, args, f'&{lt[-1]} usize', 'H', False))
    us.append(('nothing returned', '', '', [], '', 'C', 'C', ['A<0>'], '', 'H', False))
    us.append(('large values', '', '', ["'a"], '', 'C', 'C', ['Big', 'u8', '()', "&'a [u8]", 'f64'], 'Big', 'H', True))
    us.append(('zero-sized values', '', '', [], '', 'C', 'C', ['()', '()'], '()', 'H', False))
    for n in (0, 2, 13):
        us.append((f'unnamed ABI/{n}', '', '', [], 'unsafe ' if n else '', '', 'C', [f'A<{i}>' for i in range(n)], 'Ret', 'H', n == 2))
    us.append(('unnamed ABI with lifetimes', '', '', ["'a", "'b"], '', '', 'C', ["&'a usize", "&'b usize"], "&'b usize", 'H', False))
    us.append(('generic', '<T: Copy, U: \'static>', '', ["'a"], '', 'C-unwind', 'C-unwind', ['T', "&'a U", 'U'], 'T', 'H<A<1>, A<2>>', True))
    us.append(('generic where', '<T, U>', ' where T: Copy + \'static, U: Clone + \'static', ["'a", "'b"], '', 'system', 'system', ["&'a T", "&'b U", 'T'], "&'b U", 'H<A<1>, A<2>>', False))
    us.append(('generic lifetime', "<'x, T: 'static>", '', ["'a"], 'unsafe ', 'C', 'C', ["&'x T", "&'a T"], "&'x T", "H<'static, A<1>>", False))
    us.append(('generic swapped', '<T, U>', '', [], '', 'C', 'C', ['U', 'T'], 'U', 'H<A<1>, A<2>>', False))
    us.append(('unsized generic', '<T: ?Sized + \'static>', '', ["'a"], '', 'C', 'C', ["&'a T", 'usize'], "&'a T", 'H<str>', False))
    us.append(('named arguments', '', '', ["'a"], '', 'C', 'C', ["second: &'a A<1>", 'first: A<0>', 'a0: A<2>'], 'Ret', 'H', False))
    us.append(('pointers', '', '', ["'a"], '', 'C', 'C', ["*const &'a u8", "Option<&'a u16>", 'extern "C" fn(u8) -> u8', "&'a mut u8"], "Option<&'a u16>", 'H', False))
    for name, g, w, lts, us_, abi, real, args, ret, bty, deep in us[part::parts]:
        inst = {'T': 'str' if 'str' in bty else 'A<1>', 'U': 'A<2>'}

        def subst(t):
            t = t.split(': ')[-1] if ': ' in t else t
            t = t.replace("'x", "'static")
            for q, x in inst.items():
                if g:
                    t = ' '.join(x if tok == q else tok for tok in t.split(' '))
            return t
        # a space behind each lifetime is what unit() looks for
        conc = [subst(a) for a in args]
        sret = subst(ret) if ret else '()'
        raw = (f"for<{', '.join(lts)}> " if lts else '') + f'unsafe extern "{real}" fn({", ".join(conc)}) -> {sret}'
        gen = f"<{', '.join(lts)}>" if lts else ''
        c.unit(f'declared {name}', decl('H', g, w, lts, us_, abi, args, ret), bty, 'H_CC', real, conc, sret, gen=gen, deep=deep, raw=raw)
    return c
