"""Type-level properties, decided by the trait solver, the layout computation and the borrow checker."""
import itertools, re
import framework, build, rsq

KINDS = {
    'once': dict(W='BareFnOnceAny', U='UntypedBareFnOnce', tr='FnOnce', th='FnOnceThunk', al='BareFnOnce', syn='BareFnOnceSync', need='Send', f='once_', mk='make_once_thunk', call='call_once'),
    'mut': dict(W='BareFnMutAny', U='UntypedBareFnMut', tr='FnMut', th='FnMutThunk', al='BareFnMut', syn='BareFnMutSync', need='Send', f='mut_', mk='make_mut_thunk', call='call_mut'),
    'shared': dict(W='BareFnAny', U='UntypedBareFn', tr='Fn', th='FnThunk', al='BareFn', syn='BareFnSync', need='Sync', f='', mk='make_thunk', call='call'),
}
SUBSETS = [(), ('Send',), ('Sync',), ('Send', 'Sync')]
HEAD = '''#![no_std]
#![allow(dead_code, unused, improper_ctypes)]
{features}
extern crate alloc;
extern crate std;
use core::cell::Cell;
use core::marker::PhantomData;
use alloc::boxed::Box;
use alloc::rc::Rc;
use alloc::sync::Arc;
use closure_ffi::bare_closure::*;
use closure_ffi::jit_alloc::*;
use closure_ffi::traits::*;
use closure_ffi::{{cc, thunk_factory}};
macro_rules! jit {{ ($n:ident, $t:ty) => {{
    #[derive(Default)]
    pub struct $n(PhantomData<$t>);
    impl JitAlloc for $n {{
        fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {{ Err(JitAllocError) }}
        unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {{ Ok(()) }}
        unsafe fn protect_jit_memory(&self, p: *const u8, size: usize, access: ProtectJitAccess) {{}}
        unsafe fn flush_instruction_cache(&self, p: *const u8, size: usize) {{}}
    }}
}} }}
pub struct OnlySync(PhantomData<*mut ()>);
unsafe impl Sync for OnlySync {{}}
jit!(JBoth, ());
jit!(JNone, *mut ());
jit!(JSend, Cell<u8>);
jit!(JSync, OnlySync);
type B = unsafe extern "C" fn(usize) -> usize;
'''
DYN = {(): 'dyn Any', ('Send',): 'dyn Send', ('Sync',): 'dyn Sync', ('Send', 'Sync'): 'dyn Send + Sync'}


def head(info):
    fs = [f for f in ('tuple_trait', 'c_variadic') if f in info['feats']]
    if 'coverage' in info['feats']:
        fs.append('coverage_attribute')
    if 'tuple_trait' in info['feats']:
        fs.append('unboxed_closures')
    return HEAD.format(features=''.join(f'#![feature({f})]\n' for f in fs))


def bnd(ms, first=''):
    return ' + '.join(([first] if first else []) + list(ms))


# ------------------------------------------------------------------------------------------ T01
def t01(r, cfg):
    info = build.compiled(cfg)
    code = head(info)
    want = {}
    hr = 'proc_macros' in info['feats']
    if hr:
        code += 'closure_ffi::bare_hrtb! { pub type H = for<\'a> extern "C" fn(&\'a u8) -> &\'a u8; }\n'
    k = itertools.count()

    def q(gen, tys, expect, what):
        n = f'query_{next(k)}'
        nonlocal code
        code += f'fn {n}{gen}({", ".join(f"a{i}: {t}" for i, t in enumerate(tys))}) {{}}\n'
        want[n] = (expect, what)
    for kn, kd in KINDS.items():
        for s in SUBSETS:
            for a in SUBSETS:
                g = f'<BB: FnPtr, S: ?Sized{"".join(" + " + x for x in s)}, A: JitAlloc{"".join(" + " + x for x in a)}>'
                tys = [f'{kd["W"]}<BB, S, A>', f'{kd["U"]}<S, A>', f'{kd["W"]}<B, S, A>'] + ([f'{kd["W"]}<H, S, A>'] if hr else [])
                q(g, tys, {'Send': 'Send' in s and 'Send' in a, 'Sync': kd['need'] in s, 'Copy': False},
                  f'{kn} wrapper with S: {bnd(s) or "(nothing)"}, A: {bnd(a) or "(nothing)"}')
            for j, (jn, js) in enumerate({'JBoth': 'Send Sync', 'JNone': '', 'JSend': 'Send', 'JSync': 'Sync', "&'static JBoth": 'Send Sync',
                                          "&'static JSend": '', "&'static JSync": 'Send Sync', 'Rc<JBoth>': '', 'Arc<JSend>': '', 'Arc<JBoth>': 'Send Sync',
                                          'GlobalJitAlloc': 'Send Sync', 'ThreadJitAlloc': ''}.items()):
                if jn == 'GlobalJitAlloc' and 'global_jit_alloc' not in info['feats'] and 'default_jit_alloc' not in info['feats']:
                    continue
                if jn == 'ThreadJitAlloc' and not {'default_jit_alloc', 'std'} <= set(info['feats']):
                    continue
                for B in ['B'] + (['H'] if hr and j < 2 else []):
                    q("<'x>", [f"{kd['W']}<{B}, {DYN[s]} + 'x, {jn}>", f"{kd['U']}<{DYN[s]} + 'x, {jn}>"],
                      {'Send': 'Send' in s and 'Send' in js, 'Sync': kd['need'] in s, 'Copy': False}, f'{kn} wrapper of {DYN[s]} with allocator {jn}')
        q("<'x>", [f"{kd['syn']}<'x, B, JBoth>"], {'Send': True, 'Sync': True, 'Copy': False}, f'{kd["syn"]} alias') if kn != 'x' else None
        q("<'x>", [f"{kd['al']}<'x, B, JBoth>"], {'Send': False, 'Sync': False, 'Copy': False}, f'{kd["al"]} alias')
    if 'global_jit_alloc' in info['feats'] or 'default_jit_alloc' in info['feats']:
        q('', ['GlobalJitAlloc'], {'Send': True, 'Sync': True}, 'the global allocator handle')
    if {'default_jit_alloc', 'std'} <= set(info['feats']):
        q('', ['ThreadJitAlloc', 'Option<ThreadJitAlloc>', "&'static ThreadJitAlloc"], {'Send': False, 'Sync': False}, 'the thread-local allocator')
    d = rsq.queries(cfg, code, 't01')['queries']
    for n, (exp, what) in want.items():
        if n not in d:
            r.err(f'{cfg}: no answer for {n}')
            continue
        for v in d[n].values():
            for tr, e in exp.items():
                r.n('obligations')
                if v[tr] is not e:
                    r.bad(f'{tr}:{what}@{cfg}', f'{cfg}: {what}: {v["ty"]} is {"not " if e else ""}{tr}')
        r.seen('types', what)
    r.n('configurations')
    r.sample(f'{cfg}: {want["query_5"][1]} -> {want["query_5"][0]}')


# ------------------------------------------------------------------------------------------ T02
CCS = {'x86_64': ['Rust', 'C', 'C-unwind', 'system', 'system-unwind', 'efiapi', 'sysv64', 'sysv64-unwind', 'win64', 'win64-unwind'],
       'i686': ['Rust', 'C', 'C-unwind', 'system', 'system-unwind', 'efiapi', 'fastcall', 'fastcall-unwind', 'stdcall', 'stdcall-unwind', 'cdecl', 'cdecl-unwind', 'thiscall', 'thiscall-unwind'],
       'aarch64': ['Rust', 'C', 'C-unwind', 'system', 'system-unwind', 'efiapi'],
       'armv7': ['Rust', 'C', 'C-unwind', 'system', 'system-unwind', 'efiapi', 'aapcs', 'aapcs-unwind'],
       'thumb': ['Rust', 'C', 'C-unwind', 'system', 'system-unwind', 'efiapi', 'aapcs', 'aapcs-unwind']}
FACTORIES = [(kn, s) for kn in KINDS for s in SUBSETS]


def fname(kn, s):
    return 'make_' + KINDS[kn]['f'] + '_'.join(x.lower() for x in s) if s else 'make_' + KINDS[kn]['f'] if KINDS[kn]['f'] else 'make'


def factory(kn, s):
    return ('make_' + KINDS[kn]['f'] + '_'.join(x.lower() for x in s)).rstrip('_')


def t02(r, cfg):
    info = build.compiled(cfg)
    hd = head(info)
    hr = 'proc_macros' in info['feats']
    if hr:
        hd += 'closure_ffi::bare_hrtb! { pub type H = for<\'a> extern "C" fn(&\'a u8, usize) -> &\'a u8; }\n'
        hd += 'closure_ffi::bare_hrtb! { pub type H3<T: \'static> = for<\'a, \'b, \'c> fn(&\'a T, &\'b T, &\'c u8) -> &\'b u8; }\n'
    packed = lambda kn, b: f"for<'x, 'y, 'z> Packed{KINDS[kn]['tr']}<'x, 'y, 'z, {b}>"
    # nothing but the promised markers is demanded, and they are promised whatever the function type
    cases = []
    for kn, s in FACTORIES:
        f = factory(kn, s)
        th = KINDS[kn]['th']
        cases.append((f'least:{f}', '', True, f"pub fn p<BB: FnPtr, F: {bnd(s + (packed(kn, 'BB'),))}>(f: F) -> impl {bnd((th + '<BB>',) + s)} {{ thunk_factory::{f}::<BB, F>(f) }}"))
        for m in s:
            rest = tuple(x for x in s if x != m)
            cases.append((f'needs {m}:{f}', 'type', False, f"pub fn p<BB: FnPtr, F: {bnd(rest + (packed(kn, 'BB'),))}>(f: F) -> impl {th}<BB> {{ thunk_factory::{f}::<BB, F>(f) }}"))
    for kn in KINDS:
        cases.append((f'least:FnPtr::{KINDS[kn]["mk"]}', '', True, f"pub fn p<BB: FnPtr, F: {packed(kn, 'BB')}>(f: F) -> impl {KINDS[kn]['th']}<BB> {{ BB::{KINDS[kn]['mk']}(f) }}"))
    res = rsq.judge(info, hd, cases)
    usable = set()
    for n, st, ok, c in cases:
        r.n('programs')
        got, msg = res[n]
        if ok and not got:
            r.bad(f'{n}@{cfg}', f'{cfg}: {n.split(":", 1)[1]} does not accept a closure with only the markers it promises, or does not keep them: {msg[0][1]}')
        elif ok:
            usable.add(n.split(':', 1)[1])
        elif got:
            r.bad(f'{n}@{cfg}', f'{cfg}: {n.split(":", 1)[1]} promises {n.split()[1].split(":")[0]} without demanding it of the closure')
    # concrete function types: what the hidden thunk type has
    arch = cfg.split('/')[0]
    Bs = [f'unsafe extern "{c}" fn({", ".join(["usize"] * n)}) -> usize' for c in CCS[arch] for n in (0, 1, 5, 12)]
    if 'c_variadic' in info['feats']:
        Bs += ['unsafe extern "C" fn(...) -> usize', 'unsafe extern "C" fn(usize, usize, ...)']
    if hr:
        Bs += ['H', 'H3<u8>', 'H3<Rc<u8>>']
    Bs += ['unsafe extern "C" fn(Rc<u8>) -> *mut ()']
    code = hd
    want = {}
    k = itertools.count()
    for b in Bs:
        for kn, s in FACTORIES + [(kn, None) for kn in KINDS]:
            f = factory(kn, s) if s is not None else 'FnPtr::' + KINDS[kn]['mk']
            if f not in usable:
                continue
            for have in SUBSETS:
                if not set(s or ()) <= set(have):
                    continue
                n = f'query_{next(k)}'
                call = f'thunk_factory::{f}::<{b}, F>(f)' if s is not None else f'<{b} as FnPtr>::{KINDS[kn]["mk"]}(f)'
                code += f'fn {n}<F: {bnd(have + (packed(kn, b),))}>(f: F) {{ let thunk = {call}; core::mem::forget(thunk); }}\n'
                want[n] = (b, f, s or (), have)
    if 'std' in cfg:
        for j, c in enumerate(CCS[arch]):
            m = ''.join(x.capitalize() for x in c.split('-'))
            n = f'query_{next(k)}'
            code += f'fn {n}(a: cc::{m}) {{}}\n'
            want[n] = (None, f'cc::{m}', (), ())
    d = rsq.queries(cfg, code, 't02')['queries']
    for n, (b, f, s, have) in want.items():
        r.n('obligations', 2)
        if b is None:
            v = d[n]['arg0']
            for tr in ('Send', 'Sync', 'Copy'):
                if v[tr] is not True:
                    r.bad(f'{f}:{tr}@{cfg}', f'{cfg}: the marker {f} is not {tr}')
            continue
        v = d[n].get('thunk')
        if v is None:
            r.err(f'{cfg}: no thunk type for {f}')
            continue
        r.seen('thunk types', v['ty'])
        for tr in ('Send', 'Sync'):
            if v[tr] and tr not in have:
                r.bad(f'adds {tr}:{f}@{cfg}', f'{cfg}: {f} for {b} makes a {tr} thunk of a closure that is {bnd(have) or "neither Send nor Sync"}')
            if tr in s and not v[tr]:
                r.bad(f'lacks {tr}:{f}@{cfg}', f'{cfg}: {f} for {b} makes a thunk that is not {tr}')
    r.n('configurations')
    r.sample(f'{cfg}: {want["query_3"]}')


# ------------------------------------------------------------------------------------------ T04
def t04(r, cfg):
    info = build.compiled(cfg)
    arch = cfg.split('/')[0]
    hd = head(info)
    hr = 'proc_macros' in info['feats']
    Bs = [f'unsafe extern "{c}" fn({", ".join(["usize"] * n)}) -> usize' for c in CCS[arch] for n in (range(13) if c in ('C', 'Rust') else (0, 3, 12))]
    Bs += ['unsafe extern "C" fn([u8; 100], f64) -> [u64; 9]', 'unsafe fn(&\'static str) -> Option<Box<u8>>']
    if 'c_variadic' in info['feats']:
        Bs += [f'unsafe extern "C" fn({"u8, " * n}...)' for n in range(13)]
    if hr:
        hd += 'closure_ffi::bare_hrtb! { pub type H = for<\'a> extern "C" fn(&\'a u8, usize) -> &\'a u8; }\n'
        hd += 'closure_ffi::bare_hrtb! { pub type H3<T: \'static, U> = for<\'a, \'b, \'c> fn(&\'a T, &\'b T, U, &\'c u8) -> &\'c u8; }\n'
        hd += 'closure_ffi::bare_hrtb! { pub(crate) type H0 = unsafe extern "system" fn(); }\n'
        hd += 'closure_ffi::bare_hrtb! { #[derive(PartialEq)] pub type HA<\'z, T: \'z> = unsafe extern "C-unwind" fn(&\'z T, [u8; 77]) -> T; }\n'
        Bs += ['H', 'H3<u8, [u8; 9]>', 'H3<Box<u8>, ()>', 'H0', "HA<'static, u64>"]
    As = ['JBoth', "&'static JBoth", 'Arc<JBoth>', 'Box<JNone>'] + (['GlobalJitAlloc'] if 'global_jit_alloc' in info['feats'] or 'default_jit_alloc' in info['feats'] else [])
    code = hd
    want = {}
    k = itertools.count()
    for b in Bs:
        n = f'query_{next(k)}'
        code += f'fn {n}(a: {b}) {{}}\n'
        want[n] = ('fn', b)
    few = Bs[:4] + Bs[-6:]
    for kn, kd in KINDS.items():
        for a in As:
            for s in SUBSETS:
                n = f'query_{next(k)}'
                ts = [f"{kd['U']}<{DYN[s]} + 'static, {a}>"] + [f"{kd['W']}<{b}, {DYN[s]} + 'static, {a}>" for b in few]
                code += f'fn {n}({", ".join(f"a{i}: {t}" for i, t in enumerate(ts))}) {{}}\n'
                want[n] = (kn, a)
    d = rsq.queries(cfg, code, 't04')
    P = d['ptr']
    d = d['queries']
    base = {}
    for n, (kn, x) in want.items():
        v = list(d[n].values())
        r.n('layouts', len(v))
        if kn == 'fn':
            sh = v[0]['shape']
            if sh is None or sh['size'] != P or sh['align'] != P or not sh['fnptr']:
                r.bad(f'fnptr:{x}@{cfg}', f'{cfg}: {x} is not exactly one code pointer: {sh}')
            continue
        u = v[0]
        for w in v[1:]:
            if w['shape'] is None or u['shape'] is None:
                r.err(f'{cfg}: no layout for {w["ty"]}')
                continue
            if u['ty'] not in w['shape']['over']:
                r.bad(f'transparent:{KINDS[kn]["W"]}@{cfg}', f'{cfg}: {w["ty"]} is not guaranteed to have the layout of {u["ty"]} (its untyped wrapper)')
            for key in ('size', 'align', 'repr'):
                if w['shape'][key] != u['shape'][key]:
                    r.bad(f'{key}:{KINDS[kn]["W"]}@{cfg}', f'{cfg}: {w["ty"]} has {key} {w["shape"][key]}, its untyped wrapper {u["shape"][key]}')
        b = base.setdefault((kn, x), u)
        for key in ('size', 'align', 'fields', 'repr'):
            if u['shape'][key] != b['shape'][key]:
                r.bad(f'{key}:{KINDS[kn]["U"]}@{cfg}', f'{cfg}: {u["ty"]} has {key} {u["shape"][key]}, {b["ty"]} has {b["shape"][key]}')
    r.n('configurations')
    r.sample(f'{cfg}: {u["ty"]}: {u["shape"]}')


# ------------------------------------------------------------------------------------------ T03
CTORS = {   # constructor call for storage type S, closure expression c; %K = wrapper name
    'new': ('{W}::<{B}, {S}>::new({c})', 'global'),
    'with_cc': ('{W}::<{B}, {S}>::with_cc(cc::C, {c})', 'global'),
    'new_c': ('{W}::<{B}, {S}>::new_c({c})', 'global'),
    'with_thunk': ('{W}::<{B}, {S}>::with_thunk((cc::C, {c}))', 'global'),
    'new_in': ('{W}::<{B}, {S}, JBoth>::new_in({c}, JBoth::default())', ''),
    'with_cc_in': ('{W}::<{B}, {S}, JBoth>::with_cc_in(cc::C, {c}, JBoth::default())', ''),
    'try_with_cc_in': ('{W}::<{B}, {S}, JBoth>::try_with_cc_in(cc::C, {c}, JBoth::default()).ok().unwrap()', ''),
    'new_c_in': ('{W}::<{B}, {S}, JBoth>::new_c_in({c}, JBoth::default())', ''),
    'with_thunk_in': ('{W}::<{B}, {S}, JBoth>::with_thunk_in((cc::C, {c}), JBoth::default())', ''),
    'try_with_thunk_in': ('{W}::<{B}, {S}, JBoth>::try_with_thunk_in((cc::C, {c}), JBoth::default()).ok().unwrap()', ''),
}


def ctors(feats):
    g = 'global_jit_alloc' in feats or 'default_jit_alloc' in feats
    return {k: (v[0], ', GlobalJitAlloc' if v[1] else ', JBoth') for k, v in CTORS.items() if g or not v[1]}


def safe_cases(cfg, feats):
    """[(name, stage, must compile?, program)]"""
    out = []
    unstable = bool({'tuple_trait', 'c_variadic', 'coverage', 'unstable'} & set(feats))

    def pair(name, stage, bad, good):
        out.append((name + ' (refused)', stage, False, bad))
        out.append((name + ' (accepted)', '', True, good))
    for kn, kd in KINDS.items():
        W, U = kd['W'], kd['U']
        for cn, (e, A) in ctors(feats).items():
            def mk(S, c, B='B'):
                return e.format(W=W, S=S, c=c, B=B)
            # the storage lifetime bounds the closure
            c = 'move |a: usize| -> usize { *x + a }'
            pair(f'{kn} {cn} lifetime', 'borrow',
                 f"pub fn p<'x>(x: &'x usize) -> {W}<B, dyn Any + 'static{A}> {{ {mk('dyn Any', c)} }}",
                 f"pub fn p<'x>(x: &'x usize) -> {W}<B, dyn Any + 'x{A}> {{ {mk('dyn Any', c)} }}")
            # so do its markers
            for ms in SUBSETS[1:]:
                for m, cell in (('Send', 'Rc<usize>'), ('Sync', 'Cell<usize>')):
                    if m not in ms:
                        continue
                    use = '**x' if cell.startswith('Rc') else 'x.get()'
                    cl = 'move |a: usize| -> usize { let x = &x; %s + a }' % use
                    pair(f'{kn} {cn} {DYN[ms]} needs {m}', 'type',
                         f'pub fn p(x: {cell}) -> {W}<B, {DYN[ms]}{A}> {{ {mk(DYN[ms], cl)} }}',
                         f'pub fn p(x: usize) -> {W}<B, {DYN[ms]}{A}> {{ {mk(DYN[ms], "move |a: usize| -> usize { x + a }")} }}')
            # and the function type its signature
            good = f'pub fn p(x: usize) {{ let w = {mk("dyn Any", "move |a: usize| -> usize { x + a }")}; }}'
            for what, cl in (('argument type', 'move |a: u8| -> usize { x }'), ('result type', 'move |a: usize| -> u8 { 3 }'), ('no result', 'move |a: usize| { let y = x; }'),
                             ('too few arguments', 'move || -> usize { x }'), ('too many arguments', 'move |a: usize, b: usize| -> usize { x }')):
                pair(f'{kn} {cn} {what}', 'type', f'pub fn p(x: usize) {{ let w = {mk("dyn Any", cl)}; }}', good)
            if kn != 'once':
                pair(f'{kn} {cn} single-call closure', 'type', f'pub fn p(x: Box<usize>) {{ let w = {mk("dyn Any", "move |a: usize| -> usize { drop(x); a }")}; }}', good)
            if kn == 'shared':
                pair(f'{kn} {cn} mutating closure', 'borrow', f'pub fn p(mut x: usize) {{ let w = {mk("dyn Any", "move |a: usize| -> usize { x += a; x }")}; }}', good)
                def pk(t):
                    return f"pub fn p<F: {t}(usize) -> usize>(x: F) {{ let w = {mk('dyn Any', 'x').replace('<B, dyn Any', '<B, dyn Any')}; }}"
                out.append((f'{kn} {cn} generic FnMut (refused)', 'type', False, f"pub fn p<F: FnMut(usize) -> usize + 'static>(x: F) {{ let w = {mk('dyn Any', 'x')}; }}"))
            if kn == 'mut':
                out.append((f'{kn} {cn} generic FnOnce (refused)', 'type', False, f"pub fn p<F: FnOnce(usize) -> usize + 'static>(x: F) {{ let w = {mk('dyn Any', 'x')}; }}"))
            out.append((f'{kn} {cn} generic {kd["tr"]} (accepted)', '', True, f"pub fn p<F: {kd['tr']}(usize) -> usize + 'static>(x: F) {{ let w = {mk('dyn Any', 'x')}; }}"))
            # a safe function pointer type or another ABI is not accepted
            cl = 'move |a: usize| -> usize { x + a }'
            pair(f'{kn} {cn} safe function type', 'type', f'pub fn p(x: usize) {{ let w = {mk("dyn Any", cl, "extern \"C\" fn(usize) -> usize")}; }}', good)
            if cn not in ('new', 'new_in'):
                pair(f'{kn} {cn} other ABI', 'type', f'pub fn p(x: usize) {{ let w = {mk("dyn Any", cl, "unsafe extern \"system\" fn(usize) -> usize")}; }}', good)
        A = ', JBoth'
        # a wrapper ends before what it borrows does
        mkj = "{W}::<B, dyn Any, JBoth>::new_c_in(|a: usize| -> usize {{ a + x }}, JBoth::default())".format(W=W)
        pair(f'{kn} dropped first', 'borrow', f'pub fn p() {{ let w; let x = 3usize; w = {mkj}; }}', f'pub fn p() {{ let x = 3usize; let w; w = {mkj}; }}')
        pair(f'{kn} untyped dropped first', 'borrow', f'pub fn p() {{ let w; let x = 3usize; w = {mkj}.into_untyped(); }}', f'pub fn p() {{ let x = 3usize; let w; w = {mkj}.into_untyped(); }}')
        pair(f'{kn} owner moved away', 'borrow', f'pub fn p() {{ let x = Box::new(3usize); let w = {mkj.replace("a + x", "a + *x")}; drop(x); drop(w); }}',
             f'pub fn p() {{ let x = Box::new(3usize); let w = {mkj.replace("a + x", "a + *x")}; drop(w); drop(x); }}')
        pair(f'{kn} allocator gone', 'borrow', f"pub fn p<'x>(j: &'x JBoth) -> {W}<B, dyn Any, &'static JBoth> {{ {W}::new_c_in(|a: usize| -> usize {{ a }}, j) }}",
             f"pub fn p<'x>(j: &'x JBoth) -> {W}<B, dyn Any, &'x JBoth> {{ {W}::new_c_in(|a: usize| -> usize {{ a }}, j) }}")
        # leaking
        for ty, t in (('typed', f"{W}<{{B}}, dyn Any + {{l}}, {{J}}>"), ('untyped', f"{U}<dyn Any + {{l}}, {{J}}>")):
            ret = {'typed': '{B}', 'untyped': '*const ()'}[ty]
            ok = f"pub fn p(w: {t.format(B='B', l=chr(39) + 'static', J='JBoth')}) -> {ret.format(B='B')} {{ w.leak() }}"
            pair(f'{kn} {ty} leak borrowed', 'borrow', f"pub fn p<'x>(w: {t.format(B='B', l=chr(39) + 'x', J='JBoth')}) -> {ret.format(B='B')} {{ w.leak() }}", ok)
            pair(f'{kn} {ty} leak borrowed allocator', 'borrow', f"pub fn p<'x>(w: {t.format(B='B', l=chr(39) + 'static', J=chr(38) + chr(39) + 'x JBoth')}) -> {ret.format(B='B')} {{ w.leak() }}", ok)
            if ty == 'typed':
                bx = "unsafe extern \"C\" fn(&'x u8)"
                pair(f'{kn} {ty} leak borrowed signature', 'borrow', f"pub fn p<'x>(w: {t.format(B=bx, l=chr(39) + 'static', J='JBoth')}) -> {bx} {{ w.leak() }}", ok)
            # borrowed function pointers
            rt = ret.format(B='B')
            by = f"pub fn p(w: &{t.format(B='B', l=chr(39) + 'static', J='JBoth')}) -> {rt} {{ w.bare() }}"
            if kn == 'once':
                out.append((f'{kn} {ty} bare by reference (refused)', 'type', False, by))
                out.append((f'{kn} {ty} bare by mutable reference (refused)', 'type', False, by.replace('w: &', 'w: &mut ')))
                out.append((f'{kn} {ty} bare by value (refused)', 'type', False, by.replace('w: &', 'w: ')))
            else:
                out.append((f'{kn} {ty} bare by reference (accepted)', '', True, by))
            # one owner
            mv = t.format(B='B', l="'static", J='JBoth')
            pair(f'{kn} {ty} used twice', 'borrow', f'pub fn p(w: {mv}) {{ let a = w; let b = w; }}', f'pub fn p(w: {mv}) {{ let a = w; let b = a; }}')
            out.append((f'{kn} {ty} clone (refused)', 'type', False, f'pub fn p(w: {mv}) {{ let a = Clone::clone(&w); let b: {mv} = a; }}'))
            out.append((f'{kn} {ty} default (refused)', 'type', False, f'pub fn p() {{ let b: {mv} = Default::default(); }}'))
            out.append((f'{kn} {ty} private parts (refused)', 'type', False, f'pub fn p(w: {mv}) {{ let {{}} = (w.{"untyped" if ty == "typed" else "storage"},); }}'.replace('{}', 'a')))
        out.append((f'{kn} literal (refused)', 'type', False, f"pub fn p(w: {U}<dyn Any, JBoth>) -> {W}<B, dyn Any, JBoth> {{ {W} {{ untyped: w, phantom: PhantomData }} }}"))
        # calling needs unsafe
        if kn != 'once':
            pair(f'{kn} safe call', 'unsafe', f'pub fn p(w: &{W}<B, dyn Any, JBoth>) -> usize {{ (w.bare())(3) }}', f'pub fn p(w: &{W}<B, dyn Any, JBoth>) -> usize {{ unsafe {{ (w.bare())(3) }} }}')
        pair(f'{kn} safe call of a leaked function', 'unsafe', f'pub fn p(w: {W}<B, dyn Any, JBoth>) -> usize {{ (w.leak())(3) }}', f'pub fn p(w: {W}<B, dyn Any, JBoth>) -> usize {{ unsafe {{ (w.leak())(3) }} }}')
        # conversions only drop markers and shorten lifetimes
        for s in SUBSETS:
            for d in SUBSETS:
                for ls, ld, lok in (('x', 'x', True), ('static', 'x', True), ('x', 'static', False), ('x', 'y', True), ('y', 'x', False)):
                    if ls != ld and d != () and d != s:
                        continue
                    ok = set(d) <= set(s) and lok
                    S, D = f"{DYN[s]} + '{ls}", f"{DYN[d]} + '{ld}"
                    st = 'type' if not set(d) <= set(s) else 'borrow'
                    nm = f'{kn} upcast {S} to {D}'
                    tag = ' (accepted)' if ok else ' (refused)'
                    g = "<'x: 'y, 'y>"
                    out.append((f'{nm} typed' + tag, st, ok, f"pub fn p{g}(w: {W}<B, {S}, JBoth>) -> {W}<B, {D}, JBoth> {{ w.upcast() }}"))
                    out.append((f'{nm} untyped' + tag, st, ok, f"pub fn p{g}(w: {U}<{S}, JBoth>) -> {U}<{D}, JBoth> {{ w.upcast() }}"))
                    out.append((f'{nm} into' + tag, st, ok, f"pub fn p{g}(w: {W}<B, {S}, JBoth>) -> {U}<{D}, JBoth> {{ w.into() }}"))
        for what, bad in (('function type', f'{W}<unsafe extern "C" fn(u8), dyn Any, JBoth>'), ('allocator', f'{W}<B, dyn Any, JNone>'), ('kind', '{}<B, dyn Any, JBoth>'.format(KINDS['mut' if kn != 'mut' else 'once']['W']))):
            for op in ('upcast', 'into', 'into_untyped'):
                ok = op != 'upcast'
                out.append((f'{kn} {op} changes {what} (refused)', 'type', False, f'pub fn p(w: {W}<B, dyn Any, JBoth>) -> {bad} {{ w.{op}() }}'))
        out.append((f'{kn} typed from untyped (refused)', 'type', False, f'pub fn p(w: {U}<dyn Any, JBoth>) -> {W}<B, dyn Any, JBoth> {{ w.into() }}'))
        out.append((f'{kn} into_untyped (accepted)', '', True, f"pub fn p<'x>(w: {W}<B, dyn Any + 'x, JBoth>) -> {U}<dyn Any + 'x, JBoth> {{ w.into_untyped() }}"))
        if unstable:
            # with the unstable feature every trait object can be the storage type
            out.append((f'{kn} upcast to an unrelated trait (refused)', 'type', False, f'pub trait Mine {{ fn m(&self); }}\npub fn p(w: {W}<B, dyn Any, JBoth>) -> {W}<B, dyn Mine, JBoth> {{ w.upcast() }}'))
            out.append((f'{kn} upcast to a trait of PhantomData (refused)', 'type', False, f'pub fn p(w: {W}<B, dyn Any, JBoth>) -> {W}<B, dyn core::fmt::Debug, JBoth> {{ w.upcast() }}'))
            out.append((f'{kn} storage is no trait object (refused)', 'type', False, f'pub fn p() {{ let w = {W}::<B, [u8], JBoth>::new_c_in(|a: usize| -> usize {{ a }}, JBoth::default()); }}'))
            out.append((f'{kn} closure lacks the trait (refused)', 'type', False, f'pub trait Mine {{ fn m(&self); }}\npub fn p() {{ let w = {W}::<B, dyn Mine, JBoth>::new_c_in(|a: usize| -> usize {{ a }}, JBoth::default()); }}'))
            out.append((f'{kn} closure has the trait (accepted)', '', True, f'pub trait Mine {{}}\nimpl<T> Mine for T {{}}\npub fn p() {{ let w = {W}::<B, dyn Mine + Send, JBoth>::new_c_in(|a: usize| -> usize {{ a }}, JBoth::default()); }}'))
    # what the caller must promise stays unsafe
    for what, bad in (('from_ptr', 'pub fn p(q: *const ()) -> B { B::from_ptr(q) }'), ('call', 'pub fn p(q: B) -> usize { FnPtr::call(q, (3,)) }'),
                      ('release', 'pub fn p(q: *const u8) { let _ = JBoth::default().release(q); }'),
                      ('protect_jit_memory', 'pub fn p(q: *const u8) { JBoth::default().protect_jit_memory(q, 1, ProtectJitAccess::ReadWrite) }'),
                      ('flush_instruction_cache', 'pub fn p(q: *const u8) { JBoth::default().flush_instruction_cache(q, 1) }')):
        i = bad.index('{') + 1
        out.append((f'{what} without unsafe (refused)', 'unsafe', False, bad))
        out.append((f'{what} with unsafe (accepted)', '', True, bad[:i] + ' unsafe {' + bad[i:] + '}'))
    for kn, kd in KINDS.items():
        pre = '' if kn == 'once' else 'mut '
        e = {'once': 'FnOnceThunk::call_once(t, (3,))', 'mut': 'FnMutThunk::call_mut(&mut t, (3,))', 'shared': 'FnThunk::call(&t, (3,))'}[kn]
        out.append((f'{kd["call"]} without unsafe (refused)', 'unsafe', False, f'pub fn p<T: {kd["th"]}<B>>(mut t: T) -> usize {{ {e} }}'))
        out.append((f'{kd["call"]} with unsafe (accepted)', '', True, f'pub fn p<T: {kd["th"]}<B>>(mut t: T) -> usize {{ unsafe {{ {e} }} }}'))
        out.append((f'{kd["th"]} implemented safely (refused)', 'alone', False, f'pub struct X; impl {kd["th"]}<B> for X {{}}', 'E0200'))
    out.append(('FnPtr implemented safely (refused)', 'alone', False, '#[derive(Clone, Copy)] pub struct X; impl FnPtr for X {}', 'E0200'))
    out.append(('ToBoxedDyn implemented safely (refused)', 'alone', False, 'pub struct X; impl ToBoxedDyn<X> for X {}', 'E0200'))
    return out


def t03(r, cfg, part, parts):
    info = build.compiled(cfg)
    cases = [c for k, c in enumerate(safe_cases(cfg, info['feats'])) if k // 50 % parts == part]
    res = rsq.judge(info, head(info), [c[:4] for c in cases])
    for c in cases:
        n, st, ok = c[:3]
        got, msg = res[n]
        r.n('programs')
        r.n('accepted' if ok else 'refused')
        if got != ok:
            r.bad(f'{n.replace(" ", "_")}@{cfg}', f'{cfg}: {"is refused: " + msg[0][1] if ok else "compiles"}: {c[3]}')
        elif not ok and len(c) > 4 and not any(m[0] == c[4] for m in msg):
            r.bad(f'{n.replace(" ", "_")}@{cfg}', f'{cfg}: can be implemented without `unsafe`: {c[3]}')
    if part == 0:
        r.n('configurations')
    r.sample(f'{cfg}: {cases[0][0]}: {cases[0][3]}')


# ------------------------------------------------------------------------------------------ H02
def macro_cases(feats):
    out = []
    T = lambda d: f'closure_ffi::bare_hrtb! {{ {d} }}'

    def no(n, d, stage='alone'):
        out.append((n + ' (refused)', stage, False, T(d)))

    def yes(n, d):
        out.append((n + ' (accepted)', '', True, T(d)))
    pre = 'pub struct L<\'a>(pub &\'a u8);\npub struct G<\'a, T>(pub &\'a T);\npub trait Tr {}\npub trait P<T> {}\npub trait Pj { type O; }\nimpl<T> Pj for T { type O = u8; }\npub trait Pq<T> { type O; }\nimpl<T> Pq<T> for u8 { type O = u8; }\n'
    # unnamed lifetimes
    for n, bad, good in (
        ('reference argument', 'pub type F = extern "C" fn(&u8);', 'pub type F = for<\'a> extern "C" fn(&\'a u8);'),
        ('mutable reference argument', 'pub type F = extern "C" fn(&mut u8);', 'pub type F = for<\'a> extern "C" fn(&\'a mut u8);'),
        ('second argument', 'pub type F = for<\'a> extern "C" fn(&\'a u8, &u8);', 'pub type F = for<\'a> extern "C" fn(&\'a u8, &\'a u8);'),
        ('result', 'pub type F = for<\'a> extern "C" fn(&\'a u8) -> &u8;', 'pub type F = for<\'a> extern "C" fn(&\'a u8) -> &\'a u8;'),
        ('underscore reference', 'pub type F = extern "C" fn(&\'_ u8);', 'pub type F = for<\'a> extern "C" fn(&\'a u8);'),
        ('underscore path', 'pub type F = extern "C" fn(L<\'_>);', 'pub type F = for<\'a> extern "C" fn(L<\'a>);'),
        ('hidden path', 'pub type F = extern "C" fn(L);', 'pub type F = for<\'a> extern "C" fn(L<\'a>);'),
        ('hidden path result', 'pub type F = for<\'a> extern "C" fn(&\'a u8) -> L;', 'pub type F = for<\'a> extern "C" fn(&\'a u8) -> L<\'a>;'),
        ('nested reference', 'pub type F = for<\'a> extern "C" fn(&\'a &u8);', 'pub type F = for<\'a> extern "C" fn(&\'a &\'a u8);'),
        ('reference in a tuple', 'pub type F = extern "C" fn((u8, &u8));', 'pub type F = for<\'a> extern "C" fn((u8, &\'a u8));'),
        ('reference in an option', 'pub type F = extern "C" fn(Option<&u8>);', 'pub type F = for<\'a> extern "C" fn(Option<&\'a u8>);'),
        ('reference in an option result', 'pub type F = for<\'a> extern "C" fn(&\'a u8) -> Option<&u8>;', 'pub type F = for<\'a> extern "C" fn(&\'a u8) -> Option<&\'a u8>;'),
        ('reference in an array', 'pub type F = extern "C" fn([&u8; 2]);', 'pub type F = for<\'a> extern "C" fn([&\'a u8; 2]);'),
        ('reference behind a pointer', 'pub type F = extern "C" fn(*const &u8);', 'pub type F = for<\'a> extern "C" fn(*const &\'a u8);'),
        ('slice of references', 'pub type F = for<\'a> extern "C" fn(&\'a [&u8]);', 'pub type F = for<\'a> extern "C" fn(&\'a [&\'a u8]);'),
        ('argument of a path', 'pub type F = for<\'a> extern "C" fn(G<\'a, &u8>);', 'pub type F = for<\'a> extern "C" fn(G<\'a, &\'a u8>);'),
        ('underscore in a path with arguments', 'pub type F = extern "C" fn(G<\'_, u8>);', 'pub type F = for<\'a> extern "C" fn(G<\'a, u8>);'),
        ('underscore trait object', 'pub type F = for<\'a> extern "C" fn(&\'a (dyn Tr + \'_));', 'pub type F = for<\'a> extern "C" fn(&\'a (dyn Tr + \'a));'),
        ('boxed trait object', 'pub type F = extern "C" fn(Box<dyn Tr + \'_>);', 'pub type F = for<\'a> extern "C" fn(Box<dyn Tr + \'a>);'),
        ('str', 'pub type F = fn(&str) -> usize;', 'pub type F = for<\'a> fn(&\'a str) -> usize;'),
        ('with type parameter', 'pub type F<T: \'static> = fn(&T);', 'pub type F<T: \'static> = for<\'a> fn(&\'a T);'),
        ('undeclared', 'pub type F = fn(&\'a u8);', 'pub type F = for<\'a> fn(&\'a u8);'),
        ('undeclared in result', 'pub type F = for<\'a> fn(&\'a u8) -> &\'b u8;', 'pub type F = for<\'a> fn(&\'a u8) -> &\'a u8;'),
        ('hidden in self type path', 'pub type F = for<\'a> fn(&\'a u8) -> Option<L>;', 'pub type F = for<\'a> fn(&\'a u8) -> Option<L<\'a>>;'),
    ):
        no(n, bad)
        yes(n, good)
    # unnamed lifetimes in every position of every kind of type
    leaves = (('reference', '&u8', "&'a u8"), ('mutable reference', '&mut u8', "&'a mut u8"), ('underscore reference', "&'_ u8", "&'a u8"), ('underscore path', "L<'_>", "L<'a>"),
              ('function', 'fn(&u8)', "fn(&'a u8)"), ('function result', "for<'b> fn(&'b u8) -> L<'_>", "for<'b> fn(&'b u8) -> L<'b>"), ('closure object', "Box<dyn Fn(&u8) + 'a>", "Box<dyn Fn(&'a u8) + 'a>"),
              ('underscore object', "Box<dyn Tr + '_>", "Box<dyn Tr + 'a>"), ('slice', '&[u8]', "&'a [u8]"), ('object', '&dyn Tr', "&'a (dyn Tr + 'a)"))
    places = (('argument', 'fn(&\'a u8, @)'), ('first argument', 'extern "C" fn(@, &\'a u8) -> u8'), ('last of four', 'extern "C" fn(&\'a u8, u8, u8, @)'), ('named argument', 'unsafe extern "C" fn(x: &\'a u8, y: @)'),
              ('result', 'fn(&\'a u8) -> @'), ('behind a reference', 'fn(&\'a @)'), ('behind a mutable reference', 'fn(&\'a mut @)'), ('behind two references', 'fn(&\'a &\'a @)'),
              ('slice', 'fn(&\'a [@])'), ('array', 'fn(&\'a u8, [@; 2])'), ('array behind a reference', 'fn(&\'a [@; 2])'), ('tuple', 'fn(&\'a u8, (u8, @, u8))'), ('last of a tuple', 'fn(&\'a (u8, @))'),
              ('pointer', 'fn(&\'a u8, *const @)'), ('mutable pointer', 'fn(&\'a u8, *mut @)'), ('parentheses', 'fn(&\'a (@))'), ('type argument', 'fn(&\'a u8, Option<@>)'), ('nested type argument', 'fn(Option<Option<&\'a @>>)'),
              ('second type argument', 'fn(&\'a u8) -> Result<u8, @>'), ('after a lifetime argument', 'fn(G<\'a, @>)'), ('path', 'fn(&\'a u8, core::option::Option<@>)'),
              ('function argument', 'fn(&\'a u8, fn(@))'), ('function result', 'fn(&\'a u8, fn() -> @)'), ('function behind a reference', 'fn(&\'a extern "C" fn(@) -> u8)'), ('function in the result', 'fn(&\'a u8) -> fn(@)'),
              ('object argument', 'fn(&\'a (dyn P<@> + \'a))'), ('object binding', 'fn(&\'a (dyn Iterator<Item = @> + \'a))'), ('closure object', 'fn(&\'a (dyn Fn(@) + \'a))'), ('closure object result', 'fn(&\'a (dyn Fn() -> @ + \'a))'),
              ('boxed object', 'fn(&\'a u8, Box<dyn P<@> + \'a>)'), ('projection', 'fn(&\'a u8, <@ as Pj>::O)'), ('projection argument', 'fn(&\'a u8, <u8 as Pq<@>>::O)'))
    for pn, pt in places:
        for ln, bad, good in leaves:
            no(f'{ln} at {pn}', f"pub type F = for<'a> {pt.replace('@', bad)};", 'expansion')
            yes(f'{ln} at {pn}', f"pub type F = for<'a> {pt.replace('@', good)};")
    # number of bound lifetimes
    for k in range(0, 4):
        ls = ["'" + c for c in 'abcdefgh'[:k]]
        yes(f'{k} lifetimes', f'pub type F = {"for<" + ", ".join(ls) + "> " if k else ""}extern "C" fn({", ".join("&" + l + " u8" for l in ls)});')
    for k in range(4, 8):
        ls = ["'" + c for c in 'abcdefgh'[:k]]
        no(f'{k} lifetimes', f'pub type F = for<{", ".join(ls)}> extern "C" fn({", ".join("&" + l + " u8" for l in ls)});')
        no(f'{k} lifetimes, two used', f'pub type F = for<{", ".join(ls)}> extern "C" fn({", ".join("&" + l + " u8" for l in ls[:2])});')
    # not a function type
    for n, d in (('integer', 'pub type F = usize;'), ('tuple', 'pub type F = (extern "C" fn(),);'), ('pointer', 'pub type F = *const fn();'), ('reference', "pub type F = &'static fn();"),
                 ('path', 'pub type F = Box<fn()>;'), ('trait object', 'pub type F = dyn Fn();'), ('unit', 'pub type F = ();'), ('never', 'pub type F = !;'), ('array', 'pub type F = [fn(); 1];'),
                 ('slice', 'pub type F = [fn()];'), ('inferred', 'pub type F = _;'), ('option', 'pub type F = Option<extern "C" fn()>;'), ('impl', 'pub type F = impl Fn();'),
                 ('struct item', 'pub struct F;'), ('function item', 'pub fn f() {}'), ('nothing', ''), ('no value', 'pub type F;'), ('two items', 'pub type F = fn(); pub type G2 = fn();'),
                 ('argument impl', 'pub type F = fn(impl Fn());'), ('variadic', 'pub type F = unsafe extern "C" fn(u8, ...);'), ('named variadic', 'pub type F = unsafe extern "C" fn(u8, args: ...);'),
                 ('bound variadic', 'pub type F = for<\'a> unsafe extern "C" fn(&\'a u8, ...) -> u8;'), ('unknown ABI', 'pub type F = extern "nonsense" fn();')):
        no('not a function: ' + n, d)
    yes('plain function', 'pub type F = fn();')
    yes('function of functions', 'pub type F = extern "C" fn(extern "C" fn(u8) -> u8) -> u8;')
    # lifetimes cannot be laundered
    def two(n, stage, decl, bad, good):
        out.append((n + ' (refused)', stage, False, T(decl) + '\n' + bad))
        out.append((n + ' (accepted)', '', True, T(decl) + '\n' + good))
    A = 'pub type F = for<\'a, \'b> extern "C" fn(&\'a u8, &\'b u8) -> &\'a u8;'
    for kn, kd in KINDS.items():
        W = kd['W']
        two(f'{kn} closure returns the other lifetime', 'borrow', A, f'pub fn p() {{ let w = {W}::<F, dyn Any, JBoth>::new_in(|x, y| y, JBoth::default()); }}',
            f'pub fn p() {{ let w = {W}::<F, dyn Any, JBoth>::new_in(|x, y| x, JBoth::default()); }}')
        two(f'{kn} closure keeps an argument', 'borrow', A, f'pub fn p(c: &\'static Cell<Option<&\'static u8>>) {{ let w = {W}::<F, dyn Any, JBoth>::new_in(|x, y| {{ c.set(Some(y)); x }}, JBoth::default()); }}',
            f'pub fn p(c: &\'static Cell<Option<u8>>) {{ let w = {W}::<F, dyn Any, JBoth>::new_in(|x, y| {{ c.set(Some(*y)); x }}, JBoth::default()); }}')
        two(f'{kn} closure demands static', 'borrow', A, f'pub fn p() {{ let w = {W}::<F, dyn Any, JBoth>::new_in(|x: &\'static u8, y: &\'static u8| x, JBoth::default()); }}',
            f'pub fn p() {{ let w = {W}::<F, dyn Any, JBoth>::new_in(|x, y| x, JBoth::default()); }}')
        if kn != 'once':
            two(f'{kn} call outlives its argument', 'borrow', A, f"pub fn p<'x>(w: &{W}<F, dyn Any, JBoth>, s: &'static u8, l: &'x u8) -> &'static u8 {{ unsafe {{ FnPtr::call(w.bare(), (l, s)) }} }}",
                f"pub fn p<'x>(w: &{W}<F, dyn Any, JBoth>, s: &'static u8, l: &'x u8) -> &'static u8 {{ unsafe {{ FnPtr::call(w.bare(), (s, l)) }} }}")
        thunk = {'once': 'unsafe { FnOnceThunk::<F>::call_once(t, (l, s)) }', 'mut': 'unsafe { FnMutThunk::<F>::call_mut(&mut t, (l, s)) }', 'shared': 'unsafe { FnThunk::<F>::call(&t, (l, s)) }'}[kn]
        two(f'{kn} thunk call outlives its argument', 'borrow', A, f"pub fn p<'x, T: {kd['th']}<F>>(mut t: T, s: &'static u8, l: &'x u8) -> &'static u8 {{ {thunk} }}",
            f"pub fn p<'x, T: {kd['th']}<F>>(mut t: T, s: &'static u8, l: &'x u8) -> &'x u8 {{ {thunk} }}")
        two(f'{kn} factory launders', 'borrow', A, f"pub fn p() {{ let t = <F as FnPtr>::{kd['mk']}(|(x, y): (&u8, &u8)| -> &u8 {{ y }}); }}",
            f"pub fn p() {{ fn id<Q: for<'a, 'b> {kd['tr']}((&'a u8, &'b u8)) -> &'a u8>(q: Q) -> Q {{ q }} let t = <F as FnPtr>::{kd['mk']}(id(|(x, y)| x)); }}")
    two('conversion out', 'type', A, 'pub fn p(f: F) -> for<\'a, \'b> unsafe extern "C" fn(&\'a u8, &\'b u8) -> &\'b u8 { f.into() }', 'pub fn p(f: F) -> for<\'a, \'b> unsafe extern "C" fn(&\'a u8, &\'b u8) -> &\'a u8 { f.into() }')
    two('conversion in', 'type', A, 'pub fn p(f: for<\'a, \'b> unsafe extern "C" fn(&\'a u8, &\'b u8) -> &\'b u8) -> F { f.into() }', 'pub fn p(f: for<\'a, \'b> unsafe extern "C" fn(&\'a u8, &\'b u8) -> &\'a u8) -> F { f.into() }')
    two('conversion in of a less general function', 'type', A, 'pub fn p(f: unsafe extern "C" fn(&\'static u8, &\'static u8) -> &\'static u8) -> F { F(f) }', 'pub fn p(f: for<\'a, \'b> unsafe extern "C" fn(&\'a u8, &\'b u8) -> &\'a u8) -> F { F(f) }')
    two('conversion in of another ABI', 'type', A, 'pub fn p(f: for<\'a, \'b> unsafe extern "system" fn(&\'a u8, &\'b u8) -> &\'a u8) -> F { f.into() }', 'pub fn p(f: for<\'a, \'b> unsafe extern "C" fn(&\'a u8, &\'b u8) -> &\'a u8) -> F { f.into() }')
    two('safe call', 'unsafe', A, 'pub fn p(f: F) { (*f)(&3, &4); }', 'pub fn p(f: F) { unsafe { (*f)(&3, &4); } }')
    two('conversion to a safe function', 'type', A, 'pub fn p(f: F) -> for<\'a, \'b> extern "C" fn(&\'a u8, &\'b u8) -> &\'a u8 { f.into() }', 'pub fn p(f: F) -> for<\'a, \'b> unsafe extern "C" fn(&\'a u8, &\'b u8) -> &\'a u8 { f.into() }')
    two('generic lifetime', 'borrow', "pub type F<'z> = extern \"C\" fn(&'z u8);", "pub fn p<'x>(f: F<'static>, g: &'x u8) { unsafe { FnPtr::call(f, (g,)) } }", "pub fn p<'x>(f: F<'x>, g: &'x u8) { unsafe { FnPtr::call(f, (g,)) } }")
    two('generic lifetime lengthened', 'borrow', "pub type F<'z> = extern \"C\" fn(u8) -> &'z u8;", "pub fn p<'x>(f: F<'x>) -> F<'static> { f }", "pub fn p<'x>(f: F<'static>) -> F<'x> { f }")
    return pre, out


def h02(r, cfg, part, parts):
    info = build.compiled(cfg)
    pre, cases = macro_cases(info['feats'])
    cases = [c for k, c in enumerate(cases) if k // 2 % parts == part]
    res = rsq.judge(info, head(info) + pre, cases)
    for n, st, ok, c in cases:
        got, msg = res[n]
        r.n('declarations')
        r.n('accepted' if ok else 'refused')
        if got != ok:
            r.bad(f'{n.replace(" ", "_")}@{cfg}', f'{cfg}: {"is refused: " + msg[0][1] if ok else "compiles"}: {c}')
    if part == 0:
        r.n('configurations')
    r.sample(f'{cfg}: {cases[0][3]}')


# ------------------------------------------------------------------------------------------ checks
T = ['x86_64/std', 'x86_64/nightly', 'x86_64/custom', 'x86_64/spin', 'x86_64/nosafe']


def mk(f, cfgs, parts=1):
    def run(tier, seed):
        for c in cfgs:
            build.compiled(c)
        return framework.jobs([(f, (c,) if parts == 1 else (c, p, parts)) for c in cfgs for p in range(parts)])
    return run


SPEC = {
    'T01': dict(run=mk(t01, T + ['i686/std', 'aarch64/std', 'armv7/std', 'thumb/std']), floors={'obligations': 3000, 'configurations': 9},
                rule='The trait solver is asked, for every wrapper (typed and untyped), every subset of {Send, Sync} as the only bounds of the storage type and the allocator, and concrete storage types and allocators '
                     '(including the global, the thread-local and referenced ones), whether the wrapper is Send, Sync or Copy; each answer is compared with the stated condition in both directions.'),
    'T02': dict(run=mk(t02, T + ['i686/std', 'aarch64/std', 'armv7/std', 'thumb/std']), floors={'obligations': 4000, 'programs': 200},
                rule='Every factory is called on an opaque closure with exactly its promised markers (must type-check for every function type) and with one fewer (must not). For concrete function types of every convention and arity class and '
                     'macro-declared ones, the trait solver is asked whether the hidden type of the thunk is Send or Sync for every set of markers of the closure.'),
    'T03': dict(run=mk(t03, T, 4), floors={'programs': 1500, 'refused': 700},
                rule='Programs written in safe code that would obtain a dangling or over-privileged wrapper must be rejected by the compiler; each is paired with a near-identical program that must be accepted. '
                     'All constructors, conversions, storage types and lifetime relations are enumerated.'),
    'T04': dict(run=mk(t04, T + ['i686/std', 'i686/nightly', 'aarch64/std', 'armv7/std', 'thumb/std']), floors={'layouts': 3000},
                rule='Layout facts of the type-checked crate: typed wrappers must be repr(transparent) over their untyped wrapper, size/alignment/field offsets of untyped wrappers must not vary with the storage type, '
                     'and each function-pointer type must be transparent over exactly one code pointer.'),
    'H02': dict(run=mk(h02, ['x86_64/std', 'x86_64/nightly', 'x86_64/custom'], 6), floors={'declarations': 240, 'refused': 120},
                rule='Declarations the macro cannot honour and safe programs that would launder a lifetime through a generated type must be rejected by the compiler; each is paired with an accepted twin.'),
}
