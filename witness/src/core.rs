//! Roots for the life-cycle analyses. Each `root_*` function is one client program: it builds a
//! wrapper through one public constructor, optionally converts it, observes its function pointer
//! and disposes of it. `spy_*` functions are opaque to the analysis, which records the calls.
#![no_std]
#![allow(improper_ctypes, dead_code, unused)]
extern crate alloc;
#[cfg(feature = "std")]
extern crate std;

use closure_ffi::bare_closure::*;
use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};
use closure_ffi::traits::{Any, FnPtr, FnThunk, FnMutThunk, FnOnceThunk};
use closure_ffi::{cc, thunk_factory};

extern "Rust" {
    fn spy_alloc(jit: *const Jit, size: usize, rx: *mut *const u8, rw: *mut *mut u8) -> bool;
    fn spy_release(jit: *const Jit, rx: *const u8) -> bool;
    fn spy_protect(jit: *const Jit, p: *const u8, size: usize, access: usize);
    fn spy_flush(jit: *const Jit, p: *const u8, size: usize);
    fn spy_jit_drop(jit: *const Jit);
    fn spy_cap_drop(cap: *const Cap);
    fn spy_zcap_drop();
    fn spy_cap_new();
    fn spy_call(cap: *const u8, kind: usize, args: *const usize, n: usize) -> usize;
    fn spy_mark(what: usize);
    fn spy_ptr(tag: usize, p: *const ());
}

/// Stage markers, in the order a client sees them.
pub const BUILT: usize = 1;
pub const FAILED: usize = 2;
pub const DISPOSE: usize = 3;
pub const DONE: usize = 4;

pub struct Jit {
    id: usize,
    pad: usize,
}
impl Jit {
    fn new() -> Self {
        Jit { id: 0x1111, pad: 0 }
    }
}
impl Drop for Jit {
    fn drop(&mut self) {
        unsafe { spy_jit_drop(self) }
    }
}
impl JitAlloc for Jit {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        let mut rx: *const u8 = core::ptr::null();
        let mut rw: *mut u8 = core::ptr::null_mut();
        if unsafe { spy_alloc(self, size, &mut rx, &mut rw) } {
            Ok((rx, rw))
        } else {
            Err(JitAllocError)
        }
    }
    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {
        if spy_release(self, rx) {
            Ok(())
        } else {
            Err(JitAllocError)
        }
    }
    unsafe fn protect_jit_memory(&self, p: *const u8, size: usize, access: ProtectJitAccess) {
        let a = match access {
            ProtectJitAccess::ReadWrite => 0,
            ProtectJitAccess::ReadExecute => 1,
        };
        spy_protect(self, p, size, a)
    }
    unsafe fn flush_instruction_cache(&self, p: *const u8, size: usize) {
        spy_flush(self, p, size)
    }
}

/// Captured state of the sized closures.
pub struct Cap {
    id: usize,
    val: usize,
}
impl Drop for Cap {
    fn drop(&mut self) {
        unsafe { spy_cap_drop(self) }
    }
}
fn cap() -> Cap {
    unsafe { spy_cap_new() };
    Cap { id: 0x2222, val: 0x3333 }
}
fn zcap() -> ZCap {
    unsafe { spy_cap_new() };
    ZCap
}
/// Captured state of the zero-sized closures.
pub struct ZCap;
impl Drop for ZCap {
    fn drop(&mut self) {
        unsafe { spy_zcap_drop() }
    }
}

type B = unsafe extern "C" fn(usize, usize) -> usize;

fn call(cap: *const u8, kind: usize, a: usize, b: usize) -> usize {
    let args = [a, b];
    unsafe { spy_call(cap, kind, args.as_ptr(), 2) }
}

macro_rules! clo {
    (once) => {{
        let c = cap();
        move |a: usize, b: usize| -> usize { let r = call(&c as *const Cap as *const u8, 1, a, b); drop(c); r }
    }};
    (muta) => {{
        let mut c = cap();
        move |a: usize, b: usize| -> usize { let p: &mut Cap = &mut c; call(p as *const Cap as *const u8, 2, a, b) }
    }};
    (shared) => {{
        let c = cap();
        move |a: usize, b: usize| -> usize { call(&c as *const Cap as *const u8, 3, a, b) }
    }};
    (z $k:tt) => {{
        let c = zcap();
        move |a: usize, b: usize| -> usize { let p: &ZCap = &c; call(p as *const ZCap as *const u8, 4, a, b) }
    }};
}

macro_rules! packed {
    ($k:tt) => {{
        let f = clo!($k);
        let mut f = f;
        move |t: (usize, usize)| -> usize { f(t.0, t.1) }
    }};
}
macro_rules! packed_shared {
    () => {{
        let f = clo!(shared);
        move |t: (usize, usize)| -> usize { f(t.0, t.1) }
    }};
}
macro_rules! packed_of {
    (once) => { packed!(once) };
    (muta) => { packed!(muta) };
    (shared) => { packed_shared!() };
}
macro_rules! thunk_of {
    (once) => { <B as FnPtr>::make_once_thunk(packed_of!(once)) };
    (muta) => { <B as FnPtr>::make_mut_thunk(packed_of!(muta)) };
    (shared) => { <B as FnPtr>::make_thunk(packed_of!(shared)) };
    (send once) => { thunk_factory::make_once_send::<B, _>(packed_of!(once)) };
    (send muta) => { thunk_factory::make_mut_send::<B, _>(packed_of!(muta)) };
    (send shared) => { thunk_factory::make_send::<B, _>(packed_of!(shared)) };
    (sync once) => { thunk_factory::make_once_sync::<B, _>(packed_of!(once)) };
    (sync muta) => { thunk_factory::make_mut_sync::<B, _>(packed_of!(muta)) };
    (sync shared) => { thunk_factory::make_sync::<B, _>(packed_of!(shared)) };
    (both once) => { thunk_factory::make_once_send_sync::<B, _>(packed_of!(once)) };
    (both muta) => { thunk_factory::make_mut_send_sync::<B, _>(packed_of!(muta)) };
    (both shared) => { thunk_factory::make_send_sync::<B, _>(packed_of!(shared)) };
    (plain once) => { thunk_factory::make_once::<B, _>(packed_of!(once)) };
    (plain muta) => { thunk_factory::make_mut::<B, _>(packed_of!(muta)) };
    (plain shared) => { thunk_factory::make::<B, _>(packed_of!(shared)) };
}

fn mark(n: usize) {
    unsafe { spy_mark(n) }
}
fn see(tag: usize, p: *const ()) {
    unsafe { spy_ptr(tag, p) }
}

macro_rules! observe {
    (once $w:expr) => {};
    ($k:tt $w:expr) => { see(1, $w.bare().to_ptr()) };
}
macro_rules! observe_untyped {
    (once $w:expr) => {};
    ($k:tt $w:expr) => { see(2, $w.bare()) };
}

macro_rules! kind {
    ($m:ident, $k:tt, $Any:ident, $Untyped:ident) => {
        pub mod $m {
            use super::*;
            type W<S> = $Any<B, S, Jit>;
            type U<S> = $Untyped<S, Jit>;
            type DAny = dyn Any;
            type DSend = dyn Send;
            type DSync = dyn Sync;
            type DBoth = dyn Send + Sync;

            macro_rules! fallible {
                ($name:ident, $st:ty, $e:expr) => {
                    pub fn $name() {
                        let r: Result<W<$st>, JitAllocError> = $e;
                        match r {
                            Ok(w) => {
                                mark(BUILT);
                                observe!($k w);
                                mark(DISPOSE);
                                drop(w);
                                mark(DONE);
                            }
                            Err(_) => mark(FAILED),
                        }
                    }
                };
            }
            macro_rules! infallible {
                ($name:ident, $st:ty, $e:expr) => {
                    pub fn $name() {
                        let w: W<$st> = $e;
                        mark(BUILT);
                        observe!($k w);
                        mark(DISPOSE);
                        drop(w);
                        mark(DONE);
                    }
                };
            }
            // every constructor that takes an allocator, over the storage types and closure sizes
            fallible!(root_f_trycc_any, DAny, W::try_with_cc_in(cc::C, clo!($k), Jit::new()));
            fallible!(root_f_trycc_send, DSend, W::try_with_cc_in(cc::C, clo!($k), Jit::new()));
            fallible!(root_f_trycc_sync, DSync, W::try_with_cc_in(cc::C, clo!($k), Jit::new()));
            fallible!(root_f_trycc_both, DBoth, W::try_with_cc_in(cc::C, clo!($k), Jit::new()));
            fallible!(root_zf_trycc_any, DAny, W::try_with_cc_in(cc::C, clo!(z $k), Jit::new()));
            fallible!(root_zf_trycc_both, DBoth, W::try_with_cc_in(cc::C, clo!(z $k), Jit::new()));
            fallible!(root_f_trythunk_any, DAny, W::try_with_thunk_in(thunk_of!($k), Jit::new()));
            fallible!(root_f_trythunk_plain, DAny, W::try_with_thunk_in(thunk_of!(plain $k), Jit::new()));
            fallible!(root_f_trythunk_send, DSend, W::try_with_thunk_in(thunk_of!(send $k), Jit::new()));
            fallible!(root_f_trythunk_sync, DSync, W::try_with_thunk_in(thunk_of!(sync $k), Jit::new()));
            fallible!(root_f_trythunk_both, DBoth, W::try_with_thunk_in(thunk_of!(both $k), Jit::new()));
            fallible!(root_f_trythunk_tuple, DAny, W::try_with_thunk_in((cc::C, clo!($k)), Jit::new()));
            fallible!(root_zf_trythunk_tuple, DAny, W::try_with_thunk_in((cc::C, clo!(z $k)), Jit::new()));
            infallible!(root_i_cc_any, DAny, W::with_cc_in(cc::C, clo!($k), Jit::new()));
            infallible!(root_i_new_any, DAny, W::new_in(clo!($k), Jit::new()));
            infallible!(root_i_new_both, DBoth, W::new_in(clo!($k), Jit::new()));
            infallible!(root_zi_new_any, DAny, W::new_in(clo!(z $k), Jit::new()));
            infallible!(root_i_thunk_any, DAny, W::with_thunk_in((cc::C, clo!($k)), Jit::new()));
            infallible!(root_i_c_any, DAny, W::new_c_in(clo!($k), Jit::new()));

            // conversions: the wrapper is built, converted, observed and disposed of
            macro_rules! conv {
                ($name:ident, $st:ty, |$w:ident| $conv:expr, $obs:ident) => {
                    pub fn $name() {
                        let r: Result<W<$st>, JitAllocError> = W::try_with_cc_in(cc::C, clo!($k), Jit::new());
                        if let Ok($w) = r {
                            mark(BUILT);
                            observe!($k $w);
                            let x = $conv;
                            $obs!($k x);
                            mark(DISPOSE);
                            drop(x);
                            mark(DONE);
                        }
                    }
                };
            }
            conv!(root_c_untyped, DAny, |w| w.into_untyped(), observe_untyped);
            conv!(root_c_untyped_both, DBoth, |w| w.into_untyped(), observe_untyped);
            conv!(root_c_up_send, DSend, |w| w.upcast::<dyn Any>(), observe);
            conv!(root_c_up_sync, DSync, |w| w.upcast::<dyn Any>(), observe);
            conv!(root_c_up_both_send, DBoth, |w| w.upcast::<dyn Send>(), observe);
            conv!(root_c_up_both_sync, DBoth, |w| w.upcast::<dyn Sync>(), observe);
            conv!(root_c_up_both_any, DBoth, |w| w.upcast::<dyn Any>(), observe);
            conv!(root_c_up_id, DAny, |w| w.upcast::<dyn Any>(), observe);
            conv!(root_c_up_chain, DBoth, |w| w.upcast::<dyn Send>().upcast::<dyn Any>().into_untyped(), observe_untyped);
            conv!(root_c_uup_send, DSend, |w| w.into_untyped().upcast::<dyn Any>(), observe_untyped);
            conv!(root_c_uup_both, DBoth, |w| w.into_untyped().upcast::<dyn Sync>().upcast::<dyn Any>(), observe_untyped);
            conv!(root_c_from_any, DAny, |w| { let u: U<dyn Any> = w.into(); u }, observe_untyped);
            conv!(root_c_from_both, DBoth, |w| { let u: U<dyn Send> = w.into(); u }, observe_untyped);
            conv!(root_c_from_both_any, DBoth, |w| { let u: U<dyn Any> = w.into(); u }, observe_untyped);

            macro_rules! leak {
                ($name:ident, $st:ty, |$w:ident| $leak:expr) => {
                    pub fn $name() {
                        let r: Result<W<$st>, JitAllocError> = W::try_with_cc_in(cc::C, clo!($k), Jit::new());
                        if let Ok($w) = r {
                            mark(BUILT);
                            observe!($k $w);
                            let p: *const () = $leak;
                            see(3, p);
                            mark(DONE);
                        }
                    }
                };
            }
            leak!(root_l_typed, DAny, |w| w.leak().to_ptr());
            leak!(root_l_typed_both, DBoth, |w| w.leak().to_ptr());
            leak!(root_l_untyped, DAny, |w| w.into_untyped().leak());
            leak!(root_l_up, DBoth, |w| w.upcast::<dyn Any>().leak().to_ptr());
            leak!(root_l_uup, DBoth, |w| w.into_untyped().upcast::<dyn Any>().leak());

            pub fn root_zl_typed() {
                let r: Result<W<DAny>, JitAllocError> = W::try_with_cc_in(cc::C, clo!(z $k), Jit::new());
                if let Ok(w) = r {
                    mark(BUILT);
                    see(3, w.leak().to_ptr());
                    mark(DONE);
                }
            }

            // a second wrapper alive at the same time, disposed of in the other order
            pub fn root_p_two() {
                let r1: Result<W<DAny>, JitAllocError> = W::try_with_cc_in(cc::C, clo!($k), Jit { id: 0x1001, pad: 0 });
                let r2: Result<W<DAny>, JitAllocError> = W::try_with_cc_in(cc::C, clo!($k), Jit { id: 0x1002, pad: 0 });
                if let (Ok(a), Ok(b)) = (r1, r2) {
                    mark(BUILT);
                    mark(DISPOSE);
                    drop(a);
                    drop(b);
                    mark(DONE);
                }
            }

            // borrowed and shared allocator handles
            pub fn root_b_ref() {
                let j = Jit::new();
                let r = $Any::<B, dyn Any, &Jit>::try_with_cc_in(cc::C, clo!($k), &j);
                if let Ok(w) = r {
                    mark(BUILT);
                    mark(DISPOSE);
                    drop(w);
                    mark(DONE);
                }
            }
            pub fn root_b_rc() {
                let j = alloc::rc::Rc::new(Jit::new());
                let r = $Any::<B, dyn Any, alloc::rc::Rc<Jit>>::try_with_cc_in(cc::C, clo!($k), j.clone());
                if let Ok(w) = r {
                    mark(BUILT);
                    mark(DISPOSE);
                    drop(w);
                    mark(DONE);
                }
            }
        }
    };
}

kind!(once, once, BareFnOnceAny, UntypedBareFnOnce);
kind!(muta, muta, BareFnMutAny, UntypedBareFnMut);
kind!(shared, shared, BareFnAny, UntypedBareFn);
