// Thunks with a hand-written prologue: the prologue leaves its result in the return register, the
// library's own assembly block follows, then the function returns.
use closure_ffi::{traits::{Any, FnThunk, FnMutThunk, FnOnceThunk}, UntypedBareFn, BareFnAny};
pub type B = unsafe extern "C" fn(usize, usize) -> usize;

#[cfg(target_arch = "x86_64")]
#[macro_export]
macro_rules! block { () => { concat!(
    "mov rcx, [rip + 82f]\n", "jmp [rip + 82f+8]\n", ".balign 8, 0xCC\n", "82:\n",
    ".8byte 0xF0F0F0F0F0F0F0F0\n", ".8byte 0xF0FFF0F0F0F0F0F0\n") } }
#[cfg(target_arch = "x86")]
#[macro_export]
macro_rules! block { () => { concat!(
    ".balign 8\n", "mov ecx, 0xC0DEC0DE\n", "mov edx, 0xC0DEC0DE\n", "jmp edx\n", ".4byte 0xCCCCCCCC\n",
    ".8byte 0xF0F0F0F0F0F0F0F0\n", ".8byte 0xF0FFF0F0F0F0F0F0\n") } }
#[cfg(target_arch = "aarch64")]
#[macro_export]
macro_rules! block { () => { concat!(
    "ldr x9, 81f\n", "ldr x10, 82f\n", "br x10\n", ".balign 8\n", "81:\n", ".8byte 0x0000DEAD0000DEAD\n", "82:\n", ".8byte 0\n") } }
#[cfg(all(target_arch = "arm", not(target_feature = "thumb-mode")))]
#[macro_export]
macro_rules! block { () => { concat!(
    "ldr r3, 81f\n", "ldr r12, 82f\n", "bx r12\n", ".balign 4\n", "81:\n", ".4byte 0xE7FDEAFD\n", "82:\n", ".4byte 0\n") } }
#[cfg(all(target_arch = "arm", target_feature = "thumb-mode"))]
#[macro_export]
macro_rules! block { () => { concat!(
    "ldr r3, 81f\n", "ldr r12, 82f\n", "bx r12\n", ".balign 4\n", "81:\n", ".4byte 0xDE2ADE2A\n", "82:\n", ".4byte 0\n") } }

#[cfg(all(target_arch = "arm", target_feature = "thumb-mode"))]
#[macro_export]
macro_rules! head { ($n:ident, $align:literal) => { concat!(".syntax unified\n.thumb\n.globl ", stringify!($n), "\n.balign 16\n", $align, "\n.type ", stringify!($n), ", %function\n.thumb_func\n", stringify!($n), ":\n") } }
#[cfg(all(target_arch = "arm", not(target_feature = "thumb-mode")))]
#[macro_export]
macro_rules! head { ($n:ident, $align:literal) => { concat!(".arm\n.globl ", stringify!($n), "\n.balign 16\n", $align, "\n.type ", stringify!($n), ", %function\n", stringify!($n), ":\n") } }
#[cfg(not(target_arch = "arm"))]
#[macro_export]
macro_rules! head { ($n:ident, $align:literal) => { concat!(".globl ", stringify!($n), "\n.balign 16\n", $align, "\n", stringify!($n), ":\n") } }

/// `template!(Name, symbol, "before the entry", "prologue", "after the block (ends with a return)")`
#[macro_export]
macro_rules! template {
    ($t:ident, $n:ident, $align:literal, $pro:literal, $epi:literal) => {
        core::arch::global_asm!(concat!(".text\n", head!($n, $align), $pro, "\n", block!(), $epi, "\n"));
        unsafe extern "C" { fn $n(a: usize, b: usize) -> usize; }
        pub struct $t(pub usize);
        unsafe impl closure_ffi::traits::FnOnceThunk<$crate::lab::B> for $t {
            const THUNK_TEMPLATE_ONCE: *const u8 = $n as *const u8;
            unsafe fn call_once<'a, 'b, 'c>(self, _: <$crate::lab::B as closure_ffi::traits::FnPtr>::Args<'a, 'b, 'c>) -> <$crate::lab::B as closure_ffi::traits::FnPtr>::Ret<'a, 'b, 'c> { 0 }
        }
        unsafe impl closure_ffi::traits::FnMutThunk<$crate::lab::B> for $t {
            const THUNK_TEMPLATE_MUT: *const u8 = $n as *const u8;
            unsafe fn call_mut<'a, 'b, 'c>(&mut self, _: <$crate::lab::B as closure_ffi::traits::FnPtr>::Args<'a, 'b, 'c>) -> <$crate::lab::B as closure_ffi::traits::FnPtr>::Ret<'a, 'b, 'c> { 0 }
        }
        unsafe impl closure_ffi::traits::FnThunk<$crate::lab::B> for $t {
            const THUNK_TEMPLATE: *const u8 = $n as *const u8;
            unsafe fn call<'a, 'b, 'c>(&self, _: <$crate::lab::B as closure_ffi::traits::FnPtr>::Args<'a, 'b, 'c>) -> <$crate::lab::B as closure_ffi::traits::FnPtr>::Ret<'a, 'b, 'c> { 0 }
        }
    };
}

/// The wrapper, or `None` if the library refuses to relocate the prologue.
#[allow(dead_code)]
pub fn wrap<T: FnThunk<B> + FnMutThunk<B> + FnOnceThunk<B> + 'static>(t: T) -> Option<BareFnAny<B, dyn Any + 'static>> {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| BareFnAny::<B, dyn Any>::with_thunk(t)));
    let _ = std::panic::take_hook();
    r.ok()
}

/// What calling the wrapper returns, or `None` if the library refuses to relocate the prologue.
#[allow(dead_code)]
pub fn run<T: FnThunk<B> + FnMutThunk<B> + FnOnceThunk<B> + 'static>(t: T, a: usize, b: usize) -> Option<usize> {
    wrap(t).map(|f| unsafe { (f.bare())(a, b) })
}

/// Fails the demonstration if the call returned something else than expected. A refusal is fine if allowed.
#[allow(dead_code)]
pub fn expect(name: &str, got: Option<usize>, want: usize, may_refuse: bool) {
    match got {
        Some(x) if x == want => println!("{name}: ok"),
        None if may_refuse => println!("{name}: refused"),
        x => { println!("{name}: got {x:x?}, expected {want:x}"); std::process::exit(1) }
    }
}
#[allow(unused)]
type _U = UntypedBareFn<dyn Any>;
