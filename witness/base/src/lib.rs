#![no_std]
pub use closure_ffi;
