//! Visible operations of instrumented code (feature `visible`): every atomic operation and every
//! plain access to the writable static memory of the program is a scheduling point.
//!
//! The crates are compiled with LLVM's ThreadSanitizer pass (atomics become calls of the functions
//! below) and its SanitizerCoverage pass (calls before loads and stores). No sanitizer run time is
//! linked: these functions are all there is.
use super::mc;
use std::ffi::c_void;
use std::sync::atomic::*;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline]
fn is_static(a: usize) -> bool {
    a >= &raw const __data_start as usize && a < &raw const _end as usize
}
#[inline]
fn access(a: *const c_void) {
    if is_static(a as usize) {
        mc::op_point(true);
    }
}

macro_rules! cov {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n(a: *const c_void) { access(a) })* };
}
cov!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
cov!(__sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

macro_rules! atomics {
    ($($t:ty, $a:ty: $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cxv:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(a: *mut $t, _m: i32) -> $t { mc::op_point(is_static(a as usize)); <$a>::from_ptr(a).load(Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(a: *mut $t, v: $t, _m: i32) { mc::op_point(is_static(a as usize)); <$a>::from_ptr(a).store(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xchg(a: *mut $t, v: $t, _m: i32) -> $t { mc::op_point(is_static(a as usize)); <$a>::from_ptr(a).swap(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(a: *mut $t, v: $t, _m: i32) -> $t { mc::op_point(is_static(a as usize)); <$a>::from_ptr(a).fetch_add(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(a: *mut $t, v: $t, _m: i32) -> $t { mc::op_point(is_static(a as usize)); <$a>::from_ptr(a).fetch_sub(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(a: *mut $t, v: $t, _m: i32) -> $t { mc::op_point(is_static(a as usize)); <$a>::from_ptr(a).fetch_and(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(a: *mut $t, v: $t, _m: i32) -> $t { mc::op_point(is_static(a as usize)); <$a>::from_ptr(a).fetch_or(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(a: *mut $t, v: $t, _m: i32) -> $t { mc::op_point(is_static(a as usize)); <$a>::from_ptr(a).fetch_xor(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(a: *mut $t, v: $t, _m: i32) -> $t { mc::op_point(is_static(a as usize)); <$a>::from_ptr(a).fetch_nand(v, Ordering::SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cxv(a: *mut $t, c: $t, v: $t, _m: i32, _f: i32) -> $t {
            mc::op_point(is_static(a as usize));
            match <$a>::from_ptr(a).compare_exchange(c, v, Ordering::SeqCst, Ordering::SeqCst) { Ok(x) | Err(x) => x }
        }
    )* };
}
atomics! {
    u8, AtomicU8: __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16: __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32: __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64: __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val;
}
macro_rules! nothing {
    ($($n:ident)*) => { $(#[no_mangle] pub extern "C" fn $n() {})* };
}
nothing!(__tsan_init __tsan_func_entry __tsan_func_exit __tsan_atomic_thread_fence __tsan_atomic_signal_fence);
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    std::ptr::copy_nonoverlapping(s as *const u8, d as *mut u8, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    std::ptr::copy(s as *const u8, d as *mut u8, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut c_void, c: i32, n: usize) -> *mut c_void {
    std::ptr::write_bytes(d as *mut u8, c as u8, n);
    d
}
