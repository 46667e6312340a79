//! Source of the universally quantified inputs of an obligation.
//!
//! Under Kani every value is `kani::any()`, so an obligation is checked for
//! all values at once.  Natively the values are read from a byte queue: that
//! is how a counterexample found by the verifier is replayed on the real code
//! and how the bounded stand-in search (random inputs) is driven.

#[cfg(kani)]
mod imp {
    #[inline(always)]
    pub fn u8() -> u8 {
        kani::any()
    }
    #[inline(always)]
    pub fn bytes<const N: usize>() -> [u8; N] {
        kani::any()
    }
    #[inline(always)]
    pub fn words<const N: usize>() -> [u32; N] {
        kani::any()
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    pub fn choose(n: usize) -> usize {
        let v: usize = kani::any();
        kani::assume(v < n);
        v
    }
}

#[cfg(feature = "llsym")]
mod imp {
    extern "C" {
        fn vp_nondet_u8() -> u8;
        fn vp_assume(c: bool);
        fn vp_choose(n: usize) -> usize;
        fn vp_below(n: usize) -> usize;
        fn vp_tab(x: u16, f: extern "C" fn(u16) -> u32) -> u32;
    }
    #[inline(always)]
    pub fn u8() -> u8 {
        unsafe { vp_nondet_u8() }
    }
    #[inline(always)]
    pub fn bytes<const N: usize>() -> [u8; N] {
        core::array::from_fn(|_| u8())
    }
    #[inline(always)]
    pub fn words<const N: usize>() -> [u32; N] {
        core::array::from_fn(|_| u32::from_le_bytes(bytes::<4>()))
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { vp_assume(c) }
    }
    #[inline(always)]
    pub fn choose(n: usize) -> usize {
        unsafe { vp_choose(n) }
    }
    #[inline(always)]
    pub fn tab_impl(x: u16, f: extern "C" fn(u16) -> u32) -> u32 {
        unsafe { vp_tab(x, f) }
    }
    #[inline(always)]
    pub fn below_impl(n: usize) -> usize {
        unsafe { vp_below(n) }
    }
}

#[cfg(not(any(kani, feature = "llsym")))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        static Q: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
    }
    /// Payload of the panic raised when a precondition does not hold natively.
    pub struct Vacuous;
    pub fn load(v: Vec<u8>) {
        Q.with(|q| *q.borrow_mut() = (v, 0));
    }
    pub fn used() -> Vec<u8> {
        Q.with(|q| {
            let q = q.borrow();
            let n = q.1.min(q.0.len());
            q.0[..n].to_vec()
        })
    }
    pub fn u8() -> u8 {
        Q.with(|q| {
            let mut q = q.borrow_mut();
            let i = q.1;
            q.1 += 1;
            // a short queue is zero extended
            q.0.get(i).copied().unwrap_or(0)
        })
    }
    pub fn bytes<const N: usize>() -> [u8; N] {
        let mut a = [0u8; N];
        for x in a.iter_mut() {
            *x = u8();
        }
        a
    }
    pub fn words<const N: usize>() -> [u32; N] {
        let mut a = [0u32; N];
        for x in a.iter_mut() {
            *x = u32::from_le_bytes(bytes::<4>());
        }
        a
    }
    /// any value below `n`; the symbolic executor takes every value in turn
    pub fn choose(n: usize) -> usize {
        let v = u8() as usize | (u8() as usize) << 8;
        v % n
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(Vacuous)
        }
    }
}

pub use imp::*;

#[inline(always)]
pub fn bool() -> bool {
    u8() & 1 == 1
}
#[inline(always)]
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes::<2>())
}
#[inline(always)]
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes::<4>())
}
/// any index below `n` (n <= 256)
#[inline(always)]
pub fn below(n: usize) -> usize {
    #[cfg(feature = "llsym")]
    return imp::below_impl(n);
    #[cfg(not(feature = "llsym"))]
    {
        let v = u8() as usize;
        if cfg!(kani) {
            assume(v < n);
            v
        } else {
            v % n
        }
    }
}

/// `f(x)`; the LLVM-level verifier tabulates `f` over all 2^16 arguments
#[inline(always)]
pub fn tab(x: u16, f: extern "C" fn(u16) -> u32) -> u32 {
    #[cfg(feature = "llsym")]
    return imp::tab_impl(x, f);
    #[cfg(not(feature = "llsym"))]
    f(x)
}
