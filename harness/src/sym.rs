//! The interface to the symbolic executor
//!
//! In the encoded build these are external functions that the executor
//! provides; in the native build they read a recorded list of values, so that
//! one path can be replayed on the compiled code.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_u8() -> u8;
        fn sym_u32() -> u32;
        fn sym_param(i: u32) -> u64;
        fn sym_assume(b: bool);
        fn sym_fail(p: *const u8, n: usize) -> !;
        fn sym_reach(i: u64);
        fn sym_observe(x: u64);
        fn sym_concretize(x: u64) -> u64;
        fn sym_end() -> !;
        fn sym_init() -> *const Init;
    }
    pub type Init = extern "C" fn(i32, *const *const i8, *const *const i8);
    /// What sets the arguments of the program
    #[allow(dead_code)]
    pub fn arguments() -> *const Init {
        unsafe { sym_init() }
    }
    /// Ends the path
    #[allow(dead_code)]
    pub fn end() -> ! {
        unsafe { sym_end() }
    }
    pub fn u8() -> u8 {
        unsafe { sym_u8() }
    }
    pub fn u32() -> u32 {
        unsafe { sym_u32() }
    }
    pub fn param(i: u32) -> u64 {
        unsafe { sym_param(i) }
    }
    pub fn assume(b: bool) {
        unsafe { sym_assume(b) }
    }
    pub fn fail(m: &str) -> ! {
        unsafe { sym_fail(m.as_ptr(), m.len()) }
    }
    pub fn reach(i: u64) {
        unsafe { sym_reach(i) }
    }
    pub fn observe(x: u64) {
        unsafe { sym_observe(x) }
    }
    pub fn concretize(x: u64) -> u64 {
        unsafe { sym_concretize(x) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    pub enum Stop {
        Fail(String),
        Assume,
        Exhausted,
    }
    thread_local! {
        pub static PARAMS: RefCell<Vec<u64>> = RefCell::new(vec![]);
        pub static VALUES: RefCell<(Vec<u64>, usize)> = RefCell::new((vec![], 0));
        pub static OBS: RefCell<Vec<u64>> = RefCell::new(vec![]);
    }
    fn next() -> u64 {
        VALUES.with(|v| {
            let mut v = v.borrow_mut();
            let i = v.1;
            if i >= v.0.len() {
                drop(v);
                std::panic::panic_any(Stop::Exhausted);
            }
            v.1 += 1;
            v.0[i]
        })
    }
    pub fn u8() -> u8 {
        next() as u8
    }
    pub fn u32() -> u32 {
        next() as u32
    }
    pub fn param(i: u32) -> u64 {
        PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0))
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(Stop::Assume);
        }
    }
    pub fn fail(m: &str) -> ! {
        std::panic::panic_any(Stop::Fail(m.to_string()));
    }
    pub fn reach(_: u64) {}
    pub fn observe(x: u64) {
        OBS.with(|o| o.borrow_mut().push(x));
    }
    pub fn concretize(x: u64) -> u64 {
        x
    }
}

pub use imp::*;

/// Chooses one of `n` alternatives; the executor follows all of them
pub fn choose(n: u64) -> usize {
    if n <= 1 {
        return 0;
    }
    if n <= 256 {
        let x = u8();
        assume((x as u64) < n);
        concretize(x as u64) as usize
    } else {
        let x = u32();
        assume((x as u64) < n);
        concretize(x as u64) as usize
    }
}

/// One symbolic byte out of a small set, without following the members apart
pub fn one_of(set: &[u8]) -> u8 {
    let x = u8();
    let mut ok = false;
    for b in set {
        ok |= x == *b;
    }
    assume(ok);
    x
}

/// Fails with a message unless the condition holds
pub fn check(b: bool, m: &str) {
    if !b {
        fail(m)
    }
}
