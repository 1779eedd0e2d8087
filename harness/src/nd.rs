//! Symbolic inputs and observations.  Under `--cfg wzsym` (the build whose IR is
//! executed symbolically) these are externs interpreted by the engine; natively they
//! are fed from a recorded byte stream.
#[cfg(wzsym)]
mod imp {
    extern "C" {
        fn __nd_bytes(p: *mut u8, n: usize);
        fn __nd_assume(c: bool);
        fn __nd_conc(v: u64) -> u64;
        fn __nd_param(i: u64) -> u64;
        fn __nd_cover(i: u64);
        fn __nd_obs(v: u64);
    }
    pub fn fill(b: &mut [u8]) {
        unsafe { __nd_bytes(b.as_mut_ptr(), b.len()) }
    }
    pub fn assume(c: bool) {
        unsafe { __nd_assume(c) }
    }
    pub fn conc(v: u64) -> u64 {
        unsafe { __nd_conc(v) }
    }
    pub fn param(i: u64) -> u64 {
        unsafe { __nd_param(i) }
    }
    pub fn cover(i: u64) {
        unsafe { __nd_cover(i) }
    }
    pub fn obs(v: u64) {
        unsafe { __nd_obs(v) }
    }
}
#[cfg(not(wzsym))]
pub mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Run {
        pub input: Vec<u8>,
        pub pos: usize,
        pub params: Vec<u64>,
        pub obs: Vec<u64>,
        pub covers: Vec<u64>,
    }
    pub struct AssumeFailed;
    thread_local! { pub static RUN: RefCell<Run> = RefCell::new(Run::default()); }
    pub fn fill(b: &mut [u8]) {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            for x in b.iter_mut() {
                *x = r.input.get(r.pos).copied().unwrap_or(0);
                r.pos += 1;
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::panic_any(AssumeFailed)
        }
    }
    pub fn conc(v: u64) -> u64 {
        v
    }
    pub fn param(i: u64) -> u64 {
        RUN.with(|r| r.borrow().params[i as usize])
    }
    pub fn cover(i: u64) {
        RUN.with(|r| r.borrow_mut().covers.push(i))
    }
    pub fn obs(v: u64) {
        RUN.with(|r| r.borrow_mut().obs.push(v))
    }
}
pub use imp::{assume, conc, cover, fill, obs, param};

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn i8() -> i8 {
    u8() as i8
}
pub fn i32() -> i32 {
    u32() as i32
}
pub fn bool() -> bool {
    u8() & 1 == 1
}
/// a value below `n`, one path per value
pub fn below(n: u64) -> u64 {
    let v = if n <= 256 { u8() as u64 } else { u32() as u64 };
    assume(v < n);
    conc(v)
}
pub fn obs_bytes(b: &[u8]) {
    obs(b.len() as u64);
    for x in b {
        obs(*x as u64);
    }
}
pub fn obs_str(b: &str) {
    obs_bytes(b.as_bytes())
}
/// equality without one branch per byte
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// branch-free choice
pub fn sel(c: bool, a: u64, b: u64) -> u64 {
    let m = 0u64.wrapping_sub(c as u64);
    a & m | b & !m
}

#[macro_export]
macro_rules! harnesses {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( #[no_mangle] pub fn $name() $body )*
        pub const TABLE: &[(&str, fn())] = &[ $( (stringify!($name), $name as fn()) ),* ];
    }
}
