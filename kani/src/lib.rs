//! Kani harnesses over the compiled MIR of mapping-algorithms.
//!
//! C27: the NaN test of every number type, over all bit patterns.
//! C28: every pregenerated function against its generic counterpart. The generic functions are
//! replaced by recorders that keep the instantiation and every argument bit and return an
//! arbitrary result; the harnesses assert that the pregenerated function made exactly that one
//! call with its own arguments, and handed back exactly that result.
#![allow(static_mut_refs)]
pub mod cases;
#[cfg(kani)]
mod nan;
#[cfg(kani)]
mod rec;

/// bits of a value of at most eight bytes
pub fn word<T: Copy>(x: &T) -> u64 {
    let mut w = [0u8; 8];
    let p = x as *const T as *const u8;
    match core::mem::size_of::<T>() {
        1 => w[0] = unsafe { *p },
        2 => return unsafe { *(p as *const u16) } as u64,
        4 => return unsafe { *(p as *const u32) } as u64,
        8 => return unsafe { *(p as *const u64) },
        _ => panic!("unexpected number size"),
    }
    u64::from_le_bytes(w)
}
/// the value of T with these low bits
pub fn value<T: Copy>(w: u64) -> T {
    assert!(core::mem::size_of::<T>() <= 8);
    unsafe { core::mem::transmute_copy::<u64, T>(&w) }
}

/// words of a call or of a result
#[cfg(kani)]
#[derive(Clone, Copy)]
pub struct Log {
    pub w: [u64; 24],
    pub n: usize,
    pub at: [(*const u8, usize); 2],
    pub slices: usize,
}
#[cfg(kani)]
impl Log {
    pub const fn new() -> Self {
        Log { w: [0; 24], n: 0, at: [(core::ptr::null(), 0); 2], slices: 0 }
    }
    pub fn place(&mut self, p: *const u8, n: usize) {
        self.at[self.slices] = (p, n);
        self.slices += 1;
    }
    pub fn push(&mut self, x: u64) {
        self.w[self.n] = x;
        self.n += 1;
    }
    /// loop-free equality (unused words are zero)
    pub fn same(&self, o: &Log) -> bool {
        macro_rules! eq { ($($i:literal)*) => { (self.n == o.n) $(& (self.w[$i] == o.w[$i]))* } }
        let there = |k: usize| (self.at[k].1 <= 2) | (self.at[k].0 == o.at[k].0);
        (self.slices == o.slices) & there(0) & there(1) &
        eq!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23)
    }
}
#[cfg(not(kani))]
#[derive(Clone, Debug, PartialEq)]
pub struct Log {
    pub w: Vec<u64>,
}
#[cfg(not(kani))]
impl Log {
    pub const fn new() -> Self {
        Log { w: Vec::new() }
    }
    pub fn push(&mut self, x: u64) {
        self.w.push(x)
    }
}
