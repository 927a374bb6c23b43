//! Feedback from the instrumented crate (feature `cov`): which branches a case takes, and how close the
//! operands of its comparisons come to each other. Only the crate under test is instrumented.
use std::sync::atomic::{AtomicBool, Ordering};

static ON: AtomicBool = AtomicBool::new(false);
const SLOTS: usize = 1 << 12;
const KINDS: usize = 136;

pub struct State {
    counters: Vec<(*mut u8, usize)>,
    seen: Vec<u8>,
    pub hits: Vec<u32>,
    cmp: Vec<bool>,
    fresh: usize,
    pub pairs: Vec<(u64, u64, u32)>,
}

static mut STATE: Option<State> = None;

#[allow(static_mut_refs)]
fn st() -> &'static mut State {
    // one thread runs cases; constructors run before it starts
    unsafe {
        STATE.get_or_insert_with(|| State {
            counters: vec![],
            seen: vec![],
            hits: vec![],
            cmp: vec![false; SLOTS * KINDS],
            fresh: 0,
            pairs: vec![(0, 0, 0); SLOTS],
        })
    }
}

pub fn available() -> bool {
    !st().counters.is_empty()
}

pub fn begin() {
    let s = st();
    for &(p, n) in &s.counters {
        unsafe { std::ptr::write_bytes(p, 0, n) };
    }
    s.fresh = 0;
    ON.store(true, Ordering::Relaxed);
}

/// -> (new features, the branches taken)
pub fn end() -> (usize, Vec<u32>) {
    ON.store(false, Ordering::Relaxed);
    let s = st();
    let mut taken = Vec::new();
    let mut fresh = s.fresh;
    let mut k = 0usize;
    for &(p, n) in &s.counters {
        for i in 0..n {
            let c = unsafe { *p.add(i) };
            if c != 0 {
                let b = 1u8 << match c {
                    1 => 0,
                    2 => 1,
                    3 => 2,
                    4..=7 => 3,
                    8..=15 => 4,
                    16..=31 => 5,
                    32..=127 => 6,
                    _ => 7,
                };
                if s.seen[k] & b == 0 {
                    fresh += if s.seen[k] == 0 { 8 } else { 1 };
                    s.seen[k] |= b;
                }
                s.hits[k] = s.hits[k].saturating_add(1);
                taken.push(k as u32);
            }
            k += 1;
        }
    }
    (fresh, taken)
}

pub fn state() -> &'static State {
    st()
}

pub fn covered() -> (usize, usize) {
    let s = st();
    (s.seen.iter().filter(|x| **x != 0).count(), s.seen.len())
}

#[allow(dead_code)]
extern "C" fn rec(a: u64, b: u64, pc: u64, size: u64) {
    if !ON.load(Ordering::Relaxed) {
        return;
    }
    let s = st();
    let m = if size >= 8 { !0 } else { (1u64 << (8 * size)) - 1 };
    let (a, b) = (a & m, b & m);
    let slot = ((pc ^ (pc >> 12)) as usize).wrapping_mul(0x9e3779b1) >> 7 & (SLOTS - 1);
    let x = (a ^ b).count_ones() as usize;
    let y = 64 - a.abs_diff(b).leading_zeros() as usize;
    for k in [x, 66 + y] {
        let f = &mut s.cmp[slot * KINDS + k];
        if !*f {
            *f = true;
            s.fresh += 1;
        }
    }
    if a != b && size != 9 {
        s.pairs[slot] = (a, b, size as u32);
    }
}

#[cfg(feature = "cov")]
mod hooks {
    use super::*;
    #[no_mangle]
    extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
        let n = stop as usize - start as usize;
        let s = st();
        if n == 0 || s.counters.iter().any(|c| c.0 == start) {
            return;
        }
        s.counters.push((start, n));
        s.seen.resize(s.seen.len() + n, 0);
        s.hits.resize(s.hits.len() + n, 0);
    }
    #[no_mangle]
    extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}
    macro_rules! cmp {
        ($($n:ident $s:literal),*) => {$(
            #[unsafe(naked)]
            #[no_mangle]
            extern "C" fn $n() {
                std::arch::naked_asm!("mov rdx, [rsp]", "mov ecx, {s}", "jmp {f}", s = const $s, f = sym rec)
            }
        )*};
    }
    cmp!(__sanitizer_cov_trace_cmp1 1, __sanitizer_cov_trace_cmp2 2, __sanitizer_cov_trace_cmp4 4, __sanitizer_cov_trace_cmp8 8,
         __sanitizer_cov_trace_const_cmp1 1, __sanitizer_cov_trace_const_cmp2 2, __sanitizer_cov_trace_const_cmp4 4, __sanitizer_cov_trace_const_cmp8 8);
    extern "C" fn switch(v: u64, c: *const u64, pc: u64) {
        unsafe {
            let n = (*c).min(16);
            let bits = *c.add(1);
            for i in 0..n {
                rec(v, *c.add(2 + i as usize), pc + i * 64, bits / 8);
            }
        }
    }
    #[unsafe(naked)]
    #[no_mangle]
    extern "C" fn __sanitizer_cov_trace_switch() {
        std::arch::naked_asm!("mov rdx, [rsp]", "jmp {f}", f = sym switch)
    }
    // comparisons of byte strings
    extern "C" {
        fn __real_bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
        fn __real_memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    }
    fn strings(a: *const u8, b: *const u8, n: usize, pc: u64) {
        if !ON.load(Ordering::Relaxed) {
            return;
        }
        unsafe {
            for i in 0..n.min(16) {
                rec(*a.add(i) as u64, *b.add(i) as u64, pc + 64 * i as u64, 1);
            }
            let same = (0..n.min(64)).filter(|i| *a.add(*i) == *b.add(*i)).count();
            rec(!0 >> same.min(63), !0, pc + 3, 9);
            if n >= 2 {
                let w = n.min(8);
                let (mut x, mut y) = (0u64, 0u64);
                for i in 0..w {
                    x |= (*a.add(i) as u64) << (8 * i);
                    y |= (*b.add(i) as u64) << (8 * i);
                }
                rec(x, y, pc + 7, w as u64);
            }
        }
    }
    extern "C" fn bcmp_(a: *const u8, b: *const u8, n: usize, pc: u64) -> i32 {
        strings(a, b, n, pc);
        unsafe { __real_bcmp(a, b, n) }
    }
    extern "C" fn memcmp_(a: *const u8, b: *const u8, n: usize, pc: u64) -> i32 {
        strings(a, b, n, pc);
        unsafe { __real_memcmp(a, b, n) }
    }
    #[unsafe(naked)]
    #[no_mangle]
    extern "C" fn __wrap_bcmp() {
        std::arch::naked_asm!("mov rcx, [rsp]", "jmp {f}", f = sym bcmp_)
    }
    #[unsafe(naked)]
    #[no_mangle]
    extern "C" fn __wrap_memcmp() {
        std::arch::naked_asm!("mov rcx, [rsp]", "jmp {f}", f = sym memcmp_)
    }
}
