//! Inputs that put a chosen, structured state at a chosen place inside a primitive: the rounds are
//! undone (or, for SHA-256, the message words solved for).  Random inputs practically never produce
//! equal columns, zero words and the like in the middle of a computation.
use crate::gen::Rng;
use crate::refimpl as rf;

const WORDS: [u32; 12] = [0, 1, 0xffff_ffff, 0x8000_0000, 0x7fff_ffff, 0xff, 0xff00_0000, 0x0000_ffff, 0xffff_0000, 0x0101_0101, 0x8080_8080, 0x00ff_00ff];

/// a word: edge values, constants of the source, random
pub fn word(r: &mut Rng, dict: &[u64]) -> u32 {
    match r.below(6) {
        0 => *r.pick(&WORDS),
        1 if !dict.is_empty() => {
            let x = *r.pick(dict) as u32;
            match r.below(4) {
                0 => x.wrapping_add(1),
                1 => x.wrapping_sub(1),
                _ => x,
            }
        }
        2 => 0x0101_0101 * (r.next() as u32 & 0xff),
        3 => 1 << r.below(32),
        _ => r.next() as u32,
    }
}

fn byte(r: &mut Rng, dict: &[u64]) -> u8 {
    match r.below(6) {
        0 => *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x63, 0x52]),
        1 if !dict.is_empty() => *r.pick(dict) as u8,
        _ => r.next() as u8,
    }
}

/// a 4 x 4 pattern: cells that share their masked coordinates are equal
fn grid<T: Copy>(r: &mut Rng, mut cell: impl FnMut(&mut Rng) -> T) -> [T; 16] {
    let z = cell(r);
    let mut pal = [[z; 4]; 4];
    for a in pal.iter_mut() {
        for b in a.iter_mut() {
            *b = cell(r);
        }
    }
    if r.one_in(3) {
        // few different values
        let (p, q) = (cell(r), cell(r));
        for a in pal.iter_mut() {
            for b in a.iter_mut() {
                *b = if r.one_in(2) { p } else { q };
            }
        }
    }
    let (m1, m2, x) = (r.below(4), r.below(4), r.below(3));
    let mut g = [z; 16];
    for i in 0..4 {
        for j in 0..4 {
            g[4 * i + j] = match x {
                0 => pal[i & m1][j & m2],
                1 => pal[i & m1][(i + j) & m2],
                _ => pal[i / 2 * (m1 & 1)][j & m2],
            };
        }
    }
    // break the pattern in one row, column or cell, or zero it there
    match r.below(6) {
        0 => {
            let i = r.below(4);
            let c = cell(r);
            for j in 0..4 {
                g[4 * i + j] = c;
            }
        }
        1 => {
            let j = r.below(4);
            let c = cell(r);
            for i in 0..4 {
                g[4 * i + j] = c;
            }
        }
        2 => g[r.below(16)] = cell(r),
        3 => {
            let i = r.below(4);
            for j in 0..4 {
                g[4 * i + j] = cell(r);
            }
        }
        _ => {}
    }
    g
}

/// words in a row: all one value, one different, halves equal, ...
fn line(r: &mut Rng, n: usize, dict: &[u64]) -> Vec<u32> {
    let p = 1 + r.below(n);
    let pal: Vec<u32> = (0..p).map(|_| word(r, dict)).collect();
    let mut v: Vec<u32> = (0..n).map(|i| pal[i % p]).collect();
    if r.one_in(2) {
        v[r.below(n)] = word(r, dict);
    }
    v
}

// ---- AES
/// a key whose schedule has structured words somewhere
pub fn aes_key(r: &mut Rng, nk: usize, dict: &[u64]) -> Vec<u8> {
    let total = 4 * (nk + 7);
    let at = if r.one_in(4) { 0 } else { r.below(total - nk + 1) };
    let mut w = vec![0u32; total];
    let l = line(r, nk, dict);
    w[at..at + nk].copy_from_slice(&l);
    for i in (nk..at + nk).rev() {
        // w[i] = w[i - nk] ^ f(w[i - 1]); when i - nk is not yet known
        if i - nk < at {
            w[i - nk] = w[i] ^ rf::aes_key_f(w[i - 1], i, nk);
        }
    }
    w[..nk].iter().flat_map(|x| x.to_be_bytes()).collect()
}

/// (plaintext, ciphertext) with a structured state inside a round
pub fn aes_block(r: &mut Rng, a: &rf::Aes, dict: &[u64]) -> ([u8; 16], [u8; 16]) {
    let g = grid(r, |r| byte(r, dict));
    let round = r.below(a.rounds() + 1);
    let stage = r.below(4);
    (a.back(&g, round, stage), a.forth(&g, round, stage))
}

// ---- Salsa20
pub fn salsa_block(r: &mut Rng, double_rounds: usize, dict: &[u64]) -> Vec<u8> {
    let g = grid(r, |r| word(r, dict));
    let k = r.below(2 * double_rounds + 1);
    rf::salsa_back(&g, k).iter().flat_map(|x| x.to_le_bytes()).collect()
}

// ---- SHA-256
/// a 64-byte block that, compressed from h, has structured words in the schedule or in the working variables
pub fn sha_block(r: &mut Rng, h: &[u32; 8], dict: &[u64]) -> Vec<u8> {
    let mut w = [0u32; 64];
    if r.one_in(2) {
        let at = r.below(49);
        let l = line(r, 16, dict);
        w[at..at + 16].copy_from_slice(&l);
        for t in (0..at).rev() {
            let x = w[t + 15];
            let y = w[t + 14];
            let s0 = w[t + 1].rotate_right(7) ^ w[t + 1].rotate_right(18) ^ (w[t + 1] >> 3);
            let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
            let _ = x;
            w[t] = w[t + 16].wrapping_sub(s0).wrapping_sub(w[t + 9]).wrapping_sub(s1);
        }
    } else {
        for x in w[..16].iter_mut() {
            *x = word(r, dict);
        }
        let at = 8 + r.below(9); // working variables after this many steps
        let v = line(r, 8, dict);
        let s0 = |a: u32| a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
        let s1 = |e: u32| e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
        let maj = |a: u32, b: u32, c: u32| (a & b) ^ (a & c) ^ (b & c);
        let t2 = |a: u32, b: u32, c: u32| s0(a).wrapping_add(maj(a, b, c));
        // the sequence of the values of a that leads there: al[0] is the latest
        let mut al = vec![v[0], v[1], v[2], v[3]];
        for k in 0..4 {
            // e_{t-k} = a_{t-k-4} + a_{t-k} - T2(a_{t-k-1}, a_{t-k-2}, a_{t-k-3})
            let x = v[4 + k].wrapping_sub(al[k]).wrapping_add(t2(al[k + 1], al[k + 2], al[k + 3]));
            al.push(x);
        }
        // run, choosing the last eight words
        let mut s = *h;
        for t in 0..at {
            if t >= at - 8 {
                let want = al[at - 1 - t];
                let t1 = want.wrapping_sub(t2(s[0], s[1], s[2]));
                let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
                w[t] = t1.wrapping_sub(s[7]).wrapping_sub(s1(s[4])).wrapping_sub(ch).wrapping_sub(rf::sha_k(t));
            }
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(s1(s[4])).wrapping_add(ch).wrapping_add(rf::sha_k(t)).wrapping_add(w[t]);
            let u = t2(s[0], s[1], s[2]);
            s = [t1.wrapping_add(u), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        debug_assert_eq!(s.to_vec(), v);
        if s.to_vec() != v {
            panic!("steering is wrong");
        }
    }
    w[..16].iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn selftest() -> Result<(), String> {
    let mut r = Rng(7);
    for i in 0..400 {
        let nk = [4, 6, 8][i % 3];
        let k = aes_key(&mut r, nk, &[]);
        let a = rf::Aes::new(&k).unwrap();
        let (p, c) = aes_block(&mut r, &a, &[]);
        if a.enc(&p) != c {
            return Err("AES steering".into());
        }
        let g = [1u32, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, i as u32];
        let b: Vec<u8> = rf::salsa_back(&g, 2 * (i % 5)).iter().flat_map(|x| x.to_le_bytes()).collect();
        let x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        let o: Vec<u32> = rf::salsa_block(&b, i % 5).chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
        if (0..16).any(|j| o[j].wrapping_sub(x[j]) != g[j]) {
            return Err("Salsa20 steering".into());
        }
        sha_block(&mut r, &[i as u32; 8], &[]);
    }
    Ok(())
}
