//! Independent reference implementations, written from the standards and
//! checked against known answers (`selftest`) on every run.

#[derive(Clone)]
pub struct Sha {
    h: [u32; 8],
    buf: Vec<u8>,
    len: u64,
    k: [u32; 64],
}

fn primes(n: usize) -> Vec<u64> {
    let mut v = Vec::new();
    let mut c = 2u64;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

/// First 32 bits of the fractional part of the `root`-th root of p (integers only).
fn frac_root(p: u64, root: u32) -> u32 {
    // largest x with x^root <= p * 2^(32*root)
    let target: u128 = if root == 2 { (p as u128) << 64 } else { (p as u128) << 96 };
    let (mut lo, mut hi) = (0u128, 1u128 << 37);
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        let pow = if root == 2 { m.checked_mul(m) } else { m.checked_mul(m).and_then(|x| x.checked_mul(m)) };
        if pow.map_or(false, |x| x <= target) {
            lo = m;
        } else {
            hi = m;
        }
    }
    lo as u32
}

use std::sync::OnceLock;
fn tables() -> &'static ([u32; 8], [u32; 64]) {
    static T: OnceLock<([u32; 8], [u32; 64])> = OnceLock::new();
    T.get_or_init(|| {
        let pr = primes(64);
        let mut h = [0; 8];
        let mut k = [0; 64];
        for i in 0..8 {
            h[i] = frac_root(pr[i], 2);
        }
        for i in 0..64 {
            k[i] = frac_root(pr[i], 3);
        }
        (h, k)
    })
}

impl Sha {
    pub fn new() -> Sha {
        let t = tables();
        Sha { h: t.0, buf: Vec::new(), len: 0, k: t.1 }
    }
    pub fn state(&self) -> [u32; 8] {
        self.h
    }
    fn block(&mut self, b: &[u8]) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = self.h;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(self.k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            self.h[i] = self.h[i].wrapping_add(v[i]);
        }
    }
    pub fn update(&mut self, mut d: &[u8]) {
        self.len += d.len() as u64;
        if !self.buf.is_empty() {
            let n = d.len().min(64 - self.buf.len());
            self.buf.extend_from_slice(&d[..n]);
            d = &d[n..];
            if self.buf.len() == 64 {
                let b = std::mem::take(&mut self.buf);
                self.block(&b);
            }
        }
        while d.len() >= 64 {
            self.block(&d[..64]);
            d = &d[64..];
        }
        self.buf.extend_from_slice(d);
    }
    pub fn digest(mut self) -> Vec<u8> {
        let bits = self.len * 8;
        let mut tail = std::mem::take(&mut self.buf);
        tail.push(0x80);
        while tail.len() % 64 != 56 {
            tail.push(0);
        }
        tail.extend_from_slice(&bits.to_be_bytes());
        for c in tail.chunks(64) {
            self.block(c);
        }
        self.h.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
}

pub fn sha256(d: &[u8]) -> Vec<u8> {
    let mut s = Sha::new();
    s.update(d);
    s.digest()
}

fn hmac_key(key: &[u8]) -> [u8; 64] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(key));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    k
}

pub fn hmac(key: &[u8], msgs: &[&[u8]]) -> Vec<u8> {
    let k = hmac_key(key);
    let mut i = Sha::new();
    i.update(&k.map(|b| b ^ 0x36));
    for m in msgs {
        i.update(m);
    }
    let mut o = Sha::new();
    o.update(&k.map(|b| b ^ 0x5c));
    o.update(&i.digest());
    o.digest()
}

pub fn pbkdf2_block(p: &[u8], s: &[u8], c: usize, n: u32) -> Vec<u8> {
    let mut u = hmac(p, &[s, &n.to_be_bytes()]);
    let mut t = u.clone();
    for _ in 1..c {
        u = hmac(p, &[&u]);
        for (a, b) in t.iter_mut().zip(&u) {
            *a ^= b;
        }
    }
    t
}

pub fn pbkdf2(p: &[u8], s: &[u8], c: usize, len: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(len + 32);
    let mut n = 1u32;
    while out.len() < len {
        out.extend_from_slice(&pbkdf2_block(p, s, c, n));
        n = n.wrapping_add(1);
    }
    out.truncate(len);
    out
}

pub fn salsa_block(b: &[u8], double_rounds: usize) -> Vec<u8> {
    let x: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let mut z = x.clone();
    let qr = |z: &mut Vec<u32>, a: usize, b: usize, c: usize, d: usize| {
        z[b] ^= z[a].wrapping_add(z[d]).rotate_left(7);
        z[c] ^= z[b].wrapping_add(z[a]).rotate_left(9);
        z[d] ^= z[c].wrapping_add(z[b]).rotate_left(13);
        z[a] ^= z[d].wrapping_add(z[c]).rotate_left(18);
    };
    for _ in 0..double_rounds {
        qr(&mut z, 0, 4, 8, 12);
        qr(&mut z, 5, 9, 13, 1);
        qr(&mut z, 10, 14, 2, 6);
        qr(&mut z, 15, 3, 7, 11);
        qr(&mut z, 0, 1, 2, 3);
        qr(&mut z, 5, 6, 7, 4);
        qr(&mut z, 10, 11, 8, 9);
        qr(&mut z, 15, 12, 13, 14);
    }
    z.iter().zip(&x).flat_map(|(a, b)| a.wrapping_add(*b).to_le_bytes()).collect()
}

/// the input words for which the state after k (single) rounds is z
pub fn salsa_back(z: &[u32; 16], k: usize) -> [u32; 16] {
    let mut z = *z;
    let rq = |z: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize| {
        z[a] ^= z[d].wrapping_add(z[c]).rotate_left(18);
        z[d] ^= z[c].wrapping_add(z[b]).rotate_left(13);
        z[c] ^= z[b].wrapping_add(z[a]).rotate_left(9);
        z[b] ^= z[a].wrapping_add(z[d]).rotate_left(7);
    };
    for i in (0..k).rev() {
        if i % 2 == 1 {
            rq(&mut z, 0, 1, 2, 3);
            rq(&mut z, 5, 6, 7, 4);
            rq(&mut z, 10, 11, 8, 9);
            rq(&mut z, 15, 12, 13, 14);
        } else {
            rq(&mut z, 0, 4, 8, 12);
            rq(&mut z, 5, 9, 13, 1);
            rq(&mut z, 10, 14, 2, 6);
            rq(&mut z, 15, 3, 7, 11);
        }
    }
    z
}

pub fn sha_k(t: usize) -> u32 {
    tables().1[t]
}

pub fn salsa(input: &[u8], double_rounds: usize) -> Vec<u8> {
    input.chunks(64).flat_map(|b| salsa_block(b, double_rounds)).collect()
}

fn block_mix(b: &[u8]) -> Vec<u8> {
    let n = b.len() / 64;
    let mut x = b[b.len() - 64..].to_vec();
    let mut out = vec![0u8; b.len()];
    for i in 0..n {
        for j in 0..64 {
            x[j] ^= b[i * 64 + j];
        }
        x = salsa_block(&x, 4);
        let pos = if i % 2 == 0 { i / 2 } else { n / 2 + i / 2 };
        out[pos * 64..pos * 64 + 64].copy_from_slice(&x);
    }
    out
}

pub fn scrypt(r: usize, n: usize, p: usize, pw: &[u8], salt: &[u8], len: usize) -> Vec<u8> {
    let mut b = pbkdf2(pw, salt, 1, p * 128 * r);
    for ch in b.chunks_mut(128 * r) {
        let mut x = ch.to_vec();
        let mut v = Vec::with_capacity(n * 128 * r);
        for _ in 0..n {
            v.extend_from_slice(&x);
            x = block_mix(&x);
        }
        for _ in 0..n {
            let t = x.len() - 64;
            let mut w = [0u8; 8];
            w.copy_from_slice(&x[t..t + 8]);
            let j = (u64::from_le_bytes(w) % (n as u64)) as usize;
            for (a, c) in x.iter_mut().zip(&v[j * 128 * r..]) {
                *a ^= c;
            }
            x = block_mix(&x);
        }
        ch.copy_from_slice(&x);
    }
    pbkdf2(pw, &b, 1, len)
}

// --- AES -----------------------------------------------------------------

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}

fn mixc(s: &[u8; 16], u: &mut [u8; 16], m: [u8; 4]) {
    for c in 0..4 {
        for row in 0..4 {
            u[4 * c + row] = (0..4).fold(0, |a, k| a ^ gmul(s[4 * c + (row + k) % 4], m[k]));
        }
    }
}

struct AesTab {
    s: [u8; 256],
    si: [u8; 256],
    m: [[u8; 256]; 16],
}

fn aes_tab() -> &'static AesTab {
    static T: OnceLock<AesTab> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = AesTab { s: [0; 256], si: [0; 256], m: [[0; 256]; 16] };
        for x in 0..=255u8 {
            let inv = (0..=255u8).find(|&y| gmul(x, y) == 1).unwrap_or(0);
            let y = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
            t.s[x as usize] = y;
            t.si[y as usize] = x;
            for k in 0..16 {
                t.m[k][x as usize] = gmul(x, k as u8);
            }
        }
        t
    })
}

pub struct Aes {
    rk: Vec<[u8; 16]>,
}

/// what is added to w[i - nk] to make w[i]
pub fn aes_key_f(x: u32, i: usize, nk: usize) -> u32 {
    let t = aes_tab();
    let sub = |x: u32| u32::from_be_bytes(x.to_be_bytes().map(|b| t.s[b as usize]));
    if i % nk == 0 {
        let mut rc = 1u8;
        for _ in 1..i / nk {
            rc = gmul(rc, 2);
        }
        sub(x.rotate_left(8)) ^ ((rc as u32) << 24)
    } else if nk == 8 && i % 8 == 4 {
        sub(x)
    } else {
        x
    }
}

impl Aes {
    pub fn rounds(&self) -> usize {
        self.rk.len() - 1
    }
    // one forward step: 0 AddRoundKey, 1 SubBytes, 2 ShiftRows, 3 MixColumns
    fn step(&self, s: &[u8; 16], round: usize, stage: usize) -> [u8; 16] {
        let t = aes_tab();
        let mut u = *s;
        match stage {
            0 => (0..16).for_each(|i| u[i] ^= self.rk[round][i]),
            1 => (0..16).for_each(|i| u[i] = t.s[s[i] as usize]),
            2 => (0..16).for_each(|i| u[i] = s[(i + 4 * (i % 4)) % 16]),
            _ if round < self.rounds() => mixc(s, &mut u, [2, 3, 1, 1]),
            _ => {}
        }
        u
    }
    fn unstep(&self, s: &[u8; 16], round: usize, stage: usize) -> [u8; 16] {
        let t = aes_tab();
        let mut u = *s;
        match stage {
            0 => (0..16).for_each(|i| u[i] ^= self.rk[round][i]),
            1 => (0..16).for_each(|i| u[i] = t.si[s[i] as usize]),
            2 => (0..16).for_each(|i| u[(i + 4 * (i % 4)) % 16] = s[i]),
            _ if round < self.rounds() => mixc(s, &mut u, [14, 11, 13, 9]),
            _ => {}
        }
        u
    }
    // the steps of the cipher in order: (0, ARK), then per round 1..=nr: Sub, Shift, Mix, ARK
    fn plan(&self) -> Vec<(usize, usize)> {
        let mut v = vec![(0, 0)];
        for r in 1..=self.rounds() {
            v.extend([(r, 1), (r, 2), (r, 3), (r, 0)]);
        }
        v
    }
    fn place(&self, round: usize, stage: usize) -> usize {
        // the state after this many steps is the chosen one
        (4 * round + stage).min(4 * self.rounds() + 1)
    }
    /// the plaintext that has state s after 4 * round + stage steps
    pub fn back(&self, s: &[u8; 16], round: usize, stage: usize) -> [u8; 16] {
        let p = self.plan();
        let mut s = *s;
        for (r, st) in p[..self.place(round, stage)].iter().rev() {
            s = self.unstep(&s, *r, *st);
        }
        s
    }
    pub fn forth(&self, s: &[u8; 16], round: usize, stage: usize) -> [u8; 16] {
        let p = self.plan();
        let mut s = *s;
        for (r, st) in p[self.place(round, stage)..].iter() {
            s = self.step(&s, *r, *st);
        }
        s
    }
    pub fn new(key: &[u8]) -> Option<Aes> {
        let t = aes_tab();
        let nk = key.len() / 4;
        if ![16, 24, 32].contains(&key.len()) {
            return None;
        }
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x = [t.s[x[1] as usize] ^ rc, t.s[x[2] as usize], t.s[x[3] as usize], t.s[x[0] as usize]];
                rc = gmul(rc, 2);
            } else if nk == 8 && i % 8 == 4 {
                x = x.map(|b| t.s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ x[0], p[1] ^ x[1], p[2] ^ x[2], p[3] ^ x[3]]);
        }
        let rk = w
            .chunks(4)
            .map(|c| {
                let mut k = [0; 16];
                for i in 0..16 {
                    k[i] = c[i / 4][i % 4];
                }
                k
            })
            .collect();
        Some(Aes { rk })
    }
    pub fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        let t = aes_tab();
        let nr = self.rk.len() - 1;
        let mut s = *b;
        for i in 0..16 {
            s[i] ^= self.rk[0][i];
        }
        for r in 1..=nr {
            let mut u = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    u[4 * c + row] = t.s[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != nr {
                for c in 0..4 {
                    let a = [u[4 * c], u[4 * c + 1], u[4 * c + 2], u[4 * c + 3]];
                    for row in 0..4 {
                        u[4 * c + row] = t.m[2][a[row] as usize]
                            ^ t.m[3][a[(row + 1) % 4] as usize]
                            ^ a[(row + 2) % 4]
                            ^ a[(row + 3) % 4];
                    }
                }
            }
            for i in 0..16 {
                s[i] = u[i] ^ self.rk[r][i];
            }
        }
        s
    }
    pub fn dec(&self, b: &[u8; 16]) -> [u8; 16] {
        let t = aes_tab();
        let nr = self.rk.len() - 1;
        let mut s = *b;
        for r in (1..=nr).rev() {
            for i in 0..16 {
                s[i] ^= self.rk[r][i];
            }
            if r != nr {
                for c in 0..4 {
                    let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                    for row in 0..4 {
                        s[4 * c + row] = t.m[14][a[row] as usize]
                            ^ t.m[11][a[(row + 1) % 4] as usize]
                            ^ t.m[13][a[(row + 2) % 4] as usize]
                            ^ t.m[9][a[(row + 3) % 4] as usize];
                    }
                }
            }
            let mut u = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    u[4 * ((c + row) % 4) + row] = t.si[s[4 * c + row] as usize];
                }
            }
            s = u;
        }
        for i in 0..16 {
            s[i] ^= self.rk[0][i];
        }
        s
    }
}

/// one CBC message with PKCS#7 padding
pub fn cbc(key: &[u8], iv: &[u8], m: &[u8]) -> Vec<u8> {
    let a = Aes::new(key).unwrap();
    let n = 16 - m.len() % 16;
    let mut m = m.to_vec();
    m.extend(vec![n as u8; n]);
    let mut v = [0u8; 16];
    v.copy_from_slice(iv);
    let mut o = Vec::new();
    for c in m.chunks(16) {
        let mut x = [0u8; 16];
        for j in 0..16 {
            x[j] = c[j] ^ v[j];
        }
        v = a.enc(&x);
        o.extend_from_slice(&v);
    }
    o
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Known answers (hashlib / FIPS 197 / RFC 7914).
pub fn selftest() -> Result<usize, String> {
    let mut n = 0;
    let mut t = |name: &str, got: String, want: &str| {
        n += 1;
        if got != want { Err(format!("reference self-test {}: {} != {}", name, got, want)) } else { Ok(()) }
    };
    t("sha-empty", hex(&sha256(b"")), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")?;
    t("sha-abc", hex(&sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    for l in [55usize, 56, 63, 64, 65, 119, 120, 1000] {
        let want = match l {
            55 => KAT[0], 56 => KAT[1], 63 => KAT[2], 64 => KAT[3], 65 => KAT[4], 119 => KAT[5], 120 => KAT[6], _ => KAT[7],
        };
        t("sha-len", hex(&sha256(&(0..l).map(|i| i as u8).collect::<Vec<_>>())), want)?;
    }
    for (i, l) in [0usize, 1, 63, 64, 65, 200].iter().enumerate() {
        t("hmac", hex(&hmac(&vec![0xaa; *l], &[b"hi ", b"there"])), HKAT[i])?;
    }
    t("pbkdf2", hex(&pbkdf2(b"password", b"NaCl", 1000, 77)), PKAT)?;
    t("scrypt1", hex(&scrypt(8, 1024, 16, b"password", b"NaCl", 64)), SKAT[0])?;
    t("scrypt2", hex(&scrypt(3, 16, 5, b"pw", b"", 45)), SKAT[1])?;
    let pt = unhex("00112233445566778899aabbccddeeff");
    let mut b = [0u8; 16];
    b.copy_from_slice(&pt);
    for (kl, want) in [(16, "69c4e0d86a7b0430d8cdb78070b4c55a"), (24, "dda97ca4864cdfe06eaf70a0ec0d7191"), (32, "8ea2b7ca516745bfeafc49904b496089")] {
        let key: Vec<u8> = (0..kl).collect();
        let a = Aes::new(&key).unwrap();
        t("aes", hex(&a.enc(&b)), want)?;
        t("aes-dec", hex(&a.dec(&a.enc(&b))), "00112233445566778899aabbccddeeff")?;
    }
    // Salsa20 specification, section 8: core with 10 double rounds
    let inp: Vec<u8> = vec![
        211, 159, 13, 115, 76, 55, 82, 183, 3, 117, 222, 37, 191, 187, 234, 136, 49, 237, 179, 48, 1, 106, 178, 219, 175, 199, 166, 48, 86, 16, 179, 207, 31, 240, 32, 63, 15, 83, 93, 161,
        116, 147, 48, 113, 238, 55, 204, 36, 79, 201, 235, 79, 3, 81, 156, 47, 203, 26, 244, 243, 88, 118, 104, 54,
    ];
    let out: Vec<u8> = vec![
        109, 42, 178, 168, 156, 240, 248, 238, 168, 196, 190, 203, 26, 110, 170, 154, 29, 29, 150, 26, 150, 30, 235, 249, 190, 163, 251, 48, 69, 144, 51, 57, 118, 40, 152, 157, 180, 57, 27, 94,
        107, 42, 236, 35, 27, 111, 114, 114, 219, 236, 232, 135, 111, 155, 110, 18, 24, 232, 95, 158, 179, 19, 48, 202,
    ];
    t("salsa", hex(&salsa_block(&inp, 10)), &hex(&out))?;
    Ok(n)
}
const KAT: [&str; 8] = [
    "463eb28e72f82e0a96c0a4cc53690c571281131f672aa229e0d45ae59b598b59",
    "da2ae4d6b36748f2a318f23e7ab1dfdf45acdc9d049bd80e59de82a60895f562",
    "29af2686fd53374a36b0846694cc342177e428d1647515f078784d69cdb9e488",
    "fdeab9acf3710362bd2658cdc9a29e8f9c757fcf9811603a8c447cd1d9151108",
    "4bfd2c8b6f1eec7a2afeb48b934ee4b2694182027e6d0fc075074f2fabb31781",
    "da18797ed7c3a777f0847f429724a2d8cd5138e6ed2895c3fa1a6d39d18f7ec6",
    "f52b23db1fbb6ded89ef42a23ce0c8922c45f25c50b568a93bf1c075420bbb7c",
    "a8af099bf2e878609558dbf69d8f88f4a31040a8cf84b549a0cfa912f12ffc3f",
];
const HKAT: [&str; 6] = [
    "0d6c66668703c60ade3cb6cbd0089dd8ea8f5cb4efcec5179096697b730ff684",
    "0cc878c45a09a196b57327d025e5ffc0e30c27503974fdf3689bf524fc12a77c",
    "afd72ed2210efcbb48230d527fb8f10b5664b17879f7da0cfa7e018b653aa33c",
    "bb317a608b769007da327f6d7c656eee06f547e23cae670c364c20f511045334",
    "b2d9a1bc5254e4a7f1bf35066f073284ba8efa3a28d7a2838d8efc580692a4c8",
    "68bfe07f82faca1934edfae97b0e25b1ad0df6b1d092c18247c4254eafc4ae75",
];
const PKAT: &str = "67dbcc78548a75328f6890125bec2c59876e8de2e4c92c99b201872a760e2aec07f928a3644f76386289fbada724473dcb945051de19b134d930b52b358f51d3104de05e220e5f6f64a728a7ec";
const SKAT: [&str; 2] = [
    "fdbabe1c9d3472007856e7190d01e9fe7c6ad7cbc8237830e77376634b3731622eaf30d92e22a3886ff109279d9830dac727afb94a83ee6d8360cbdfa2cc0640",
    "fab2a19a36842da0aa7007f666bfed2625249e62f0ef877f580596d5daee32b89e157ab6e942652fa1f61108db",
];
