use crate::cases::{Case, Op, B};
use crate::{refimpl as rf, steer};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

/// Constants of the current source: `new` ones are not in the pinned baseline.
pub struct Dict {
    ints: Vec<u64>,
    new_ints: Vec<u64>,
    strs: Vec<Vec<u8>>,
}

impl Dict {
    pub fn load(path: &str) -> Dict {
        let mut d = Dict { ints: vec![], new_ints: vec![], strs: vec![] };
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            let t: Vec<&str> = l.split_whitespace().collect();
            match t.as_slice() {
                ["i", v] => d.ints.extend(v.parse::<u64>().ok()),
                ["n", v] => d.new_ints.extend(v.parse::<u64>().ok()),
                ["s", v] => d.strs.push(crate::refimpl::unhex(v)),
                _ => {}
            }
        }
        d
    }
    /// sizes worth trying, up to `max`
    fn sizes(&self, max: u64) -> Vec<usize> {
        let mut v: Vec<u64> = Vec::new();
        for (list, wide) in [(&self.new_ints, true), (&self.ints, false)] {
            for &x in list {
                v.push(x);
                for k in 1..=3u64 {
                    v.push(x.saturating_add(k));
                    v.push(x.saturating_sub(k));
                }
                if wide {
                    for m in [2u64, 3, 4, 8, 16, 32, 64, 128] {
                        for k in [-1i64, 0, 1] {
                            v.push(x.saturating_mul(m).saturating_add_signed(k));
                        }
                        v.push(x / m);
                    }
                }
            }
        }
        v.retain(|x| *x <= max);
        v.sort();
        v.dedup();
        v.into_iter().map(|x| x as usize).collect()
    }
}

pub struct Gen {
    prop: String,
    deep: bool,
    r: Rng,
    d: Dict,
}

const EDGE: [u8; 12] = [0, 1, 2, 0x10, 0x7f, 0x80, 0x81, 0x0f, 0xf0, 0xfe, 0xff, 0x36];
const BIG: [usize; 12] = [255, 256, 257, 511, 512, 1023, 1024, 4096, 65535, 65536, 65537, 131073];

impl Gen {
    pub fn new(prop: &str, deep: bool, seed: u64, d: Dict) -> Gen {
        Gen { prop: prop.into(), deep, r: Rng(seed), d }
    }

    /// bytes of exactly length n, from a mixture of shapes
    fn bytes(&mut self, n: usize) -> B {
        if n > 512 {
            return match self.r.below(3) {
                0 => B::Pat(n, vec![*self.r.clone().pick(&EDGE)]),
                _ => B::Gen(n, self.r.next() >> 1),
            };
        }
        let mode = self.r.below(12);
        let mut v: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
        match mode {
            0 => {
                let b = *self.r.clone().pick(&EDGE);
                v.iter_mut().for_each(|x| *x = b);
            }
            1 => {
                // bytes from the new constants of the source
                let pool: Vec<u8> = if self.d.new_ints.is_empty() { EDGE.to_vec() } else { self.d.new_ints.iter().map(|x| *x as u8).collect() };
                for x in v.iter_mut() {
                    if self.r.one_in(2) {
                        *x = *self.r.pick(&pool);
                    }
                }
            }
            2 => {
                for x in v.iter_mut() {
                    *x = *self.r.pick(&EDGE);
                }
            }
            3 => {
                // a repeated short pattern
                let k = 1 + self.r.below(16);
                for i in k..n {
                    v[i] = v[i - k];
                }
            }
            4 | 5 => {
                // constants planted at aligned or arbitrary places, both byte orders
                let all: Vec<u64> = if self.d.new_ints.is_empty() || self.r.one_in(3) { self.d.ints.clone() } else { self.d.new_ints.clone() };
                for _ in 0..1 + self.r.below(3) {
                    if all.is_empty() || n == 0 {
                        break;
                    }
                    let x = *self.r.pick(&all);
                    let w = *self.r.pick(&[1usize, 2, 4, 8]);
                    let b: Vec<u8> = if self.r.one_in(2) { x.to_le_bytes()[..w].to_vec() } else { x.to_be_bytes()[8 - w..].to_vec() };
                    let at = match self.r.below(4) {
                        0 => 0,
                        1 => n.saturating_sub(w),
                        _ => self.r.below(n),
                    };
                    for (i, y) in b.iter().enumerate() {
                        if at + i < n {
                            v[at + i] = *y;
                        }
                    }
                }
            }
            6 => {
                if !self.d.strs.is_empty() {
                    let s = self.r.pick(&self.d.strs).clone();
                    let at = if self.r.one_in(2) { 0 } else { self.r.below(n.max(1)) };
                    for (i, y) in s.iter().enumerate() {
                        if at + i < n {
                            v[at + i] = *y;
                        }
                    }
                }
            }
            10 => {
                // blocks that repeat the one before but for a byte or two
                let k = *self.r.pick(&[16usize, 64, 16, 64, 4, 8, 32]);
                for b in 1..(n + k - 1) / k.max(1) {
                    if self.r.one_in(4) {
                        continue;
                    }
                    for i in b * k..((b + 1) * k).min(n) {
                        v[i] = v[i - k];
                    }
                    for _ in 0..self.r.below(3) {
                        let i = b * k + self.r.below(k);
                        if i < n {
                            v[i] ^= 1 << self.r.below(8);
                        }
                    }
                }
            }
            11 => {
                // a run of one value at either end
                let (k, b) = (self.r.below(n + 1), *self.r.pick(&EDGE));
                if self.r.one_in(3) {
                    v[..k].iter_mut().for_each(|x| *x = b);
                } else {
                    v[n - k..].iter_mut().for_each(|x| *x = b);
                }
            }
            7 => {
                // ASCII
                v.iter_mut().for_each(|x| *x = 0x20 + *x % 95);
            }
            _ => {}
        }
        B::Hex(v)
    }

    fn size(&mut self, small: usize, max: usize) -> usize {
        match self.r.below(8) {
            0 => {
                let v = self.d.sizes(max as u64);
                if v.is_empty() {
                    self.r.below(small)
                } else {
                    *self.r.pick(&v)
                }
            }
            1 => {
                let v: Vec<usize> = BIG.iter().cloned().filter(|x| *x <= max).collect();
                if v.is_empty() { self.r.below(small) } else { *self.r.pick(&v) }
            }
            2 => 16 * self.r.below(small / 16 + 1),
            3 => 64 * self.r.below(small / 64 + 1),
            _ => self.r.below(small),
        }
    }

    fn any(&mut self, small: usize, max: usize) -> B {
        let n = self.size(small, max);
        self.bytes(n)
    }

    fn chunks(&mut self) -> Vec<B> {
        let k = self.r.below(9);
        let small = *self.r.clone().pick(&[2usize, 5, 20, 65, 130, 300]);
        self.r.next();
        let mut v: Vec<B> = (0..k).map(|_| self.any(small + 1, 300)).collect();
        if self.r.one_in(12) {
            let x = self.any(300, 140_000);
            v.push(x);
        }
        v
    }

    fn key(&mut self) -> B {
        let n = *self.r.pick(&[16usize, 24, 32]);
        self.bytes(n)
    }

    fn fill(&mut self) -> u8 {
        *self.r.pick(&[0u8, 0xa5, 0xff, 1])
    }

    fn pbk(&mut self, p: B, s: B, c: usize, len: usize) -> Case {
        let fill = self.fill();
        Case::Pbkdf2 { p, s, c, len, fill }
    }

    fn scr(&mut self, r: usize, n: usize, p: usize, len: usize) -> Case {
        let (a, b) = (self.r.below(80), self.r.below(80));
        let fill = self.fill();
        Case::Scrypt { r, n, p, pw: self.bytes(a), salt: self.bytes(b), len, fill }
    }

    fn cut_writes(&mut self, total: usize) -> Vec<Op> {
        let mut left = total;
        let mut v = Vec::new();
        let max = *self.r.pick(&[1usize, 4, 15, 16, 17, 32, 33, 70]);
        while left > 0 {
            let n = self.r.below(max + 1).min(left);
            v.push(Op::Write(self.bytes(n)));
            left -= n;
        }
        v
    }

    fn hist(&mut self, uninit: bool, badkeys: bool) -> Vec<Op> {
        let mut o = Vec::new();
        if !uninit {
            o.push(Op::Init(self.key()));
        }
        for _ in 0..1 + self.r.below(7) {
            match self.r.below(if badkeys { 8 } else { 6 }) {
                0 | 1 => o.push(Op::Flush),
                2..=5 => {
                    if self.r.one_in(3) {
                        let n = self.r.below(80);
                        let w = self.cut_writes(n);
                        o.extend(w);
                    } else {
                        let small = *self.r.pick(&[3usize, 17, 40, 100]);
                        o.push(Op::Write(self.any(small, 700)));
                    }
                }
                6 => o.push(Op::Init(self.key())),
                _ => o.push(Op::Init(self.any(40, 300))),
            }
        }
        o.push(Op::Flush);
        o
    }

    /// A valid decryption history: whole padded messages, cut anywhere.
    fn round(&mut self, max: usize) -> Case {
        let k = self.key();
        let iv = self.bytes(16);
        let n = 1 + self.r.below(4);
        let m = (0..n).map(|_| self.any(max, max)).collect();
        Case::Round(k, iv, m, self.r.next())
    }

    fn last_block(&mut self) -> Vec<u8> {
        if self.r.one_in(2) {
            let (n, mode) = (1 + self.r.below(16), self.r.below(10));
            return self.wrong_pad(n, mode);
        }
        let mut v: Vec<u8> = (0..16).map(|_| self.r.next() as u8).collect();
        let n = match self.r.below(8) {
            0 => 0,
            1 => 17 + self.r.below(239),
            2 => self.d.new_ints.get(self.r.below(self.d.new_ints.len().max(1))).map_or(1, |x| *x as usize & 255),
            _ => 1 + self.r.below(16),
        };
        let n16 = n.min(16);
        for i in 16 - n16..16 {
            v[i] = n as u8;
        }
        v[15] = n as u8;
        if n16 > 1 && self.r.one_in(2) {
            let i = 16 - n16 + self.r.below(n16 - 1);
            v[i] ^= 1 << self.r.below(8);
        }
        if n16 < 16 && self.r.one_in(3) {
            v[15 - n16] = n as u8; // one more byte that looks like padding
        }
        v
    }

    /// A last block that ends in n but is wrong somewhere in its padding (n = 1: always valid).
    fn wrong_pad(&mut self, n: usize, mode: usize) -> Vec<u8> {
        let mut v: Vec<u8> = (0..16).map(|_| self.r.next() as u8).collect();
        let at = 16 - n;
        for i in at..16 {
            v[i] = n as u8;
        }
        if n < 2 {
            return v;
        }
        let m = n - 1; // the last byte stays
        match mode {
            0 => v[at + self.r.below(m)] ^= 1 + self.r.below(255) as u8,
            1 => {
                // only the last k bytes are right
                let k = 1 + self.r.below(m);
                for i in at..16 - k {
                    v[i] = self.r.next() as u8;
                }
            }
            2 => {
                // only the first k bytes are right
                let k = self.r.below(m);
                for i in at + k..15 {
                    v[i] = self.r.next() as u8;
                }
            }
            3 => {
                // the differences cancel under exclusive or
                let d = 1 + self.r.below(255) as u8;
                let (i, j) = (self.r.below(m), self.r.below(m));
                v[at + i] ^= d;
                v[at + j] ^= d;
            }
            4 => {
                // the differences (taken with exclusive or) add up to 0 mod 256
                let k = 2 + self.r.below(m);
                let mut sum = 0u8;
                for x in 0..k {
                    let i = at + self.r.below(m);
                    let d = if x + 1 == k { 0u8.wrapping_sub(sum) } else { [1u8 << self.r.below(8), self.r.next() as u8][self.r.below(2)] };
                    if v[i] == n as u8 {
                        sum = sum.wrapping_add(d);
                        v[i] ^= d;
                    }
                }
            }
            5 => {
                // the bytes add up to what they should
                let (i, j) = (self.r.below(m), self.r.below(m));
                let d = 1 + self.r.below(255) as u8;
                v[at + i] = v[at + i].wrapping_add(d);
                v[at + j] = v[at + j].wrapping_sub(d);
            }
            6 => {
                // one wrong value all over
                let x = self.r.next() as u8;
                for i in at..15 {
                    v[i] = x;
                }
            }
            7 => {
                // right in some bits
                let mask = self.r.next() as u8 & self.r.next() as u8;
                for i in at..15 {
                    v[i] ^= mask & self.r.next() as u8;
                }
            }
            8 => {
                // right at every second, third, ... byte
                let s = 2 + self.r.below(4);
                let o = self.r.below(s);
                for i in at..15 {
                    if i % s != o {
                        v[i] = self.r.next() as u8;
                    }
                }
            }
            _ => {
                // counting down or up, as other padding schemes do
                for i in at..15 {
                    v[i] = [0, (i - at + 1) as u8, (16 - i) as u8][self.r.clone().below(3)];
                }
                self.r.next();
            }
        }
        v
    }

    fn dec_plain(&mut self, plain: Vec<u8>, extra: usize) -> Case {
        let key = self.key();
        let iv = self.bytes(16);
        let extra = self.bytes(extra);
        Case::DecPlain { key, iv, plain: B::Hex(plain), extra, cut: self.r.next() }
    }

    /// Several messages through one decipher, each ending in a valid or broken last block.
    fn dec_msgs(&mut self) -> Case {
        let key = self.key();
        let iv = self.bytes(16);
        let a = crate::refimpl::Aes::new(&key.get()).unwrap();
        let mut v = iv.get();
        let mut ops = vec![Op::Init(key)];
        for _ in 0..1 + self.r.below(4) {
            let n = 16 * self.r.below(4);
            let mut b: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
            let mut l = self.last_block();
            if self.r.one_in(2) {
                let k = 1 + self.r.below(16);
                for x in l[16 - k..].iter_mut() {
                    *x = k as u8;
                }
            }
            b.extend(l);
            let mut ct = Vec::new();
            for ch in b.chunks(16) {
                let mut x = [0u8; 16];
                for j in 0..16 {
                    x[j] = ch[j] ^ v[j];
                }
                v = a.enc(&x).to_vec();
                ct.extend_from_slice(&v);
            }
            if self.r.one_in(6) {
                let n = self.r.below(16);
                ct.extend(self.bytes(n).get());
            }
            let mut i = 0;
            let max = *self.r.pick(&[1usize, 15, 16, 17, 40, 100]);
            while i < ct.len() {
                let n = self.r.below(max + 1).min(ct.len() - i);
                ops.push(Op::Write(B::Hex(ct[i..i + n].to_vec())));
                i += n;
            }
            ops.push(Op::Flush);
            if self.r.one_in(4) {
                ops.push(Op::Flush);
            }
        }
        Case::Dec(iv, ops)
    }

    /// A block cipher case with a structured state inside the rounds or the key schedule.
    /// a few keys in a row, some nearly equal, with blocks in between, some of them seen before
    fn aes_hist(&mut self, n: usize) -> Case {
        let mut last = self.key().get();
        let mut o = vec![Op::Init(B::Hex(last.clone()))];
        let mut bs: Vec<B> = vec![];
        for _ in 0..2 + n % 5 {
            if self.r.one_in(2) {
                last = if self.r.one_in(3) { self.key().get() } else { self.related(last) };
                o.push(Op::Init(B::Hex(last.clone())));
                if !matches!(last.len(), 16 | 24 | 32) {
                    o.pop();
                }
            }
            let b = if bs.is_empty() || self.r.one_in(2) { self.bytes(16) } else { self.r.pick(&bs).clone() };
            bs.push(b.clone());
            o.push(if self.r.one_in(3) { Op::Dec(b) } else { Op::Enc(b) });
        }
        Case::AesHist(o)
    }
    fn steered_aes(&mut self) -> Case {
        let nk = *self.r.pick(&[4usize, 6, 8]);
        let d = &self.d.new_ints;
        let k = if self.r.one_in(3) { (0..4 * nk).map(|_| self.r.next() as u8).collect() } else { steer::aes_key(&mut self.r, nk, d) };
        let a = rf::Aes::new(&k).unwrap();
        let (p, c) = steer::aes_block(&mut self.r, &a, d);
        Case::AesBlk(B::Hex(k), B::Hex(if self.r.one_in(2) { p.to_vec() } else { c.to_vec() }))
    }

    /// A message whose compressions, going on from h, pass through a structured state.
    fn steered_sha(&mut self, mut h: rf::Sha) -> Vec<u8> {
        let d = &self.d.new_ints;
        let mut m = Vec::new();
        for _ in 0..self.r.below(3) {
            let b: Vec<u8> = (0..64).map(|_| self.r.next() as u8).collect();
            h.update(&b);
            m.extend(b);
        }
        for _ in 0..1 + self.r.below(2) {
            let b = steer::sha_block(&mut self.r, &h.state(), d);
            h.update(&b);
            m.extend(b);
        }
        m.extend((0..self.r.below(70)).map(|_| self.r.next() as u8).collect::<Vec<u8>>());
        m
    }

    fn steered_hmac(&mut self) -> (Vec<u8>, Vec<u8>) {
        let n = self.r.below(65);
        let mut k: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
        if self.r.one_in(3) {
            // steer the key block itself
            let x = if self.r.one_in(2) { 0x36 } else { 0x5c };
            let b = steer::sha_block(&mut self.r, &rf::Sha::new().state(), &self.d.new_ints);
            k = b.iter().map(|y| y ^ x).collect();
        }
        let mut pad = k.clone();
        pad.resize(64, 0);
        pad.iter_mut().for_each(|x| *x ^= 0x36);
        let mut h = rf::Sha::new();
        h.update(&pad);
        let m = self.steered_sha(h);
        (k, m)
    }

    /// A message in which CBC encryption under (key, iv) meets a structured state in its first blocks.
    fn steered_cbc(&mut self) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
        let nk = *self.r.pick(&[4usize, 6, 8]);
        let k = steer::aes_key(&mut self.r, nk, &self.d.new_ints);
        let a = rf::Aes::new(&k).unwrap();
        let iv: Vec<u8> = (0..16).map(|_| self.r.next() as u8).collect();
        let (mut v, mut m) = (iv.clone(), Vec::new());
        for _ in 0..1 + self.r.below(4) {
            let (p, c) = steer::aes_block(&mut self.r, &a, &self.d.new_ints);
            m.extend(p.iter().zip(&v).map(|(x, y)| x ^ y));
            v = c.to_vec();
            if self.r.one_in(3) {
                // the cipher's input again, or nearly so
                let mut q = p;
                if !self.r.one_in(3) {
                    q[self.r.below(16)] ^= 1 << self.r.below(8);
                }
                m.extend(q.iter().zip(&v).map(|(x, y)| x ^ y));
                v = a.enc(&q).to_vec();
            }
        }
        m.extend((0..self.r.below(20)).map(|_| self.r.next() as u8).collect::<Vec<u8>>());
        (k, iv, m)
    }

    /// a key that has much in common with `k`
    fn related(&mut self, mut k: Vec<u8>) -> Vec<u8> {
        let n = k.len();
        let (i, j) = (self.r.below(n.max(1)), self.r.below(n.max(1)));
        let d = 1 + self.r.below(255) as u8;
        match self.r.below(12) {
            _ if n < 16 => k.resize(16, d),
            0 => k.truncate(16),
            1 => k.resize(32, 0),
            2 => k.resize(24, 7),
            3 => k.reverse(),
            4 => k.rotate_left(i),
            5 => k.swap(i, j),
            6 => {
                // two words exchanged
                for x in 0..4 {
                    k.swap(i / 4 * 4 + x, j / 4 * 4 + x);
                }
            }
            7 => {
                k[i] ^= d;
                k[j] ^= d;
            }
            8 => {
                k[i] = k[i].wrapping_add(d);
                k[j] = k[j].wrapping_sub(d);
            }
            9 => {
                let j = i % 4 + 4 * (j / 4);
                k[i] ^= d;
                k[j] ^= d;
            }
            10 => k.iter_mut().for_each(|x| *x = !*x),
            _ => k[i] ^= 1 << self.r.below(8),
        }
        k
    }

    fn cut(&mut self, m: Vec<u8>) -> Vec<B> {
        if self.r.one_in(2) {
            return vec![B::Hex(m)];
        }
        let mut v = Vec::new();
        let max = *self.r.pick(&[7usize, 64, 65, 130]);
        let mut i = 0;
        while i < m.len() {
            let n = (1 + self.r.below(max)).min(m.len() - i);
            v.push(B::Hex(m[i..i + n].to_vec()));
            i += n;
        }
        v
    }

    pub fn systematic(&mut self) -> Vec<Case> {
        let mut v: Vec<Case> = Vec::new();
        let p = self.prop.clone();
        let deep = self.deep;
        let sz = |g: &Gen, m: u64| -> Vec<usize> {
            let mut v = g.d.sizes(m);
            v.extend(BIG.iter().cloned().filter(|x| *x as u64 <= m));
            v
        };
        let all14 = p == "C14";
        if p == "C01" || p == "C02" || all14 {
            for n in 0..if all14 { 200 } else { 520 } {
                if p != "C02" {
                    v.push(Case::Sha(vec![self.bytes(n)]));
                    v.push(Case::Sha(vec![B::Pat(n, vec![0xff])]));
                } else {
                    for cut in 0..=2 {
                        let a = if cut == 0 { n / 2 } else if cut == 1 { 1.min(n) } else { n.saturating_sub(1) };
                        v.push(Case::Sha(vec![self.bytes(a), self.bytes(n - a)]));
                        v.push(Case::Hmac(self.bytes(20), vec![self.bytes(a), self.bytes(0), self.bytes(n - a)]));
                    }
                }
            }
            // two chunks at every alignment
            if !all14 {
                for a in (0..=130).step_by(if p == "C02" { 1 } else { 5 }) {
                    for b in [0usize, 1, 7, 8, 9, 31, 32, 55, 56, 57, 63, 64, 65, 100, 119, 120, 127, 128, 129] {
                        v.push(Case::Sha(vec![self.bytes(a), self.bytes(b)]));
                        if b > 60 {
                            v.push(Case::Sha(vec![self.bytes(a), self.bytes(b), self.bytes(0), self.bytes(a)]));
                        }
                    }
                }
            }
            for n in sz(self, 1 << 20) {
                let c = vec![self.bytes(n)];
                v.push(Case::Sha(c));
                let c = vec![self.bytes(3), self.bytes(n)];
                v.push(Case::Sha(c));
            }
            if p != "C14" {
                v.push(Case::Sha(vec![B::Pat(3, vec![7]); 5000]));
                v.push(Case::Sha(vec![B::Pat(1, vec![7]); 70000]));
                // bit counts past 2^24, 2^31 and 2^32
                for n in [(1usize << 21) + 1, (1 << 24) + 5] {
                    v.push(Case::Sha(vec![B::Pat(n, vec![0x61])]));
                }
            }
            if deep {
                for n in sz(self, 1 << 27) {
                    if n > 1 << 20 {
                        v.push(Case::Sha(vec![B::Pat(n, vec![0]), B::Pat(3, vec![1])]));
                    }
                }
                v.push(Case::Sha(vec![B::Pat(64 << 20, vec![0]); 5]));
                v.push(Case::Sha(vec![B::Pat((1 << 29) + 7, vec![0])]));
                v.push(Case::Sha(vec![B::Pat(5, vec![0]), B::Pat(1 << 29, vec![0])]));
                if p == "C01" {
                    v.push(Case::Sha(vec![B::Pat((1 << 32) + 5, vec![0])]));
                } else if p == "C02" {
                    v.push(Case::Sha(vec![B::Pat(1 << 31, vec![0]), B::Pat((1 << 31) + 9, vec![0])]));
                }
            }
        }
        if p == "C03" || p == "C02" || all14 {
            for n in 0..if p == "C03" { 300 } else { 100 } {
                v.push(Case::Hmac(self.bytes(n), vec![self.bytes(n / 3)]));
                if p == "C03" {
                    v.push(Case::Hmac(B::Pat(n, vec![0xaa]), vec![self.bytes(17), self.bytes(n)]));
                    v.push(Case::Hmac(self.bytes(32), vec![self.bytes(n)]));
                    v.push(Case::Hmac(B::Pat(n, vec![0]), vec![]));
                }
            }
            for n in sz(self, 1 << 18) {
                v.push(Case::Hmac(self.bytes(n), vec![self.bytes(5)]));
                v.push(Case::Hmac(self.bytes(11), vec![self.bytes(n)]));
            }
            if deep && p == "C03" {
                v.push(Case::Hmac(B::Pat(5, vec![1]), vec![B::Pat((1 << 29) + 7, vec![0])]));
                v.push(Case::Hmac(B::Pat((1 << 29) + 7, vec![0]), vec![B::Pat(3, vec![1])]));
            }
        }
        if p == "C04" || all14 {
            for n in 0..if all14 { 70 } else { 300 } {
                let (a, b) = (self.bytes(n % 70), self.bytes(n % 90));
                v.push(self.pbk(a, b, 1 + n % 3, n));
            }
            for n in 0..200 {
                let (a, b) = (self.bytes(n), self.bytes(8));
                v.push(self.pbk(a, b, 2, 40));
                let (a, b) = (self.bytes(8), self.bytes(n));
                v.push(self.pbk(a, b, 2, 40));
                let (a, b) = (self.bytes(8), self.bytes(9));
                v.push(self.pbk(a, b, if all14 { n } else { n + 1 }, 33));
            }
            for n in sz(self, if deep { 300_000 } else { 70_000 }) {
                let (a, b) = (self.bytes(8), self.bytes(9));
                v.push(self.pbk(a, b, n.max(1), 20));
                let (a, b) = (self.bytes(n.min(100_000)), self.bytes(9));
                v.push(self.pbk(a, b, 2, 20));
                let (a, b) = (self.bytes(7), self.bytes(n.min(100_000)));
                v.push(self.pbk(a, b, 2, 20));
            }
            for n in sz(self, if deep { 1 << 23 } else { 1 << 18 }) {
                let (a, b) = (self.bytes(7), self.bytes(8));
                v.push(self.pbk(a, b, 1, n));
            }
            for blocks in [255usize, 256, 257, 300, 511, 513, 65535, 65536, 65537] {
                let (a, b) = (self.bytes(7), self.bytes(8));
                v.push(self.pbk(a, b, 1, blocks * 32 + 5));
            }
            if deep && !all14 {
                let (a, b) = (self.bytes(7), self.bytes(8));
                v.push(self.pbk(a, b, 1, (1 << 29) + 77));
                let (a, b) = (self.bytes(7), self.bytes(8));
                v.push(self.pbk(a, b, 1 << 22, 33));
            }
        }
        if p == "C05" || all14 {
            for r in 0..40 {
                for blocks in [1usize, 2, 3, 5] {
                    let input = self.bytes(64 * blocks);
                    let fill = self.fill();
                    v.push(Case::Salsa { input, rounds: r, fill });
                }
                for pat in EDGE {
                    v.push(Case::Salsa { input: B::Pat(64, vec![pat]), rounds: r, fill: 0 });
                }
            }
            for bit in 0..512 {
                let mut b = vec![0u8; 64];
                b[bit / 8] = 1 << (bit % 8);
                v.push(Case::Salsa { input: B::Hex(b.clone()), rounds: 1, fill: 9 });
                v.push(Case::Salsa { input: B::Hex(b.iter().map(|x| !x).collect()), rounds: 4, fill: 9 });
            }
            for n in sz(self, if deep { 1 << 22 } else { 1 << 17 }) {
                let input = self.bytes(64);
                v.push(Case::Salsa { input, rounds: n, fill: 1 });
            }
            for n in sz(self, 5000) {
                let input = self.bytes(64 * n);
                v.push(Case::Salsa { input, rounds: 2, fill: 1 });
            }
            v.push(Case::Salsa { input: B::Hex(vec![]), rounds: 2, fill: 1 });
            v.push(Case::Salsa { input: B::Pat(64 * 66000, vec![3, 5, 7]), rounds: 1, fill: 1 });
        }
        if p == "C06" || all14 {
            for r in 1..=9 {
                for k in 1..=6 {
                    for q in 1..=5 {
                        if r * (1 << k) * q <= 600 {
                            let len = 1 + self.r.below(140);
                            v.push(self.scr(r, 1 << k, q, len));
                        }
                    }
                }
            }
            for len in 0..140 {
                v.push(self.scr(1, 4, 1, len));
            }
            for k in 7..if all14 { 10 } else { 14 } {
                v.push(self.scr(1, 1 << k, 1, 40));
                v.push(self.scr(2, 1 << k, 2, 64));
            }
            v.push(self.scr(1, 1 << 15, 1, 64));
            v.push(self.scr(2, 1 << 16, 1, 64));
            for n in sz(self, 600) {
                v.push(self.scr(n.max(1), 2, 1, 33));
                v.push(self.scr(1, 2, n.max(1), 33));
                v.push(self.scr(1, 2, 1, n));
                if n.is_power_of_two() && n > 1 {
                    v.push(self.scr(3, n, 2, 33));
                }
            }
            for n in sz(self, 70_000) {
                let fill = self.fill();
                v.push(Case::Scrypt { r: 1, n: 4, p: 1, pw: self.bytes(n), salt: self.bytes(4), len: 20, fill });
                v.push(Case::Scrypt { r: 1, n: 4, p: 1, pw: self.bytes(4), salt: self.bytes(n), len: 20, fill });
                v.push(Case::Scrypt { r: 1, n: 4, p: 1, pw: self.bytes(4), salt: self.bytes(6), len: n, fill });
            }
            if deep && !all14 {
                v.push(self.scr(64, 1 << 10, 3, 64));
                v.push(self.scr(1, 16, 5000, 64));
                v.push(self.scr(4096, 4, 2, 64));
                v.push(self.scr(2, 1 << 18, 1, 64));
                v.push(self.scr(2, 1 << 21, 1, 64));
            }
        }
        if p == "C07" || all14 {
            let mut ns: Vec<usize> = (0..70).collect();
            for k in 6..64 {
                let b = 1usize << k;
                ns.extend_from_slice(&[b, b - 1, b.wrapping_add(1), b | b >> 1, b | b >> 5]);
            }
            ns.extend(self.d.sizes(u64::MAX));
            ns.push(usize::MAX);
            let mut rs = vec![0usize, 1, 2, 3, 7, 8, 16, 33];
            rs.extend(self.d.sizes(64));
            rs.sort();
            rs.dedup();
            let ps = [0usize, 1, 2, 3, 5];
            let mut late = Vec::new();
            for &n in &ns {
                for &r in &rs {
                    for &q in &ps {
                        let valid = r > 0 && q > 0 && n > 1 && n.is_power_of_two();
                        if valid && r.saturating_mul(q).saturating_mul(n) > 2000 {
                            continue;
                        }
                        if rs.len() > 12 && r > 8 && !self.r.one_in(6) {
                            continue;
                        }
                        let len = *self.r.pick(&[0usize, 1, 32, 33, 64, 70]);
                        let c = self.scr(r, n, q, len);
                        // parameters that a wrong check would let through come in
                        // the order of the memory they would take
                        if n.saturating_mul(r.max(1)) > 1 << 18 {
                            late.push((n.saturating_mul(r.max(1)), c));
                        } else {
                            v.push(c);
                        }
                    }
                }
            }
            for big in [usize::MAX, 1 << 63, 1 << 32, 1 << 40] {
                v.push(self.scr(0, big, big, 20));
                v.push(self.scr(0, 2, big, 20));
                v.push(self.scr(0, big, 0, 20));
                v.push(self.scr(1, 0, big, 20));
                v.push(self.scr(1, 1, big, 20));
                v.push(self.scr(big, 0, 1, 20));
                v.push(self.scr(big, 1, 1, 20));
                v.push(self.scr(big, 3, 1, 20));
                v.push(self.scr(big, 2, 0, 20));
                v.push(self.scr(1, 3, big, 20));
                v.push(self.scr(2, 1 << 63, 0, 20));
                for r in [2usize, 3, 1 << 31, 1 << 32, 1 << 57, 1 << 62, usize::MAX] {
                    for n in [0usize, 1, 3] {
                        v.push(self.scr(r, n, big, 20));
                    }
                }
            }
            late.sort_by_key(|x| x.0);
            v.extend(late.into_iter().map(|x| x.1));
            // valid, large, still affordable: none of them may be refused
            for n in sz(self, if deep { 70_000 } else { 5_000 }) {
                let n = n.max(1);
                v.push(self.scr(n, 2, 1, 33));
                v.push(self.scr(1, 2, n, 33));
            }
            for k in 11..=if deep { 20 } else { 16 } {
                v.push(self.scr(1, 1 << k, 1, 33));
            }
        }
        if p == "C08" || p == "C09" || all14 {
            for kl in [16usize, 24, 32] {
                for pat in 0..=255u8 {
                    v.push(Case::AesBlk(B::Pat(kl, vec![pat]), B::Pat(16, vec![pat])));
                    v.push(Case::AesBlk(B::Pat(kl, vec![0]), B::Pat(16, vec![pat])));
                    v.push(Case::AesBlk(B::Pat(kl, vec![pat]), B::Pat(16, vec![0])));
                }
                for bit in 0..kl * 8 {
                    let mut b = vec![0u8; kl];
                    b[bit / 8] = 1 << (bit % 8);
                    v.push(Case::AesBlk(B::Hex(b), self.bytes(16)));
                }
                for bit in 0..128 {
                    let mut b = vec![0u8; 16];
                    b[bit / 8] = 1 << (bit % 8);
                    v.push(Case::AesBlk(self.bytes(kl), B::Hex(b)));
                }
            }
        }
        if p == "C08" || p == "C09" {
            for _ in 0..if deep { 200_000 } else { 20_000 } {
                v.push(self.steered_aes());
            }
        }
        if p == "C10" || all14 {
            let block = B::Pat(16, vec![5]);
            let mut lens: Vec<usize> = (0..300).collect();
            lens.extend(sz(self, 1 << 17));
            for n in lens {
                let k = self.bytes(n);
                let g = self.key();
                v.push(Case::AesHist(vec![Op::Init(k.clone()), Op::Enc(block.clone()), Op::Dec(block.clone())]));
                v.push(Case::AesHist(vec![Op::Init(g.clone()), Op::Init(k.clone()), Op::Enc(block.clone()), Op::Dec(block.clone())]));
                v.push(Case::Enc(self.bytes(16), vec![Op::Init(g.clone()), Op::Init(k.clone()), Op::Write(self.bytes(20)), Op::Flush]));
                v.push(Case::Enc(self.bytes(16), vec![Op::Init(k.clone()), Op::Write(self.bytes(20)), Op::Flush]));
                v.push(Case::Enc(self.bytes(16), vec![Op::Init(k.clone()), Op::Flush]));
                v.push(Case::Dec(self.bytes(16), vec![Op::Init(g.clone()), Op::Init(k.clone()), Op::Write(self.bytes(48)), Op::Flush]));
                v.push(Case::Dec(self.bytes(16), vec![Op::Init(k.clone()), Op::Write(self.bytes(48)), Op::Flush]));
            }
            for n in 0..80 {
                v.push(Case::Enc(self.bytes(16), vec![Op::Write(self.bytes(n)), Op::Flush]));
                v.push(Case::Dec(self.bytes(16), vec![Op::Write(self.bytes(n)), Op::Flush]));
                v.push(Case::Enc(self.bytes(16), vec![Op::Write(self.bytes(n)), Op::Write(self.bytes(1))]));
                v.push(Case::Dec(self.bytes(16), vec![Op::Write(self.bytes(n)), Op::Write(self.bytes(1))]));
                let i = Op::Init(self.key());
                v.push(Case::Enc(self.bytes(16), vec![Op::Write(self.bytes(n % 16)), i.clone(), Op::Write(self.bytes(n)), Op::Flush]));
                v.push(Case::Dec(self.bytes(16), vec![Op::Write(self.bytes(n % 16)), i, Op::Write(self.bytes(n)), Op::Flush]));
            }
        }
        if p == "C11" || all14 {
            for n in 0..if all14 { 60 } else { 200 } {
                let i = Op::Init(self.key());
                v.push(Case::Enc(self.bytes(16), vec![i.clone(), Op::Write(self.bytes(n)), Op::Flush]));
                let w = self.bytes(n);
                let mut o = vec![i.clone()];
                o.extend(self.cut_writes(n));
                o.push(Op::Flush);
                o.extend(self.cut_writes(n / 2));
                o.push(Op::Flush);
                v.push(Case::Enc(w, o));
                v.push(Case::Enc(self.bytes(16), vec![i.clone(), Op::Write(self.bytes(n % 20)), Op::Write(self.bytes(n / 3)), Op::Flush, Op::Flush, Op::Write(self.bytes(n)), Op::Flush]));
            }
            if !all14 {
                for a in 0..=34 {
                    for b in 0..=34 {
                        let i = Op::Init(self.key());
                        v.push(Case::Enc(self.bytes(16), vec![i, Op::Write(self.bytes(a)), Op::Write(self.bytes(b)), Op::Flush]));
                    }
                }
                for n in sz(self, 1 << 18) {
                    let i = Op::Init(self.key());
                    v.push(Case::Enc(self.bytes(16), vec![i, Op::Write(self.bytes(n)), Op::Write(self.bytes(3)), Op::Flush, Op::Write(self.bytes(17)), Op::Flush]));
                }
                // every pending length before a write of up to 17 blocks
                for a in 0..16 {
                    for b in 35..=272 {
                        let i = Op::Init(self.key());
                        v.push(Case::Enc(self.bytes(16), vec![i, Op::Write(self.bytes(a)), Op::Write(self.bytes(b)), Op::Flush]));
                    }
                }
                // more than 2^16 blocks, in one write and in all
                for (a, b) in [(0usize, (1usize << 20) + 16), (5, (1 << 20) + 60), ((1 << 20) - 16, 40)] {
                    let i = Op::Init(self.key());
                    v.push(Case::Enc(self.bytes(16), vec![i, Op::Write(self.bytes(a)), Op::Write(self.bytes(b)), Op::Write(self.bytes(9)), Op::Flush]));
                }
                let i = Op::Init(self.key());
                let mut o = vec![i];
                for _ in 0..3000 {
                    o.push(Op::Write(B::Pat(7, vec![1, 2, 3])));
                    o.push(Op::Flush);
                }
                v.push(Case::Enc(self.bytes(16), o));
            }
        }
        if p == "C12" {
            for n in 0..200 {
                let (k, iv, m) = (self.key(), self.bytes(16), self.bytes(n));
                for cut in [0u64, 1, 2 + 8 * n as u64] {
                    v.push(Case::Round(k.clone(), iv.clone(), vec![m.clone()], cut));
                }
                let ms = vec![self.bytes(n % 33), self.bytes(0), self.bytes(n), self.bytes(16)];
                v.push(Case::Round(k.clone(), iv.clone(), ms, self.r.next()));
            }
            for n in sz(self, 1 << 18) {
                let (k, iv, m) = (self.key(), self.bytes(16), self.bytes(n));
                v.push(Case::Round(k.clone(), iv.clone(), vec![m.clone(), self.bytes(7)], 0));
                v.push(Case::Round(k, iv, vec![m], 5));
            }
            let (k, iv) = (self.key(), self.bytes(16));
            let ms: Vec<B> = (0..600).map(|i| B::Pat(i % 40, vec![9])).collect();
            v.push(Case::Round(k, iv, ms, 3));
        }
        if p == "C12" || all14 {
            for a in 0..=50 {
                for b in [0usize, 1, 15, 16, 17, 31, 32, 33, 48] {
                    let i = Op::Init(self.key());
                    v.push(Case::Dec(self.bytes(16), vec![i, Op::Write(self.bytes(a)), Op::Write(self.bytes(b)), Op::Write(self.bytes(16)), Op::Flush]));
                }
            }
        }
        if p == "C12" {
            for a in 0..16 {
                for b in 49..=272 {
                    let i = Op::Init(self.key());
                    v.push(Case::Dec(self.bytes(16), vec![i, Op::Write(self.bytes(a)), Op::Write(self.bytes(b)), Op::Write(self.bytes(16 + (64 - (a + b) % 16) % 16)), Op::Flush]));
                }
            }
            for (a, b) in [(0usize, (1usize << 20) + 16), (5, (1 << 20) + 60), ((1 << 20) - 16, 40)] {
                let i = Op::Init(self.key());
                v.push(Case::Dec(self.bytes(16), vec![i, Op::Write(self.bytes(a)), Op::Write(self.bytes(b)), Op::Write(self.bytes(16 + (64 - (a + b) % 16) % 16))]));
                let (k, iv, m) = (self.key(), self.bytes(16), self.bytes(a + b));
                v.push(Case::Round(k, iv, vec![m, self.bytes(7)], 0));
            }
        }
        if p == "C13" || p == "C12" || all14 {
            for n in 0..=255usize {
                for lead in [0usize, 16, 32] {
                    let mut b: Vec<u8> = (0..lead + 16).map(|_| self.r.next() as u8).collect();
                    let l = b.len();
                    for i in l - n.min(16).max(1)..l {
                        b[i] = n as u8;
                    }
                    v.push(self.dec_plain(b.clone(), 0));
                    if (2..=16).contains(&n) {
                        for k in 1..n {
                            for bit in [0u8, 3, 7] {
                                let mut c = b.clone();
                                c[l - 1 - k] ^= 1 << bit;
                                v.push(self.dec_plain(c, 0));
                            }
                        }
                    }
                }
            }
            if !all14 {
                for n in 1..=16 {
                    for mode in 0..10 {
                        for _ in 0..if p == "C13" { 40 } else { 8 } {
                            let mut b: Vec<u8> = (0..16 * self.r.below(3)).map(|_| self.r.next() as u8).collect();
                            b.extend(self.wrong_pad(n, mode));
                            v.push(self.dec_plain(b, 0));
                        }
                    }
                }
            }
            // finishing again, with nothing or next to nothing in between
            for n in (0..100).chain(sz(self, 1 << 14)) {
                let (k, iv, m) = (self.key(), self.bytes(16), self.bytes(n));
                let ct = rf::cbc(&k.get(), &iv.get(), &m.get());
                for cut in 0..4 {
                    let mut o = vec![Op::Init(k.clone())];
                    match cut {
                        0 => o.push(Op::Write(B::Hex(ct.clone()))),
                        1 => o.extend([Op::Write(B::Hex(ct[..1].to_vec())), Op::Write(B::Hex(ct[1..].to_vec()))]),
                        2 => {
                            let l = ct.len() - 16;
                            o.extend([Op::Write(B::Hex(ct[..l].to_vec())), Op::Write(B::Hex(ct[l..].to_vec()))]);
                        }
                        _ => o.extend(ct.chunks(15).map(|c| Op::Write(B::Hex(c.to_vec())))),
                    }
                    o.push(Op::Flush);
                    match (n + cut) % 4 {
                        0 => {}
                        1 => o.push(Op::Write(B::Hex(vec![]))),
                        2 => o.push(Op::Init(k.clone())),
                        _ => o.push(Op::Write(self.bytes(1 + n % 15))),
                    }
                    o.push(Op::Flush);
                    v.push(Case::Dec(iv.clone(), o));
                }
            }
            // finishing too early, or on a wrong padding, and going on
            for n in 0..70usize {
                let (k, iv, m) = (self.key(), self.bytes(16), self.bytes(n));
                let ct = rf::cbc(&k.get(), &iv.get(), &m.get());
                for a in [0usize, 1, 7, 15, 16, 17, 31, 32, 33] {
                    if a > ct.len() {
                        continue;
                    }
                    let mut o = vec![Op::Init(k.clone()), Op::Write(B::Hex(ct[..a].to_vec())), Op::Flush];
                    if (a + n) % 3 == 0 {
                        o.push(Op::Flush);
                    }
                    o.extend([Op::Write(B::Hex(ct[a..].to_vec())), Op::Flush, Op::Write(self.bytes(32)), Op::Flush]);
                    v.push(Case::Dec(iv.clone(), o));
                }
            }
            for a in 0..=80 {
                // every ciphertext length, with and without valid padding in the complete part
                let i = Op::Init(self.key());
                v.push(Case::Dec(self.bytes(16), vec![i, Op::Write(self.bytes(a)), Op::Flush]));
                for extra in 0..16 {
                    let mut b: Vec<u8> = (0..(a / 16 + 1) * 16).map(|_| self.r.next() as u8).collect();
                    let l = b.len();
                    let n = 1 + self.r.below(16);
                    for i in l - n..l {
                        b[i] = n as u8;
                    }
                    v.push(self.dec_plain(b, extra));
                }
            }
            for n in sz(self, 1 << 17) {
                let mut b = vec![3u8; (n / 16 + 1) * 16];
                let l = b.len();
                b[l - 4] = 9;
                let x = n % 16;
                v.push(self.dec_plain(b, x));
            }
        }
        // long histories of small calls
        let many = if deep { [300usize, 70_000] } else { [300usize, 3000] };
        for n in many {
            let small = n < 1000;
            match p.as_str() {
                "C02" => {
                    v.push(Case::Sha(vec![B::Pat(1, vec![7]); n]));
                    v.push(Case::Sha((0..n).map(|i| B::Pat(i % 3 * 31, vec![i as u8, 3])).collect()));
                    v.push(Case::Hmac(self.bytes(20), vec![B::Pat(1, vec![9]); n]));
                    v.push(Case::Hmac(self.bytes(70), (0..n).map(|i| B::Pat(i % 2, vec![i as u8])).collect()));
                }
                "C03" => v.push(Case::Hmac(self.bytes(20), vec![B::Pat(2, vec![9, 1]); n])),
                "C10" => {
                    let mut o = Vec::new();
                    for i in 0..n {
                        if i % 3 == 0 {
                            o.push(Op::Init(B::Pat([16, 24, 32, 17][i / 3 % 4], vec![i as u8, (i >> 8) as u8, 1])));
                        } else {
                            o.push(Op::Enc(B::Pat(16, vec![i as u8])));
                        }
                    }
                    o.push(Op::Enc(self.bytes(16)));
                    o.push(Op::Dec(self.bytes(16)));
                    v.push(Case::AesHist(o));
                    let k = self.key();
                    let mut o = vec![Op::Init(k)];
                    o.extend((0..n).map(|i| Op::Init(B::Pat(i % 15, vec![1]))));
                    o.push(Op::Enc(self.bytes(16)));
                    v.push(Case::AesHist(o));
                }
                "C11" => {
                    let mut o = vec![Op::Init(self.key())];
                    for i in 0..n {
                        o.push(Op::Write(B::Pat(if small { i % 35 } else { 1 }, vec![i as u8])));
                    }
                    o.push(Op::Flush);
                    v.push(Case::Enc(self.bytes(16), o));
                    let mut o = vec![Op::Init(self.key())];
                    o.extend(vec![Op::Flush; n]);
                    v.push(Case::Enc(self.bytes(16), o));
                }
                "C12" => {
                    let (k, iv) = (self.key(), self.bytes(16));
                    let ms: Vec<B> = (0..n).map(|i| B::Pat(if small { i % 50 } else { i % 2 }, vec![i as u8])).collect();
                    v.push(Case::Round(k.clone(), iv.clone(), ms, 0));
                    v.push(Case::Round(k, iv, vec![self.bytes(n)], 1));
                }
                "C13" => {
                    // failing finishes, many, and a good one at the end
                    let (k, iv, m) = (self.key(), self.bytes(16), self.bytes(40));
                    let ct = rf::cbc(&k.get(), &iv.get(), &m.get());
                    for at in [1usize, 16, 33] {
                        let mut o = vec![Op::Init(k.clone()), Op::Write(B::Hex(ct[..at].to_vec()))];
                        o.extend(vec![Op::Flush; n]);
                        o.extend([Op::Write(B::Hex(ct[at..].to_vec())), Op::Flush]);
                        v.push(Case::Dec(iv.clone(), o));
                    }
                    let ms: Vec<B> = (0..n).map(|i| B::Pat(i % 18, vec![i as u8])).collect();
                    v.push(Case::Round(k, iv, ms, 0));
                }
                _ => {}
            }
        }
        // ciphertext that repeats, or nearly
        if p == "C12" {
            for n in 0..if deep { 6000 } else { 600 } {
                let k = *self.r.pick(&[1usize, 2, 4]);
                let mut b: Vec<u8> = Vec::new();
                while b.len() < 16 * (3 + n % 6) {
                    let l = b.len();
                    if l < 16 * k || self.r.one_in(3) {
                        b.extend((0..16).map(|_| self.r.next() as u8));
                    } else {
                        b.extend_from_within(l - 16 * k..l - 16 * (k - 1));
                        if !self.r.one_in(4) {
                            b[l + self.r.below(16)] ^= 1 << self.r.below(8);
                        }
                    }
                }
                let iv = if n % 4 == 0 { B::Hex(b[..16].to_vec()) } else { self.bytes(16) };
                v.push(Case::Dec(iv, vec![Op::Init(self.key()), Op::Write(B::Hex(b))]));
            }
        }
        if p == "C08" || p == "C09" {
            for n in 0..if deep { 6000 } else { 1200 } {
                let c = self.aes_hist(n);
                v.push(c);
            }
            let o = (0..many[1]).map(|i| match i % 3 {
                0 => Op::Init(B::Pat([16, 24, 32][i / 3 % 3], vec![i as u8, (i >> 8) as u8, 1])),
                1 => Op::Enc(B::Pat(16, vec![i as u8])),
                _ => Op::Dec(B::Pat(16, vec![i as u8, 9])),
            });
            v.push(Case::AesHist(o.collect()));
            let mut o = vec![Op::Init(self.key())];
            o.extend((0..many[1]).map(|i| Op::Enc(B::Pat(16, vec![i as u8, (i >> 8) as u8]))));
            v.push(Case::AesHist(o));
        }
        if p == "C10" {
            for n in 0..if deep { 4000 } else { 800 } {
                let k = self.key();
                let k2 = self.related(k.get());
                let b = self.bytes(16);
                let mut o = vec![Op::Init(k), Op::Init(B::Hex(k2)), Op::Enc(b.clone()), Op::Dec(b)];
                if n % 2 == 0 {
                    o.insert(1, Op::Enc(self.bytes(16)));
                }
                v.push(Case::AesHist(o));
            }
        }
        if all14 {
            for n in 0..200 {
                v.push(Case::Misc(vec![self.bytes(n), self.bytes(n / 2), self.bytes(64)]));
            }
        }
        v
    }

    pub fn random(&mut self) -> Case {
        let p = self.prop.clone();
        let p = if p == "C14" { format!("C{:02}", *self.r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 10, 10, 11, 12, 13, 14])) } else { p };
        match p.as_str() {
            "C01" => {
                if self.r.one_in(3) {
                    return Case::Sha(vec![B::Hex(self.steered_sha(rf::Sha::new()))]);
                }
                if self.r.one_in(2) {
                    let x = self.any(300, 300_000);
                    Case::Sha(vec![x])
                } else {
                    Case::Sha(self.chunks())
                }
            }
            "C02" => {
                if self.r.one_in(6) {
                    let m = self.steered_sha(rf::Sha::new());
                    return Case::Sha(self.cut(m));
                }
                if self.r.one_in(2) {
                    let k = self.any(100, 300);
                    Case::Hmac(k, self.chunks())
                } else {
                    Case::Sha(self.chunks())
                }
            }
            "C03" => {
                if self.r.one_in(4) {
                    let (k, m) = self.steered_hmac();
                    return Case::Hmac(B::Hex(k), self.cut(m));
                }
                let k = self.any(140, 70_000);
                if self.r.one_in(6) {
                    return Case::Hmac(k.clone(), vec![k]);
                }
                Case::Hmac(k, self.chunks())
            }
            "C04" => {
                let a = self.any(140, 5000);
                let b = if self.r.one_in(10) { a.clone() } else { self.any(140, 5000) };
                let c = if self.r.one_in(40) { self.size(5000, 20_000).max(1) } else { 1 + self.r.below(12) };
                let len = if c > 100 { self.r.below(100) } else { self.size(200, 20_000) };
                self.pbk(a, b, c, len)
            }
            "C05" => {
                if self.r.one_in(3) {
                    let k = if self.r.one_in(2) { 4 } else { 1 + self.r.below(11) };
                    let n = if self.r.one_in(4) { 1 + self.r.below(4) } else { 1 };
                    let v = (0..n).flat_map(|_| steer::salsa_block(&mut self.r, k, &self.d.new_ints)).collect();
                    return Case::Salsa { input: B::Hex(v), rounds: k, fill: self.fill() };
                }
                let n = if self.r.one_in(4) { 1 + self.r.below(9) } else { 1 };
                let rounds = if self.r.one_in(6) { self.size(60, 3000) } else { self.r.below(12) };
                let input = if n > 1 && self.r.one_in(3) {
                    let b = self.bytes(64).get();
                    B::Pat(64 * n, b)
                } else {
                    self.bytes(64 * n)
                };
                let fill = self.fill();
                Case::Salsa { input, rounds, fill }
            }
            "C06" => {
                let r = 1 + self.r.below(6);
                let n = 1 << (1 + self.r.below(7));
                let q = 1 + self.r.below(4);
                let (a, b) = (self.any(100, 500), self.any(100, 500));
                let len = self.size(150, 600);
                let fill = self.fill();
                Case::Scrypt { r, n, p: q, pw: a, salt: b, len, fill }
            }
            "C07" => {
                let n = match self.r.below(4) {
                    0 => self.r.below(40),
                    1 => 1usize << self.r.below(5),
                    2 => (1usize << self.r.below(16)).wrapping_add(1usize << self.r.below(16)),
                    _ => self.r.next() as usize >> (40 + self.r.below(20)),
                };
                let valid_n = n > 1 && n.is_power_of_two();
                let r = self.r.below(if valid_n && n > 512 { 2 } else { 6 });
                let q = self.r.below(4);
                let len = self.r.below(80);
                if valid_n && n > 2000 && r > 0 && q > 0 {
                    return self.scr(0, n, q, len);
                }
                self.scr(r, n, q, len)
            }
            "C08" | "C09" => {
                if self.r.one_in(4) {
                    let n = self.r.below(9);
                    return self.aes_hist(n);
                }
                if self.r.one_in(2) {
                    return self.steered_aes();
                }
                let k = self.key();
                let b = match self.r.below(12) {
                    0 => B::Hex(k.get()[..16].to_vec()),
                    1 => B::Hex(k.get()[k.len() - 16..].to_vec()),
                    _ => self.bytes(16),
                };
                Case::AesBlk(k, b)
            }
            "C10" => match self.r.below(3) {
                0 => {
                    let mut o = Vec::new();
                    let mut last: Option<Vec<u8>> = None;
                    for _ in 0..1 + self.r.below(8) {
                        match self.r.below(6) {
                            0 => {
                                let k = self.key();
                                last = Some(k.get());
                                o.push(Op::Init(k));
                            }
                            1 => {
                                // a key related to the last one
                                let k = last.clone().unwrap_or_else(|| vec![1; 16]);
                                let k = self.related(k);
                                last = Some(k.clone());
                                o.push(Op::Init(B::Hex(k)));
                            }
                            2 => o.push(Op::Init(self.any(40, 300))),
                            3 => o.push(Op::Dec(self.bytes(16))),
                            _ => o.push(Op::Enc(self.bytes(16))),
                        }
                    }
                    o.push(Op::Enc(self.bytes(16)));
                    o.push(Op::Dec(self.bytes(16)));
                    Case::AesHist(o)
                }
                1 => {
                    let u = self.r.one_in(3);
                    let o = self.hist(u, true);
                    Case::Enc(self.bytes(16), o)
                }
                _ => {
                    let u = self.r.one_in(3);
                    let mut o = self.hist(u, true);
                    // a flush of random ciphertext fails: leave most of them out
                    if !self.r.one_in(3) {
                        o.retain(|x| *x != Op::Flush);
                    }
                    Case::Dec(self.bytes(16), o)
                }
            },
            "C11" => {
                if self.r.one_in(8) {
                    let (k, iv, m) = self.steered_cbc();
                    let mut o = vec![Op::Init(B::Hex(k))];
                    o.extend(self.cut(m).into_iter().map(Op::Write));
                    o.push(Op::Flush);
                    return Case::Enc(B::Hex(iv), o);
                }
                let o = self.hist(false, false);
                if self.r.one_in(6) {
                    // iv and data that repeat
                    let b = self.bytes(16);
                    let o = o.into_iter().map(|x| match x { Op::Write(w) if w.len() == 16 => Op::Write(b.clone()), y => y }).collect();
                    return Case::Enc(b, o);
                }
                Case::Enc(self.bytes(16), o)
            }
            "C12" if self.r.one_in(8) => {
                let (k, iv, m) = self.steered_cbc();
                Case::Round(B::Hex(k), B::Hex(iv), vec![B::Hex(m)], self.r.next())
            }
            "C12" => match self.r.below(4) {
                3 => self.dec_msgs(),
                0 => {
                    let mut o = vec![Op::Init(self.key())];
                    let n = self.r.below(200);
                    o.extend(self.cut_writes(n));
                    o.push(Op::Flush);
                    Case::Dec(self.bytes(16), o)
                }
                1 => {
                    let n = 16 * self.r.below(5);
                    let mut b: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
                    b.extend(self.last_block());
                    self.dec_plain(b, 0)
                }
                _ => self.round(140),
            },
            "C13" if self.r.one_in(2) => self.dec_msgs(),
            "C13" => {
                let n = 16 * self.r.below(4);
                let mut b: Vec<u8> = (0..n).map(|_| self.r.next() as u8).collect();
                b.extend(self.last_block());
                let extra = if self.r.one_in(3) { self.r.below(16) } else { 0 };
                self.dec_plain(b, extra)
            }
            _ => {
                let n = 1 + self.r.below(4);
                let v = (0..n).map(|_| self.any(150, 300)).collect();
                Case::Misc(v)
            }
        }
    }
}
