//! Coverage-guided search over cases: cases that take a new branch, or bring the two sides of a comparison closer
//! than before, are kept and changed further. Changed cases are brought back inside the property's preconditions.
use crate::cases::{Case, Op, B};
use crate::cov;
use crate::gen::{Gen, Rng};

pub struct Entry {
    case: Case,
    taken: Vec<u32>,
}

pub struct Corpus {
    pub entries: Vec<Entry>,
    r: Rng,
    prop: String,
}

const EDGE: [u8; 10] = [0, 1, 2, 15, 16, 0x7f, 0x80, 0xfe, 0xff, 0x36];

fn total(c: &Case) -> usize {
    let ops = |o: &[Op]| {
        o.iter()
            .map(|x| match x {
                Op::Init(b) | Op::Write(b) | Op::Enc(b) | Op::Dec(b) => b.len(),
                Op::Flush => 0,
            })
            .sum::<usize>()
    };
    match c {
        Case::Sha(v) | Case::Misc(v) => v.iter().map(|b| b.len()).sum(),
        Case::Hmac(k, v) => k.len() + v.iter().map(|b| b.len()).sum::<usize>(),
        Case::Pbkdf2 { p, s, c, len, .. } => (p.len() + s.len()).saturating_add(c.saturating_mul(len / 32 + 1).saturating_mul(16)),
        Case::Salsa { input, rounds, .. } => input.len().saturating_mul(rounds / 8 + 1),
        Case::Scrypt { r, n, p, pw, salt, len, .. } => {
            let w = (*n as u128).saturating_mul(*r as u128).saturating_mul(*p as u128).saturating_mul(16);
            let valid = *r > 0 && *p > 0 && *n > 1 && n.is_power_of_two();
            (pw.len() + salt.len()).saturating_add(*len).saturating_add(if valid { w.min(1 << 40) as usize } else { 0 })
        }
        Case::AesBlk(..) => 48,
        Case::AesHist(o) => ops(o),
        Case::Enc(_, o) | Case::Dec(_, o) => ops(o),
        Case::Round(_, _, m, _) => m.iter().map(|b| b.len()).sum(),
        Case::DecPlain { plain, .. } => plain.len(),
    }
}

impl Corpus {
    pub fn new(prop: &str, seed: u64) -> Corpus {
        Corpus { entries: vec![], r: Rng(seed), prop: prop.into() }
    }

    pub fn cheap(c: &Case) -> bool {
        total(c) <= 6000
    }

    pub fn note(&mut self, c: Case, fresh: usize, taken: Vec<u32>) {
        if fresh == 0 || !Corpus::cheap(&c) {
            return;
        }
        if self.entries.len() >= 3000 {
            let k = self.r.below(2000);
            self.entries.swap_remove(k);
        }
        self.entries.push(Entry { case: c, taken });
    }

    fn choose(&mut self) -> Case {
        let n = self.entries.len();
        match self.r.below(4) {
            0 => self.entries[n - 1 - self.r.below(n.min(24))].case.clone(),
            1 | 2 => {
                // a case that takes one of the branches taken least often
                let h = &cov::state().hits;
                let mut idx: Vec<usize> = (0..h.len()).filter(|i| h[*i] > 0).collect();
                idx.sort_by_key(|i| h[*i]);
                idx.truncate(6);
                if idx.is_empty() {
                    return self.entries[self.r.below(n)].case.clone();
                }
                let e = *self.r.pick(&idx) as u32;
                let v: Vec<usize> = (0..n).filter(|i| self.entries[*i].taken.contains(&e)).collect();
                if v.is_empty() {
                    return self.entries[self.r.below(n)].case.clone();
                }
                let k = if self.r.one_in(2) { v[v.len() - 1 - self.r.below(v.len().min(8))] } else { *self.r.pick(&v) };
                self.entries[k].case.clone()
            }
            _ => self.entries[self.r.below(n)].case.clone(),
        }
    }

    pub fn next(&mut self, g: &mut Gen) -> Case {
        if self.entries.is_empty() || self.r.one_in(5) {
            return g.random();
        }
        for _ in 0..8 {
            let mut c = self.choose();
            for _ in 0..1 + self.r.below(*self.r.clone().pick(&[1usize, 2, 4, 8])) {
                self.change(&mut c);
            }
            self.fix(&mut c);
            if Corpus::cheap(&c) {
                return c;
            }
        }
        g.random()
    }

    fn pair(&mut self) -> Option<(u64, u64, u32)> {
        let p = &cov::state().pairs;
        for _ in 0..64 {
            let x = p[self.r.below(p.len())];
            if x.2 != 0 {
                return Some(if self.r.one_in(2) { x } else { (x.1, x.0, x.2) });
            }
        }
        let v: Vec<_> = p.iter().filter(|x| x.2 != 0).collect();
        if v.is_empty() {
            return None;
        }
        Some(**self.r.pick(&v))
    }

    fn bytes(&mut self, b: &mut B) {
        if b.len() > 4096 {
            let n = b.len();
            *b = B::Gen(self.r.below(2 * n), self.r.next() >> 1);
            return;
        }
        let mut v = b.get();
        let n = v.len();
        let r = &mut self.r;
        match r.below(14) {
            0 if n > 0 => v[r.below(n)] ^= 1 << r.below(8),
            1 if n > 0 => {
                let i = r.below(n);
                v[i] = r.next() as u8;
            }
            2 if n > 0 => {
                let i = r.below(n);
                v[i] = *r.pick(&EDGE);
            }
            3 if n > 0 => {
                let i = r.below(n);
                v[i] = v[i].wrapping_add([1u8, 255, 2, 16, 128][r.below(5)]);
            }
            4 if n > 1 => {
                // one place takes the value of another
                let (i, j) = (r.below(n), r.below(n));
                v[i] = v[j];
            }
            5 if n > 1 => {
                let w = *r.pick(&[2usize, 4, 8, 16]);
                let (i, j) = (r.below(n), r.below(n));
                for k in 0..w {
                    if i + k < n && j + k < n {
                        v[i + k] = v[j + k];
                    }
                }
            }
            6 if n > 0 => {
                let (i, x) = (r.below(n), *r.pick(&EDGE));
                let w = 1 + r.below(16);
                for k in i..(i + w).min(n) {
                    v[k] = x;
                }
            }
            7 => {
                let i = r.below(n + 1);
                let x = r.next() as u8;
                v.insert(i, x);
            }
            8 if n > 0 => {
                v.remove(r.below(n));
            }
            9 => {
                let m = [n.saturating_sub(16), n + 16, n / 2, n + 1, n.saturating_sub(1), n * 2, r.below(200)][r.below(7)];
                while v.len() < m {
                    v.push(r.next() as u8);
                }
                v.truncate(m);
            }
            10 | 11 if n > 0 => {
                // what the program compares is what it is given: put one side where the other was seen
                if let Some((x, y, s)) = self.pair() {
                    let (s, d) = (s as usize, [0u64, 1, !0][self.r.below(3)]);
                    let y = if self.r.one_in(4) { y.wrapping_add(d) } else { y };
                    for w in [s, 1, 2, 4] {
                        if w > s || w > n {
                            continue;
                        }
                        let (xl, yl) = (x.to_le_bytes()[..w].to_vec(), y.to_le_bytes()[..w].to_vec());
                        let (xb, yb): (Vec<u8>, Vec<u8>) = (xl.iter().rev().cloned().collect(), yl.iter().rev().cloned().collect());
                        let at: Vec<(usize, &Vec<u8>)> = (0..=n - w)
                            .filter_map(|i| if v[i..i + w] == xl[..] { Some((i, &yl)) } else if v[i..i + w] == xb[..] { Some((i, &yb)) } else { None })
                            .collect();
                        if !at.is_empty() {
                            let (i, t) = at[self.r.below(at.len())];
                            v[i..i + w].copy_from_slice(t);
                            break;
                        }
                        if self.r.one_in(8) {
                            let i = self.r.below(n - w + 1);
                            v[i..i + w].copy_from_slice(&yl);
                            break;
                        }
                    }
                }
            }
            12 if n > 1 => {
                let (i, j) = (r.below(n), r.below(n));
                v.swap(i, j);
            }
            _ => {
                for _ in 0..1 + r.below(4) {
                    if n > 0 {
                        let i = r.below(n);
                        v[i] = r.next() as u8;
                    }
                }
            }
        }
        *b = B::Hex(v);
    }

    fn number(&mut self, n: &mut usize) {
        let r = &mut self.r;
        *n = match r.below(8) {
            0 => n.wrapping_add(1),
            1 => n.saturating_sub(1),
            2 => n.saturating_mul(2),
            3 => *n / 2,
            4 => r.below(40),
            5 => *n ^ 1usize << r.below(12),
            _ => match self.pair() {
                Some((a, b, _)) if a as usize == *n || self.r.one_in(6) => (b as usize).wrapping_add([0usize, 1, !0][self.r.below(3)]),
                _ => n.wrapping_add(self.r.below(64)),
            },
        }
    }

    fn list(&mut self, v: &mut Vec<B>) {
        match self.r.below(6) {
            0 => {
                let b = B::Hex((0..self.r.below(70)).map(|_| self.r.next() as u8).collect());
                let i = self.r.below(v.len() + 1);
                v.insert(i, b);
            }
            1 if !v.is_empty() => {
                let i = self.r.below(v.len());
                v.remove(i);
            }
            2 if v.len() > 1 => {
                let i = self.r.below(v.len() - 1);
                let b = v.remove(i + 1);
                let mut x = v[i].get();
                x.extend(b.get());
                v[i] = B::Hex(x);
            }
            3 if !v.is_empty() => {
                let i = self.r.below(v.len());
                let x = v[i].get();
                let k = self.r.below(x.len() + 1);
                v[i] = B::Hex(x[..k].to_vec());
                v.insert(i + 1, B::Hex(x[k..].to_vec()));
            }
            _ if !v.is_empty() => {
                let i = self.r.below(v.len());
                self.bytes(&mut v[i]);
            }
            _ => {}
        }
    }

    fn ops(&mut self, o: &mut Vec<Op>) {
        let blocks = matches!(self.prop.as_str(), "C10" | "C14") && o.iter().any(|x| matches!(x, Op::Enc(_) | Op::Dec(_)));
        let n = o.len();
        match self.r.below(8) {
            0 => {
                let k = if blocks { 16 } else { self.r.below(50) };
                let b = B::Hex((0..k).map(|_| self.r.next() as u8).collect());
                let x = match self.r.below(6) {
                    0 => {
                        let k = *self.r.pick(&[16usize, 24, 32, 16, 17, 8]);
                        Op::Init(B::Hex((0..k).map(|_| self.r.next() as u8).collect()))
                    }
                    1 | 2 if !blocks => Op::Flush,
                    1 | 2 if blocks => Op::Dec(b),
                    _ if blocks => Op::Enc(b),
                    _ => Op::Write(b),
                };
                let i = self.r.below(n + 1);
                o.insert(i, x);
            }
            1 if n > 0 => {
                o.remove(self.r.below(n));
            }
            2 if n > 0 => {
                let (i, j) = (self.r.below(n), self.r.below(n + 1));
                let x = o[i].clone();
                o.insert(j, x);
            }
            3 if n > 1 => {
                let (i, j) = (self.r.below(n), self.r.below(n));
                o.swap(i, j);
            }
            4 if n > 0 => {
                // cut a write in two
                let i = self.r.below(n);
                if let Op::Write(b) = &o[i] {
                    let x = b.get();
                    let k = self.r.below(x.len() + 1);
                    o[i] = Op::Write(B::Hex(x[..k].to_vec()));
                    o.insert(i + 1, Op::Write(B::Hex(x[k..].to_vec())));
                }
            }
            _ if n > 0 => {
                let i = self.r.below(n);
                let mut x = o[i].clone();
                match &mut x {
                    Op::Init(b) | Op::Write(b) | Op::Enc(b) | Op::Dec(b) => self.bytes(b),
                    Op::Flush => {}
                }
                o[i] = x;
            }
            _ => {}
        }
    }

    fn change(&mut self, c: &mut Case) {
        match c {
            Case::Sha(v) | Case::Misc(v) => self.list(v),
            Case::Hmac(k, v) => {
                if self.r.one_in(2) {
                    self.bytes(k)
                } else {
                    self.list(v)
                }
            }
            Case::Pbkdf2 { p, s, c, len, fill } => match self.r.below(6) {
                0 | 1 => self.bytes(p),
                2 | 3 => self.bytes(s),
                4 => self.number(if *fill == 0 { c } else { len }),
                _ => {
                    self.number(c);
                    *fill = self.r.next() as u8;
                }
            },
            Case::Salsa { input, rounds, fill } => match self.r.below(6) {
                0 => self.number(rounds),
                1 => *fill = self.r.next() as u8,
                _ => self.bytes(input),
            },
            Case::Scrypt { r, n, p, pw, salt, len, fill } => match self.r.below(8) {
                0 => self.number(r),
                1 => self.number(n),
                2 => self.number(p),
                3 => self.number(len),
                4 => *fill = self.r.next() as u8,
                5 => self.bytes(salt),
                _ => self.bytes(pw),
            },
            Case::AesBlk(k, b) => {
                if self.r.one_in(2) {
                    self.bytes(k)
                } else {
                    self.bytes(b)
                }
            }
            Case::AesHist(o) => self.ops(o),
            Case::Enc(iv, o) | Case::Dec(iv, o) => {
                if self.r.one_in(6) {
                    self.bytes(iv)
                } else {
                    self.ops(o)
                }
            }
            Case::Round(k, iv, m, cut) => match self.r.below(6) {
                0 => self.bytes(k),
                1 => self.bytes(iv),
                2 => *cut = self.r.next(),
                _ => self.list(m),
            },
            Case::DecPlain { key, iv, plain, extra, cut } => match self.r.below(8) {
                0 => self.bytes(key),
                1 => self.bytes(iv),
                2 => *cut = self.r.next(),
                3 => self.bytes(extra),
                _ => self.bytes(plain),
            },
        }
    }

    fn key(b: &mut B) {
        if matches!(b.len(), 16 | 24 | 32) {
            return;
        }
        let mut v = b.get();
        let n = if v.len() < 20 { 16 } else if v.len() < 28 { 24 } else { 32 };
        v.resize(n, 0);
        *b = B::Hex(v);
    }

    fn exact(b: &mut B, n: usize) {
        if b.len() != n {
            let mut v = b.get();
            v.resize(n, 0);
            *b = B::Hex(v);
        }
    }

    /// back inside what the property speaks about
    fn fix(&mut self, c: &mut Case) {
        let p = self.prop.clone();
        match c {
            Case::Sha(v) | Case::Hmac(_, v) => v.truncate(16),
            Case::Misc(v) => v.truncate(6),
            Case::Pbkdf2 { c, len, .. } => {
                *c = (*c).clamp(1, 400);
                *len = (*len).min(5000);
            }
            Case::Salsa { input, rounds, .. } => {
                let n = input.len() / 64 * 64;
                Corpus::exact(input, n);
                *rounds = (*rounds).min(600);
            }
            Case::Scrypt { r, n, p: q, len, .. } => {
                *len = (*len).min(2000);
                if p == "C06" || p == "C14" {
                    *r = (*r).clamp(1, 40);
                    *q = (*q).clamp(1, 8);
                    *n = (*n).clamp(2, 256).next_power_of_two();
                } else {
                    let small = |x: usize| if x > 40 { x % 41 } else { x };
                    *r = small(*r);
                    *q = small(*q);
                }
            }
            Case::AesBlk(k, b) => {
                if p != "C14" {
                    Corpus::key(k);
                }
                Corpus::exact(b, 16);
            }
            Case::AesHist(o) => {
                o.truncate(24);
                for x in o.iter_mut() {
                    match x {
                        Op::Enc(b) | Op::Dec(b) => Corpus::exact(b, 16),
                        _ => {}
                    }
                }
            }
            Case::Enc(iv, o) | Case::Dec(iv, o) => {
                Corpus::exact(iv, 16);
                o.truncate(40);
                if matches!(p.as_str(), "C11" | "C12" | "C13") {
                    let mut i = 0;
                    o.retain(|x| {
                        i += 1;
                        i == 1 || !matches!(x, Op::Init(_))
                    });
                    match o.first_mut() {
                        Some(Op::Init(b)) => Corpus::key(b),
                        _ => o.insert(0, Op::Init(B::Hex((0..16).map(|i| i * 7).collect()))),
                    }
                }
                o.retain(|x| !matches!(x, Op::Enc(_) | Op::Dec(_)));
            }
            Case::Round(k, iv, m, _) => {
                Corpus::key(k);
                Corpus::exact(iv, 16);
                m.truncate(6);
            }
            Case::DecPlain { key, iv, plain, extra, .. } => {
                Corpus::key(key);
                Corpus::exact(iv, 16);
                let n = (plain.len() / 16 * 16).max(16);
                Corpus::exact(plain, n);
                if extra.len() > 64 {
                    Corpus::exact(extra, 5);
                }
            }
        }
    }
}
