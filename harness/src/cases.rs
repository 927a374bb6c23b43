use crate::refimpl as rf;
use dumb_crypto::aes::{AESError, AES};
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::{Scrypt, ScryptError};
use dumb_crypto::sha256::SHA256;

/// A byte string, short to write down and exactly reproducible.
#[derive(Clone, Debug, PartialEq)]
pub enum B {
    Hex(Vec<u8>),
    Gen(usize, u64),
    Pat(usize, Vec<u8>),
}

impl B {
    pub fn get(&self) -> Vec<u8> {
        match self {
            B::Hex(v) => v.clone(),
            B::Gen(n, s) => {
                let mut r = crate::gen::Rng(*s);
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < *n {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
                v.truncate(*n);
                v
            }
            B::Pat(n, p) if p.iter().all(|b| *b == 0) => vec![0; *n],
            B::Pat(n, p) => (0..*n).map(|i| p[i % p.len()]).collect(),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            B::Hex(v) => v.len(),
            B::Gen(n, _) | B::Pat(n, _) => *n,
        }
    }
    fn show(&self) -> String {
        match self {
            B::Hex(v) => format!("h:{}", rf::hex(v)),
            B::Gen(n, s) => format!("g:{}:{}", n, s),
            B::Pat(n, p) => format!("p:{}:{}", n, rf::hex(p)),
        }
    }
    fn parse(s: &str) -> Option<B> {
        let t: Vec<&str> = s.split(':').collect();
        Some(match t[0] {
            "h" => B::Hex(rf::unhex(t.get(1)?)),
            "g" => B::Gen(t.get(1)?.parse().ok()?, t.get(2)?.parse().ok()?),
            "p" => B::Pat(t.get(1)?.parse().ok()?, rf::unhex(t.get(2)?)),
            _ => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Init(B),
    Write(B),
    Flush,
    Enc(B),
    Dec(B),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Case {
    Sha(Vec<B>),
    Hmac(B, Vec<B>),
    Pbkdf2 { p: B, s: B, c: usize, len: usize, fill: u8 },
    Salsa { input: B, rounds: usize, fill: u8 },
    Scrypt { r: usize, n: usize, p: usize, pw: B, salt: B, len: usize, fill: u8 },
    AesBlk(B, B),
    AesHist(Vec<Op>),
    Enc(B, Vec<Op>),
    Dec(B, Vec<Op>),
    /// key, iv, messages; `cut` drives how both sides are chunked
    Round(B, B, Vec<B>, u64),
    /// like Dec, but the ciphertext blocks are given by the plaintext they decrypt to
    DecPlain { key: B, iv: B, plain: B, extra: B, cut: u64 },
    /// calls whose values no property fixes, but which must not panic
    Misc(Vec<B>),
}

fn show_ops(o: &[Op]) -> String {
    o.iter()
        .map(|x| match x {
            Op::Init(b) => format!("I={}", b.show()),
            Op::Write(b) => format!("W={}", b.show()),
            Op::Flush => "F".into(),
            Op::Enc(b) => format!("E={}", b.show()),
            Op::Dec(b) => format!("D={}", b.show()),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn parse_ops(t: &[&str]) -> Option<Vec<Op>> {
    t.iter()
        .map(|x| {
            if *x == "F" {
                return Some(Op::Flush);
            }
            let (k, v) = x.split_once('=')?;
            let b = B::parse(v)?;
            Some(match k {
                "I" => Op::Init(b),
                "W" => Op::Write(b),
                "E" => Op::Enc(b),
                "D" => Op::Dec(b),
                _ => return None,
            })
        })
        .collect()
}

fn bs(v: &[B]) -> String {
    v.iter().map(|b| b.show()).collect::<Vec<_>>().join(" ")
}

pub fn show_case(c: &Case) -> String {
    match c {
        Case::Sha(v) => format!("sha {}", bs(v)),
        Case::Hmac(k, v) => format!("hmac {} {}", k.show(), bs(v)),
        Case::Pbkdf2 { p, s, c, len, fill } => format!("pbkdf2 {} {} {} {} {}", p.show(), s.show(), c, len, fill),
        Case::Salsa { input, rounds, fill } => format!("salsa {} {} {}", input.show(), rounds, fill),
        Case::Scrypt { r, n, p, pw, salt, len, fill } => {
            format!("scrypt {} {} {} {} {} {} {}", r, n, p, pw.show(), salt.show(), len, fill)
        }
        Case::AesBlk(k, b) => format!("aes {} {}", k.show(), b.show()),
        Case::AesHist(o) => format!("aeshist {}", show_ops(o)),
        Case::Enc(iv, o) => format!("enc {} {}", iv.show(), show_ops(o)),
        Case::Dec(iv, o) => format!("dec {} {}", iv.show(), show_ops(o)),
        Case::Round(k, iv, m, cut) => format!("round {} {} {} {}", k.show(), iv.show(), cut, bs(m)),
        Case::DecPlain { key, iv, plain, extra, cut } => {
            format!("decplain {} {} {} {} {}", key.show(), iv.show(), plain.show(), extra.show(), cut)
        }
        Case::Misc(v) => format!("misc {}", bs(v)),
    }
}

pub fn parse_case(s: &str) -> Option<Case> {
    let t: Vec<&str> = s.split_whitespace().collect();
    let pb = |v: &[&str]| v.iter().map(|x| B::parse(x)).collect::<Option<Vec<B>>>();
    let n = |i: usize| -> Option<usize> { t.get(i)?.parse().ok() };
    let b = |i: usize| -> Option<B> { B::parse(t.get(i)?) };
    Some(match *t.first()? {
        "sha" => Case::Sha(pb(&t[1..])?),
        "hmac" => Case::Hmac(b(1)?, pb(&t[2..])?),
        "pbkdf2" => Case::Pbkdf2 { p: b(1)?, s: b(2)?, c: n(3)?, len: n(4)?, fill: n(5)? as u8 },
        "salsa" => Case::Salsa { input: b(1)?, rounds: n(2)?, fill: n(3)? as u8 },
        "scrypt" => Case::Scrypt { r: n(1)?, n: n(2)?, p: n(3)?, pw: b(4)?, salt: b(5)?, len: n(6)?, fill: n(7)? as u8 },
        "aes" => Case::AesBlk(b(1)?, b(2)?),
        "aeshist" => Case::AesHist(parse_ops(&t[1..])?),
        "enc" => Case::Enc(b(1)?, parse_ops(&t[2..])?),
        "dec" => Case::Dec(b(1)?, parse_ops(&t[2..])?),
        "round" => Case::Round(b(1)?, b(2)?, pb(&t[4..])?, t.get(3)?.parse().ok()?),
        "decplain" => Case::DecPlain { key: b(1)?, iv: b(2)?, plain: b(3)?, extra: b(4)?, cut: t.get(5)?.parse().ok()? },
        "misc" => Case::Misc(pb(&t[1..])?),
        _ => return None,
    })
}

/// A coarse description of a case (lengths and shape): what the evidence counts as distinct.
pub fn class(c: &Case) -> String {
    let ls = |v: &[B]| v.iter().map(|b| b.len().to_string()).collect::<Vec<_>>().join(",");
    let ops = |o: &[Op]| {
        o.iter()
            .map(|x| match x {
                Op::Init(b) => format!("I{}", b.len()),
                Op::Write(b) => format!("W{}", b.len()),
                Op::Flush => "F".into(),
                Op::Enc(_) => "E".into(),
                Op::Dec(_) => "D".into(),
            })
            .collect::<Vec<_>>()
            .join("")
    };
    match c {
        Case::Sha(v) => format!("sha {}", ls(v)),
        Case::Hmac(k, v) => format!("hmac {} {}", k.len(), ls(v)),
        Case::Pbkdf2 { p, s, c, len, .. } => format!("pbkdf2 {} {} {} {}", p.len(), s.len(), c, len),
        Case::Salsa { input, rounds, .. } => format!("salsa {} {} {:x?}", input.len(), rounds, &input.get().get(..4)),
        Case::Scrypt { r, n, p, pw, salt, len, .. } => format!("scrypt {} {} {} {} {} {}", r, n, p, pw.len(), salt.len(), len),
        Case::AesBlk(k, b) => format!("aes {} {:x?}", k.len(), &b.get()[..4]),
        Case::AesHist(o) => format!("aeshist {}", ops(o)),
        Case::Enc(_, o) => format!("enc {}", ops(o)),
        Case::Dec(_, o) => format!("dec {}", ops(o)),
        Case::Round(k, _, m, cut) => format!("round {} {} {}", k.len(), ls(m), cut % 64),
        Case::DecPlain { plain, extra, .. } => {
            let p = plain.get();
            format!("decplain {} {} {:x?}", p.len(), extra.len(), &p[p.len().saturating_sub(2)..])
        }
        Case::Misc(v) => format!("misc {}", ls(v)),
    }
}

fn neq(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let cut = |v: &[u8]| rf::hex(&v[i.min(v.len())..v.len().min(i + 48)]);
    Err(format!(
        "{}: lengths {} (expected {}), first difference at byte {}: {} expected {}",
        what,
        got.len(),
        want.len(),
        i,
        cut(got),
        cut(want)
    ))
}

fn arr(b: &B) -> [u8; 16] {
    let v = b.get();
    let mut a = [0u8; 16];
    for i in 0..16 {
        a[i] = *v.get(i).unwrap_or(&0);
    }
    a
}

/// Another object of the same kind, used in between: what one object does must not reach another.
fn decoy(n: usize) -> bool {
    n % 3 == 2 && n < 200
}
fn other(k: &[u8]) -> Vec<u8> {
    let mut k = k.to_vec();
    let n = k.len();
    if n > 1 {
        k[1] ^= 0x40;
    }
    k
}

fn real_sha(chunks: &[B]) -> Vec<u8> {
    let mut s = SHA256::new();
    let mut o = if decoy(chunks.len()) { Some(SHA256::new()) } else { None };
    for c in chunks {
        let c = c.get();
        s.update(&c);
        if let Some(o) = &mut o {
            o.update(&other(&c));
            o.update(b"x");
        }
    }
    let d = s.digest().to_vec();
    if let Some(o) = &mut o {
        o.digest();
    }
    d
}

fn real_hmac(key: &[u8], chunks: &[B]) -> Vec<u8> {
    let mut s = HMac::new(key);
    let mut o = if decoy(chunks.len()) { Some(HMac::new(&other(key))) } else { None };
    for c in chunks {
        let c = c.get();
        s.update(&c);
        if let Some(o) = &mut o {
            o.update(&c);
            o.update(b"x");
        }
    }
    s.digest().to_vec()
}

fn concat(chunks: &[B]) -> Vec<u8> {
    if chunks.len() == 1 {
        return chunks[0].get();
    }
    chunks.iter().flat_map(|c| c.get()).collect()
}

/// Block functions a model is built over: the standard's, or what a fresh process of the real crate
/// computes. The second stands in where a property does not ask for the standard's values and the
/// crate does not compute them (see `judge_apart`).
enum Blk {
    Ref(rf::Aes, Vec<u8>, bool),
    Apart(AES, Vec<u8>),
}
type Query = (Vec<u8>, [u8; 16], bool);
thread_local! {
    static APART: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static ASKED: std::cell::RefCell<Vec<Query>> = const { std::cell::RefCell::new(Vec::new()) };
    static ANSWERS: std::cell::RefCell<std::collections::HashMap<Query, [u8; 16]>> = std::cell::RefCell::new(Default::default());
}
impl Blk {
    fn new(real: bool, key: &[u8]) -> Option<Blk> {
        if real && APART.with(|a| a.get()) {
            if ![16, 24, 32].contains(&key.len()) {
                return None;
            }
            let mut a = AES::new();
            a.init(key).expect("init");
            Some(Blk::Apart(a, key.to_vec()))
        } else {
            rf::Aes::new(key).map(|a| Blk::Ref(a, key.to_vec(), real))
        }
    }
    fn run(&self, b: &[u8; 16], enc: bool) -> [u8; 16] {
        match self {
            Blk::Ref(a, k, note) => {
                if *note {
                    ASKED.with(|q| {
                        let mut q = q.borrow_mut();
                        if q.len() < 400 {
                            q.push((k.clone(), *b, enc));
                        }
                    });
                }
                if enc {
                    a.enc(b)
                } else {
                    a.dec(b)
                }
            }
            Blk::Apart(a, k) => {
                if let Some(x) = apart(&(k.clone(), *b, enc)) {
                    return x;
                }
                if enc { a.encrypt(b) } else { a.decrypt(b) }.expect("block")
            }
        }
    }
    fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        self.run(b, true)
    }
    fn dec(&self, b: &[u8; 16]) -> [u8; 16] {
        self.run(b, false)
    }
}

/// One block under one key, computed by the real crate in a process that has done nothing else.
fn apart(q: &Query) -> Option<[u8; 16]> {
    if let Some(x) = ANSWERS.with(|a| a.borrow().get(q).copied()) {
        return Some(x);
    }
    if ANSWERS.with(|a| a.borrow().len()) > 5000 {
        return None;
    }
    let o = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["block", if q.2 { "enc" } else { "dec" }, &rf::hex(&q.0), &rf::hex(&q.1)])
        .output()
        .ok()?;
    let v = rf::unhex(String::from_utf8_lossy(&o.stdout).trim());
    if v.len() != 16 {
        return None;
    }
    let x = to16(&v);
    ANSWERS.with(|a| a.borrow_mut().insert(q.clone(), x));
    Some(x)
}
pub fn block(a: &[String]) -> i32 {
    let mut c = AES::new();
    if c.init(&rf::unhex(&a[1])).is_err() {
        return 1;
    }
    let b = to16(&rf::unhex(&a[2]));
    match if a[0] == "enc" { c.encrypt(&b) } else { c.decrypt(&b) } {
        Ok(x) => {
            println!("{}", rf::hex(&x));
            0
        }
        Err(_) => 1,
    }
}
/// Before a failure counts: does the crate, asked for nothing else, compute the blocks the verdict
/// rests on as the standard does? If not, that is another property's matter (C08), and this one is
/// judged over the crate's own block function.
pub fn judge_apart(prop: &str, run: &dyn Fn() -> Result<(), String>) -> Result<(), String> {
    ASKED.with(|q| q.borrow_mut().clear());
    let r = run();
    if r.is_ok() || !(prop == "C10" || prop == "C13") {
        return r;
    }
    let asked = ASKED.with(|q| std::mem::take(&mut *q.borrow_mut()));
    ANSWERS.with(|a| {
        if a.borrow().len() > 2500 {
            a.borrow_mut().clear();
        }
    });
    let standard = asked.iter().all(|q| {
        let a = rf::Aes::new(&q.0).unwrap();
        let w = if q.2 { a.enc(&q.1) } else { a.dec(&q.1) };
        apart(q).map(|x| x == w).unwrap_or(true)
    });
    if standard {
        return r;
    }
    APART.with(|a| a.set(true));
    let r = run();
    APART.with(|a| a.set(false));
    r
}

fn to16(b: &[u8]) -> [u8; 16] {
    let mut a = [0; 16];
    a.copy_from_slice(b);
    a
}

fn cmp_res<E: std::fmt::Debug>(what: &str, got: Result<Vec<u8>, E>, want: Result<Vec<u8>, &str>) -> Result<(), String> {
    match (got, want) {
        (Ok(g), Ok(w)) => neq(what, &g, &w),
        (Err(g), Err(w)) => {
            let g = format!("{:?}", g);
            if g.contains(w) {
                Ok(())
            } else {
                Err(format!("{}: error {} expected {}", what, g, w))
            }
        }
        (Ok(g), Err(w)) => Err(format!("{}: returned {} bytes ({}), expected error {}", what, g.len(), rf::hex(&g[..g.len().min(64)]), w)),
        (Err(g), Ok(w)) => Err(format!("{}: error {:?}, expected {} bytes", what, g, w.len())),
    }
}

fn init_res(what: &str, got: Result<(), AESError>, key: &[u8]) -> Result<bool, String> {
    let good = [16, 24, 32].contains(&key.len());
    match (&got, good) {
        (Ok(()), true) => Ok(true),
        (Err(AESError::InvalidKeySize), false) => Ok(false),
        _ => Err(format!("{}: init with a {}-byte key returned {:?}", what, key.len(), got)),
    }
}

fn check_enc(iv: &B, ops: &[Op], real: bool) -> Result<(), String> {
    let mut c = Cipher::new(arr(iv));
    let mut other_c = if decoy(ops.len()) { Some(Cipher::new(arr(iv))) } else { None };
    let mut m_iv = arr(iv);
    let mut m_key: Option<Blk> = None;
    let mut m_buf: Vec<u8> = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        let what = format!("call {}", i + 1);
        if let Some(o) = &mut other_c {
            match op {
                Op::Init(k) => drop(o.init(&other(&k.get()))),
                Op::Write(b) => drop(o.write(&b.get())),
                _ => drop(o.flush()),
            }
        }
        match op {
            Op::Init(k) => {
                let k = k.get();
                if init_res(&what, c.init(&k), &k)? {
                    m_key = Blk::new(real, &k);
                }
                if let Some(o) = &mut other_c {
                    let _ = o.init(&other(&k));
                }
            }
            Op::Write(b) => {
                let d = b.get();
                m_buf.extend_from_slice(&d);
                let nb = m_buf.len() / 16 * 16;
                let got = c.write(&d);
                let want = if nb == 0 {
                    Ok(vec![])
                } else if let Some(k) = &m_key {
                    let mut o = Vec::new();
                    for ch in m_buf[..nb].chunks(16) {
                        let mut x = to16(ch);
                        for j in 0..16 {
                            x[j] ^= m_iv[j];
                        }
                        m_iv = k.enc(&x);
                        o.extend_from_slice(&m_iv);
                    }
                    m_buf.drain(..nb);
                    Ok(o)
                } else {
                    Err("NotInitialized")
                };
                let stop = want.is_err();
                cmp_res(&what, got, want)?;
                if stop {
                    return Ok(()); // what follows an error is not fixed by the property
                }
            }
            Op::Flush => {
                let got = c.flush();
                let n = 16 - m_buf.len();
                let mut x = m_buf.clone();
                x.resize(16, n as u8);
                let want = if let Some(k) = &m_key {
                    let mut x = to16(&x);
                    for j in 0..16 {
                        x[j] ^= m_iv[j];
                    }
                    m_iv = k.enc(&x);
                    m_buf.clear();
                    Ok(m_iv.to_vec())
                } else {
                    Err("NotInitialized")
                };
                let stop = want.is_err();
                cmp_res(&what, got, want)?;
                if stop {
                    return Ok(());
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn check_dec(iv: &B, ops: &[Op], real: bool) -> Result<(), String> {
    let mut c = Decipher::new(arr(iv));
    let mut other_c = if decoy(ops.len()) { Some(Decipher::new(arr(iv))) } else { None };
    let mut m_iv = arr(iv);
    let mut m_key: Option<Blk> = None;
    let mut m_buf: Vec<u8> = Vec::new();
    let mut held: Vec<u8> = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        let what = format!("call {}", i + 1);
        if let Some(o) = &mut other_c {
            match op {
                Op::Write(b) => drop(o.write(&b.get())),
                Op::Flush => drop(o.flush()),
                _ => {}
            }
        }
        match op {
            Op::Init(k) => {
                let k = k.get();
                if init_res(&what, c.init(&k), &k)? {
                    m_key = Blk::new(real, &k);
                }
                if let Some(o) = &mut other_c {
                    let _ = o.init(&other(&k));
                }
            }
            Op::Write(b) => {
                let d = b.get();
                m_buf.extend_from_slice(&d);
                let nb = m_buf.len() / 16 * 16;
                let got = c.write(&d);
                let want = if nb == 0 {
                    Ok(vec![])
                } else if let Some(k) = &m_key {
                    for ch in m_buf[..nb].chunks(16) {
                        let x = to16(ch);
                        let mut y = k.dec(&x);
                        for j in 0..16 {
                            y[j] ^= m_iv[j];
                        }
                        m_iv = x;
                        held.extend_from_slice(&y);
                    }
                    m_buf.drain(..nb);
                    let keep = held.split_off(held.len() - 16);
                    Ok(std::mem::replace(&mut held, keep))
                } else {
                    Err("NotInitialized")
                };
                let stop = want.is_err();
                cmp_res(&what, got, want)?;
                if stop {
                    return Ok(());
                }
            }
            Op::Flush => {
                let got = c.flush();
                let want = if !m_buf.is_empty() || held.is_empty() {
                    Err("UnfinishedBlock")
                } else {
                    let n = held[15] as usize;
                    if n >= 1 && n <= 16 && held[16 - n..].iter().all(|b| *b as usize == n) {
                        let r = held[..16 - n].to_vec();
                        held.clear();
                        Ok(r)
                    } else {
                        Err("InvalidPadding")
                    }
                };
                cmp_res(&what, got, want)?;
            }
            _ => {}
        }
    }
    Ok(())
}

/// Cut `d` into chunks as `cut` says (including empty ones).
fn cuts(d: &[u8], cut: u64) -> Vec<Vec<u8>> {
    match cut % 8 {
        0 => return vec![d.to_vec()],
        1 => return d.iter().map(|b| vec![*b]).collect(),
        _ => {}
    }
    let mut r = crate::gen::Rng(cut);
    let mut o = Vec::new();
    let mut i = 0;
    let max = [1, 3, 15, 16, 17, 33, 64, 200][(r.next() % 8) as usize];
    while i < d.len() {
        let n = ((r.next() % (max + 1)) as usize).min(d.len() - i);
        o.push(d[i..i + n].to_vec());
        i += n;
    }
    if r.next() % 3 == 0 {
        o.push(vec![]);
    }
    o
}

fn check_round(key: &B, iv: &B, msgs: &[B], cut: u64) -> Result<(), String> {
    let k = key.get();
    let mut c = Cipher::new(arr(iv));
    let mut d = Decipher::new(arr(iv));
    c.init(&k).map_err(|e| format!("cipher init: {:?}", e))?;
    d.init(&k).map_err(|e| format!("decipher init: {:?}", e))?;
    for (i, m) in msgs.iter().enumerate() {
        let m = m.get();
        let mut ct = Vec::new();
        for w in cuts(&m, cut.wrapping_add(i as u64 * 31)) {
            ct.extend(c.write(&w).map_err(|e| format!("cipher write: {:?}", e))?);
        }
        ct.extend(c.flush().map_err(|e| format!("cipher flush: {:?}", e))?);
        let mut pt = Vec::new();
        for w in cuts(&ct, cut.wrapping_mul(7).wrapping_add(i as u64)) {
            pt.extend(d.write(&w).map_err(|e| format!("message {}: decipher write: {:?}", i + 1, e))?);
        }
        pt.extend(d.flush().map_err(|e| format!("message {}: decipher flush: {:?}", i + 1, e))?);
        neq(&format!("message {} decrypts to", i + 1), &pt, &m)?;
    }
    Ok(())
}

fn check_scrypt(prop: &str, c: &Case) -> Result<(), String> {
    let (r, n, p, pw, salt, len, fill) = match c {
        Case::Scrypt { r, n, p, pw, salt, len, fill } => (*r, *n, *p, pw.get(), salt.get(), *len, *fill),
        _ => return Ok(()),
    };
    let bad_n = n < 2 || !n.is_power_of_two();
    let valid = r > 0 && p > 0 && !bad_n;
    let mut out = vec![fill; len];
    let got = Scrypt::new(r, n, p).derive(&pw, &salt, &mut out);
    if prop == "C06" || (prop == "C14" && valid) {
        if !valid || prop == "C14" {
            return Ok(());
        }
        return match got {
            Ok(()) => neq("derived key", &out, &rf::scrypt(r, n, p, &pw, &salt, len)),
            Err(_) => Ok(()), // C07's business
        };
    }
    match got {
        Ok(()) => {
            if valid {
                Ok(())
            } else {
                Err(format!("r={} N={} p={} accepted", r, n, p))
            }
        }
        Err(e) => {
            let right = match e {
                ScryptError::RIsTooSmall => r == 0,
                ScryptError::NIsTooSmall => n < 2,
                ScryptError::NIsNotAPowerOfTwo => !n.is_power_of_two(),
                ScryptError::PIsTooSmall => p == 0,
            };
            if !right {
                return Err(format!("r={} N={} p={} rejected with {:?}", r, n, p, e));
            }
            if out.iter().any(|b| *b != fill) {
                return Err(format!("r={} N={} p={}: output buffer changed although {:?} was returned", r, n, p, e));
            }
            Ok(())
        }
    }
}

pub fn judge(prop: &str, c: &Case) -> Result<(), String> {
    match (prop, c) {
        ("C14", Case::Misc(v)) => misc(v),
        ("C02", Case::Sha(v)) => neq("chunked digest", &real_sha(v), &real_sha(&[B::Hex(concat(v))])),
        ("C02", Case::Hmac(k, v)) => neq("chunked tag", &real_hmac(&k.get(), v), &real_hmac(&k.get(), &[B::Hex(concat(v))])),
        ("C14", Case::Sha(v)) => {
            real_sha(v);
            Ok(())
        }
        ("C14", Case::Hmac(k, v)) => {
            real_hmac(&k.get(), v);
            Ok(())
        }
        ("C14", Case::Pbkdf2 { p, s, c, len, fill }) => {
            let mut out = vec![*fill; *len];
            pbkdf2_sha256(&p.get(), &s.get(), *c, &mut out);
            Ok(())
        }
        ("C14", Case::Salsa { input, rounds, fill }) => {
            let i = input.get();
            let mut out = vec![*fill; i.len()];
            salsa20(&i, *rounds, &mut out);
            Ok(())
        }
        ("C14", Case::AesBlk(k, b)) => {
            let mut a = AES::new();
            let _ = a.encrypt(&arr(b));
            let _ = a.init(&k.get());
            let _ = a.encrypt(&arr(b));
            let _ = a.decrypt(&arr(b));
            Ok(())
        }
        ("C14", Case::AesHist(o)) => {
            let mut a = AES::default();
            for op in o {
                match op {
                    Op::Init(k) => drop(a.init(&k.get())),
                    Op::Enc(b) => drop(a.encrypt(&arr(b))),
                    Op::Dec(b) => drop(a.decrypt(&arr(b))),
                    _ => {}
                }
            }
            Ok(())
        }
        ("C14", Case::Enc(iv, o)) => {
            let mut a = Cipher::new(arr(iv));
            for op in o {
                match op {
                    Op::Init(k) => drop(a.init(&k.get())),
                    Op::Write(b) => drop(a.write(&b.get())),
                    Op::Flush => drop(a.flush()),
                    _ => {}
                }
            }
            Ok(())
        }
        ("C14", Case::Dec(iv, o)) => {
            let mut a = Decipher::new(arr(iv));
            for op in o {
                match op {
                    Op::Init(k) => drop(a.init(&k.get())),
                    Op::Write(b) => drop(a.write(&b.get())),
                    Op::Flush => drop(a.flush()),
                    _ => {}
                }
            }
            Ok(())
        }
        ("C14", Case::Round(..)) => Ok(()),
        ("C14", Case::Scrypt { .. }) => match check_scrypt("C06x", c) {
            _ => Ok(()),
        },
        ("C14", Case::DecPlain { key, iv, plain, extra, cut }) => {
            let _ = dec_plain(key, iv, plain, extra, *cut);
            Ok(())
        }
        (_, Case::Misc(_)) => Ok(()),
        (_, Case::Sha(v)) => {
            let mut s = rf::Sha::new();
            for ch in v {
                s.update(&ch.get());
            }
            neq("SHA-256 digest", &real_sha(v), &s.digest())
        }
        (_, Case::Hmac(k, v)) => {
            let k = k.get();
            let ms: Vec<Vec<u8>> = v.iter().map(|b| b.get()).collect();
            let rs: Vec<&[u8]> = ms.iter().map(|m| m.as_slice()).collect();
            neq("HMAC tag", &real_hmac(&k, v), &rf::hmac(&k, &rs))
        }
        (_, Case::Pbkdf2 { p, s, c, len, fill }) => {
            let (p, s) = (p.get(), s.get());
            let mut out = vec![*fill; *len];
            pbkdf2_sha256(&p, &s, *c, &mut out);
            neq("derived key", &out, &rf::pbkdf2(&p, &s, *c, *len))
        }
        (_, Case::Salsa { input, rounds, fill }) => {
            let i = input.get();
            let mut out = vec![*fill; i.len()];
            salsa20(&i, *rounds, &mut out);
            neq("Salsa20 output", &out, &rf::salsa(&i, *rounds))
        }
        (_, Case::Scrypt { .. }) => check_scrypt(prop, c),
        ("C09", Case::AesBlk(k, b)) => {
            let mut a = AES::new();
            a.init(&k.get()).map_err(|e| format!("init: {:?}", e))?;
            let b = arr(b);
            let e = a.encrypt(&b).map_err(|e| format!("encrypt: {:?}", e))?;
            neq("decrypt(encrypt(block))", &a.decrypt(&e).map_err(|e| format!("decrypt: {:?}", e))?, &b)?;
            let d = a.decrypt(&b).map_err(|e| format!("decrypt: {:?}", e))?;
            neq("encrypt(decrypt(block))", &a.encrypt(&d).map_err(|e| format!("encrypt: {:?}", e))?, &b)
        }
        (_, Case::AesBlk(k, b)) => {
            let k = k.get();
            let mut a = AES::new();
            a.init(&k).map_err(|e| format!("init: {:?}", e))?;
            let b = arr(b);
            let e = a.encrypt(&b).map_err(|e| format!("encrypt: {:?}", e))?;
            neq("ciphertext block", &e, &rf::Aes::new(&k).unwrap().enc(&b))
        }
        ("C08", Case::AesHist(o)) => {
            // only encryption is judged, under the last key that must have been accepted
            let mut a = AES::new();
            let mut m: Option<Blk> = None;
            let mut other_a = if decoy(o.len()) { Some(AES::new()) } else { None };
            for (i, op) in o.iter().enumerate() {
                match op {
                    Op::Init(k) => {
                        let k = k.get();
                        let r = a.init(&k);
                        if let Some(x) = Blk::new(true, &k) {
                            r.map_err(|e| format!("call {}: init: {:?}", i + 1, e))?;
                            m = Some(x);
                        } else {
                            m = None;
                        }
                        if let Some(x) = &mut other_a {
                            let _ = x.init(&other(&k));
                            let _ = x.encrypt(&[7; 16]);
                        }
                    }
                    Op::Enc(b) => {
                        let r = a.encrypt(&arr(b));
                        if let Some(m) = &m {
                            let r = r.map_err(|e| format!("call {}: encrypt: {:?}", i + 1, e))?;
                            neq(&format!("call {}: ciphertext block", i + 1), &r, &m.enc(&arr(b)))?;
                        }
                    }
                    Op::Dec(b) => drop(a.decrypt(&arr(b))),
                    _ => {}
                }
            }
            Ok(())
        }
        ("C09", Case::AesHist(o)) => {
            // every pair made under the key in force has to go back; blocks seen under an
            // earlier key are tried again under the next one.  `mode` says when: at once,
            // before the next key, or (the pair being dropped) never
            let mode = o.len() % 3;
            let mut a = AES::new();
            let mut ready = false;
            let mut seen: Vec<[u8; 16]> = vec![];
            let mut open: Vec<(bool, [u8; 16], [u8; 16])> = vec![];
            let mut other_a = if decoy(o.len()) { Some(AES::new()) } else { None };
            let close = |a: &mut AES, open: &mut Vec<(bool, [u8; 16], [u8; 16])>, i: usize| -> Result<(), String> {
                for (enc, x, y) in open.drain(..) {
                    let (w, r) = if enc { ("decrypt(encrypt(block))", a.decrypt(&y)) } else { ("encrypt(decrypt(block))", a.encrypt(&y)) };
                    neq(&format!("call {}: {}", i, w), &r.map_err(|e| format!("call {}: {}: {:?}", i, w, e))?, &x)?;
                }
                Ok(())
            };
            for (i, op) in o.iter().enumerate() {
                match op {
                    Op::Init(k) => {
                        let k = k.get();
                        if mode == 1 {
                            close(&mut a, &mut open, i)?;
                        }
                        let r = a.init(&k);
                        open.clear();
                        if r.is_ok() {
                            ready = true;
                            for b in seen.clone() {
                                for enc in if i % 2 == 0 { [true, false] } else { [false, true] } {
                                    let y = if enc { a.encrypt(&b) } else { a.decrypt(&b) }.map_err(|e| format!("call {}: {:?}", i + 1, e))?;
                                    open.push((enc, b, y));
                                    close(&mut a, &mut open, i + 1)?;
                                }
                            }
                        }
                        if let Some(x) = &mut other_a {
                            let _ = x.init(&other(&k));
                            let _ = x.encrypt(&[7; 16]);
                        }
                    }
                    Op::Enc(b) | Op::Dec(b) => {
                        let enc = matches!(op, Op::Enc(_));
                        let b = arr(b);
                        let r = if enc { a.encrypt(&b) } else { a.decrypt(&b) };
                        if ready {
                            let y = r.map_err(|e| format!("call {}: {:?}", i + 1, e))?;
                            open.push((enc, b, y));
                            if seen.len() < 24 {
                                seen.extend([b, y]);
                            }
                            if mode == 2 {
                                close(&mut a, &mut open, i + 1)?;
                            }
                        }
                    }
                    _ => {}
                }
            }
            close(&mut a, &mut open, o.len())
        }
        (_, Case::AesHist(o)) => {
            let mut a = AES::new();
            let mut m: Option<Blk> = None;
            let mut other_a = if decoy(o.len()) { Some(AES::new()) } else { None };
            for (i, op) in o.iter().enumerate() {
                let what = format!("call {}", i + 1);
                match op {
                    Op::Init(k) => {
                        let k = k.get();
                        if init_res(&what, a.init(&k), &k)? {
                            m = Blk::new(true, &k);
                        }
                        if let Some(x) = &mut other_a {
                            let _ = x.init(&other(&k));
                            let _ = x.encrypt(&[7; 16]);
                        }
                    }
                    Op::Enc(b) => {
                        let w = m.as_ref().map(|m| m.enc(&arr(b)).to_vec()).ok_or("NotInitialized");
                        cmp_res(&what, a.encrypt(&arr(b)).map(|x| x.to_vec()), w)?;
                    }
                    Op::Dec(b) => {
                        let w = m.as_ref().map(|m| m.dec(&arr(b)).to_vec()).ok_or("NotInitialized");
                        cmp_res(&what, a.decrypt(&arr(b)).map(|x| x.to_vec()), w)?;
                    }
                    _ => {}
                }
            }
            Ok(())
        }
        (_, Case::Enc(iv, o)) => check_enc(iv, o, prop == "C10"),
        (_, Case::Dec(iv, o)) => check_dec(iv, o, prop == "C10" || prop == "C13"),
        (_, Case::Round(k, iv, m, cut)) => check_round(k, iv, m, *cut),
        (_, Case::DecPlain { key, iv, plain, extra, cut }) => dec_plain(key, iv, plain, extra, *cut),
    }
}

/// Ciphertext whose decryption is `plain` (whole blocks), then `extra` ciphertext bytes.
fn dec_plain(key: &B, iv: &B, plain: &B, extra: &B, cut: u64) -> Result<(), String> {
    let a = rf::Aes::new(&key.get()).unwrap();
    let mut v = arr(iv);
    let mut ct = Vec::new();
    for ch in plain.get().chunks(16) {
        let mut x = to16(ch);
        for j in 0..16 {
            x[j] ^= v[j];
        }
        v = a.enc(&x);
        ct.extend_from_slice(&v);
    }
    ct.extend(extra.get());
    let mut ops = vec![Op::Init(key.clone())];
    ops.extend(cuts(&ct, cut).into_iter().map(|w| Op::Write(B::Hex(w))));
    ops.push(Op::Flush);
    check_dec(iv, &ops, true)
}

fn misc(v: &[B]) -> Result<(), String> {
    // digests taken twice, updates after a digest, errors printed
    let mut s = SHA256::new();
    let mut h = HMac::new(&v.first().map(|b| b.get()).unwrap_or_default());
    for b in v {
        s.update(&b.get());
        h.update(&b.get());
        s.digest();
        h.digest();
    }
    s.digest();
    h.digest();
    errors_printed();
    Ok(())
}

/// the woven text has no formatting traits (see check.py, `lowered`)
#[cfg(woven)]
fn errors_printed() {}

#[cfg(not(woven))]
fn errors_printed() {
    for e in [ScryptError::RIsTooSmall, ScryptError::NIsTooSmall, ScryptError::NIsNotAPowerOfTwo, ScryptError::PIsTooSmall] {
        let _ = format!("{} {:?}", e, e);
    }
    for e in [AESError::InvalidKeySize, AESError::NotInitialized] {
        let _ = format!("{} {:?}", e, e);
    }
    use std::error::Error;
    let mut d = Decipher::new([0; 16]);
    let mut errs = vec![];
    errs.extend(d.flush().err());
    errs.extend(d.write(&[0; 16]).err());
    let mut d = Decipher::new([0; 16]);
    if d.init(&[0; 16]).is_ok() {
        let _ = d.write(&[0; 16]);
        errs.extend(d.flush().err());
    }
    for e in errs {
        #[allow(deprecated)]
        let _ = format!("{} {:?} {} {:?}", e, e, e.description(), e.source().is_some());
    }
}
