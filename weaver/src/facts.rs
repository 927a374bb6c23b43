//! Bit-level facts for expressions that are not the committed ones.
//!
//! The hints were written for the committed spelling of each integer expression. Where a function
//! has another spelling (`|` for `+`, `/ 256` for `>> 8`, another order), the operands get names and
//! the equations that connect both spellings are woven in, each as an assertion the bit-vector back
//! end has to prove. Which equations to try is decided by evaluating both sides on samples; that only
//! picks candidates, nothing is taken from it.
use crate::types::FileTypes;
use proc_macro2::Span;
use quote::{format_ident, ToTokens};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Leaf(usize),
    Lit(u64),
    Bin(&'static str, Box<N>, Box<N>),
    Not(Box<N>),
    Cast(Box<N>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct N {
    pub k: K,
    pub ty: String,
}
struct Leaf {
    expr: Expr,
    ty: String,
    text: String,
    by_ref: bool,
}

#[derive(Clone, Default)]
pub struct Base {
    /// committed bodies, by function
    pub bodies: HashMap<String, String>,
    /// committed expressions, by module
    pub texts: HashMap<String, HashSet<String>>,
    pub shapes: HashMap<String, Vec<(N, Vec<String>, Vec<String>)>>,
}

fn bits(t: &str) -> Option<u32> {
    Some(match t {
        "u8" => 8,
        "u16" => 16,
        "u32" => 32,
        "u64" | "usize" => 64,
        _ => return None,
    })
}
fn max(t: &str) -> u64 {
    match bits(t) {
        Some(64) | None => u64::MAX,
        Some(b) => (1 << b) - 1,
    }
}
fn text<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}
pub fn body_text(b: &Block) -> String {
    text(b)
}
const OPS: [&str; 10] = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"];
fn op(o: &BinOp) -> Option<&'static str> {
    Some(match o {
        BinOp::Add(_) => "+",
        BinOp::Sub(_) => "-",
        BinOp::Mul(_) => "*",
        BinOp::Div(_) => "/",
        BinOp::Rem(_) => "%",
        BinOp::BitAnd(_) => "&",
        BinOp::BitOr(_) => "|",
        BinOp::BitXor(_) => "^",
        BinOp::Shl(_) => "<<",
        BinOp::Shr(_) => ">>",
        _ => return None,
    })
}

impl N {
    fn each<'a>(&'a self, f: &mut dyn FnMut(&'a N)) {
        f(self);
        match &self.k {
            K::Bin(_, a, b) => {
                a.each(f);
                b.each(f);
            }
            K::Not(a) | K::Cast(a) => a.each(f),
            _ => {}
        }
    }
    fn ops(&self) -> usize {
        let mut n = 0;
        self.each(&mut |x| n += !matches!(x.k, K::Leaf(_) | K::Lit(_)) as usize);
        n
    }
    fn bitty(&self) -> bool {
        let mut r = false;
        self.each(&mut |x| r |= matches!(x.k, K::Bin("&" | "|" | "^" | "<<" | ">>", ..) | K::Not(_)));
        r
    }
    /// a product of two values neither of which is a literal
    fn nonlinear(&self) -> bool {
        let mut r = false;
        self.each(&mut |x| {
            if let K::Bin("*", a, b) = &x.k {
                r |= !a.leaves().is_empty() && !b.leaves().is_empty();
            }
        });
        r
    }
    fn sums(&self) -> bool {
        let mut r = true;
        self.each(&mut |x| r &= matches!(x.k, K::Leaf(_) | K::Lit(_) | K::Bin("+" | "-" | "*", ..)));
        r
    }
    fn leaves(&self) -> Vec<usize> {
        let mut v = vec![];
        self.each(&mut |x| {
            if let K::Leaf(i) = x.k {
                if !v.contains(&i) {
                    v.push(i)
                }
            }
        });
        v
    }
    fn map(&self, f: &dyn Fn(usize) -> usize) -> N {
        let k = match &self.k {
            K::Leaf(i) => K::Leaf(f(*i)),
            K::Lit(x) => K::Lit(*x),
            K::Bin(o, a, b) => K::Bin(o, Box::new(a.map(f)), Box::new(b.map(f))),
            K::Not(a) => K::Not(Box::new(a.map(f))),
            K::Cast(a) => K::Cast(Box::new(a.map(f))),
        };
        N { k, ty: self.ty.clone() }
    }
    /// None: an overflow, a division by zero, or a shift by too much
    fn eval(&self, v: &[u64]) -> Option<u64> {
        let m = max(&self.ty);
        Some(match &self.k {
            K::Leaf(i) => v[*i] & m,
            K::Lit(x) => *x,
            K::Not(a) => !a.eval(v)? & m,
            K::Cast(a) => a.eval(v)? & m,
            K::Bin(o, a, b) => {
                let (x, y) = (a.eval(v)?, b.eval(v)?);
                let r = match *o {
                    "+" => x.checked_add(y)?,
                    "-" => x.checked_sub(y)?,
                    "*" => x.checked_mul(y)?,
                    "/" => x.checked_div(y)?,
                    "%" => x.checked_rem(y)?,
                    "&" => x & y,
                    "|" => x | y,
                    "^" => x ^ y,
                    "<<" | ">>" => {
                        if y >= bits(&self.ty)? as u64 {
                            return None;
                        }
                        if *o == "<<" {
                            (x << y) & m
                        } else {
                            x >> y
                        }
                    }
                    _ => return None,
                };
                if r > m {
                    return None;
                }
                r
            }
        })
    }
    fn ints(&self) -> String {
        match &self.k {
            K::Leaf(i) => format!("$__l{}", i),
            K::Lit(x) => format!("{}", x),
            K::Bin(o @ ("+" | "-" | "*"), a, b) => format!("({} {} {})", a.ints(), o, b.ints()),
            _ => self.show(),
        }
    }
    fn show(&self) -> String {
        match &self.k {
            K::Leaf(i) => format!("$__l{}", i),
            K::Lit(x) => format!("{}{}", x, self.ty),
            K::Not(a) => format!("(!{})", a.show()),
            K::Cast(a) => format!("({} as {})", a.show(), self.ty),
            K::Bin(o @ ("+" | "-" | "*"), a, b) => format!("(({} {} {}) as {})", a.show(), o, b.show(), self.ty),
            K::Bin(o @ ("<<" | ">>"), a, b) if b.ty != a.ty && !matches!(b.k, K::Lit(_)) => {
                format!("({} {} ({} as {}))", a.show(), o, b.show(), a.ty)
            }
            K::Bin(o, a, b) => format!("({} {} {})", a.show(), o, b.show()),
        }
    }
    fn ser(&self) -> Value {
        match &self.k {
            K::Leaf(i) => json!(["L", self.ty, i]),
            K::Lit(x) => json!(["#", self.ty, x]),
            K::Not(a) => json!(["!", self.ty, a.ser()]),
            K::Cast(a) => json!(["as", self.ty, a.ser()]),
            K::Bin(o, a, b) => json!([o, self.ty, a.ser(), b.ser()]),
        }
    }
    fn de(v: &Value) -> Option<N> {
        let (o, ty) = (v[0].as_str()?, v[1].as_str()?.to_string());
        let k = match o {
            "L" => K::Leaf(v[2].as_u64()? as usize),
            "#" => K::Lit(v[2].as_u64()?),
            "!" => K::Not(Box::new(N::de(&v[2])?)),
            "as" => K::Cast(Box::new(N::de(&v[2])?)),
            _ => K::Bin(OPS.iter().find(|x| **x == o)?, Box::new(N::de(&v[2])?), Box::new(N::de(&v[3])?)),
        };
        Some(N { k, ty })
    }
}

struct Parser<'a> {
    ft: Option<&'a FileTypes>,
    leaves: Vec<Leaf>,
}
impl<'a> Parser<'a> {
    fn ty(&self, e: &Expr) -> Option<String> {
        if let Expr::Paren(p) = e {
            return self.ty(&p.expr);
        }
        let s = e.span();
        let (a, b) = (s.start(), s.end());
        self.ft?.expr.get(&(a.line, a.column, b.line, b.column)).cloned()
    }
    fn leaf(&mut self, e: &Expr) -> Option<N> {
        let t = self.ty(e)?;
        let v = t.trim_start_matches("&mut ").trim_start_matches('&').trim().to_string();
        bits(&v)?;
        let by_ref = v != t;
        if by_ref && t.matches('&').count() > 1 {
            return None;
        }
        let x = text(e);
        let pure_ = !x.contains('(') && !x.contains('!');
        if pure_ {
            if let Some(i) = self.leaves.iter().position(|l| l.text == x && l.ty == v) {
                return Some(N { k: K::Leaf(i), ty: v });
            }
        }
        self.leaves.push(Leaf { expr: e.clone(), ty: v.clone(), text: x, by_ref });
        Some(N { k: K::Leaf(self.leaves.len() - 1), ty: v })
    }
    fn lit(&self, e: &Expr, want: Option<&str>) -> Option<N> {
        match e {
            Expr::Paren(p) => self.lit(&p.expr, want),
            Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => {
                let t = if i.suffix().is_empty() {
                    match want {
                        Some(w) => w.to_string(),
                        None => self.ty(e).filter(|t| bits(t).is_some())?,
                    }
                } else {
                    i.suffix().to_string()
                };
                bits(&t)?;
                Some(N { k: K::Lit(i.base10_parse().ok()?), ty: t })
            }
            _ => None,
        }
    }
    fn node(&mut self, e: &Expr) -> Option<N> {
        match e {
            Expr::Paren(p) => self.node(&p.expr),
            Expr::Group(p) => self.node(&p.expr),
            Expr::Lit(_) => self.lit(e, None),
            Expr::Binary(b) => {
                let o = op(&b.op)?;
                let shift = o == "<<" || o == ">>";
                // a literal takes the other side's type
                let (x, y) = match (self.lit(&b.left, Some("u8")), self.lit(&b.right, Some("u8"))) {
                    (Some(_), Some(_)) => {
                        let t = self.ty(e).filter(|t| bits(t).is_some())?;
                        (self.lit(&b.left, Some(&t))?, self.lit(&b.right, Some(&t))?)
                    }
                    (Some(_), None) if !shift => {
                        let y = self.node(&b.right)?;
                        (self.lit(&b.left, Some(&y.ty))?, y)
                    }
                    (None, Some(_)) => {
                        let x = self.node(&b.left)?;
                        let t = x.ty.clone();
                        (x, self.lit(&b.right, Some(&t))?)
                    }
                    _ => (self.node(&b.left)?, self.node(&b.right)?),
                };
                if x.ty != y.ty && !shift {
                    return None;
                }
                let ty = x.ty.clone();
                Some(N { k: K::Bin(o, Box::new(x), Box::new(y)), ty })
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                let x = self.node(&u.expr)?;
                let ty = x.ty.clone();
                Some(N { k: K::Not(Box::new(x)), ty })
            }
            Expr::Cast(c) => {
                let t = text(&c.ty);
                bits(&t)?;
                let x = self.node(&c.expr)?;
                Some(N { k: K::Cast(Box::new(x)), ty: t })
            }
            Expr::Call(c) => {
                let f = text(&c.func);
                if let Some(t) = f.strip_suffix("::from") {
                    if bits(t).is_some() && c.args.len() == 1 {
                        let n = self.leaves.len();
                        if let Some(x) = self.node(&c.args[0]) {
                            return Some(N { k: K::Cast(Box::new(x)), ty: t.to_string() });
                        }
                        self.leaves.truncate(n);
                    }
                }
                self.leaf(e)
            }
            Expr::Path(_) | Expr::Field(_) | Expr::Index(_) | Expr::MethodCall(_) | Expr::Macro(_) => self.leaf(e),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.leaf(e),
            _ => None,
        }
    }
    /// the expression over the names of its leaves; everything keeps its place in the source
    fn rebuild(&self, e: &Expr, i: &mut usize, order: &[usize]) -> Expr {
        let mut e = e.clone();
        match &mut e {
            Expr::Lit(_) => {}
            Expr::Paren(p) => *p.expr = self.rebuild(&p.expr, i, order),
            Expr::Group(p) => *p.expr = self.rebuild(&p.expr, i, order),
            Expr::Binary(b) => {
                *b.left = self.rebuild(&b.left, i, order);
                *b.right = self.rebuild(&b.right, i, order);
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => *u.expr = self.rebuild(&u.expr, i, order),
            Expr::Cast(c) => *c.expr = self.rebuild(&c.expr, i, order),
            _ => {
                let n = order.get(*i).copied().unwrap_or(0);
                if let Expr::Call(c) = &mut e {
                    let f = text(&c.func);
                    let from = f.strip_suffix("::from").is_some_and(|t| bits(t).is_some()) && c.args.len() == 1;
                    // a conversion is part of the expression unless it was taken for a leaf
                    if from && self.leaves.get(n).is_some_and(|l| l.text != text(&e)) {
                        if let Expr::Call(c) = &mut e {
                            c.args[0] = self.rebuild(&c.args[0], i, order);
                        }
                        return e;
                    }
                }
                *i += 1;
                let at = if self.leaves.get(n).is_some_and(|l| l.by_ref) { Span::call_site() } else { e.span() };
                let id = Ident::new(&format!("__l{}", n), at);
                e = parse_quote!(#id);
            }
        }
        e
    }
}
/// the leaves in the order they are read
fn order(n: &N) -> Vec<usize> {
    let mut v = vec![];
    n.each(&mut |x| {
        if let K::Leaf(i) = x.k {
            v.push(i)
        }
    });
    v
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545f4914f6cdd1d)
    }
    fn sample(&mut self, n: usize) -> Vec<u64> {
        let small = self.next() % 3;
        (0..n)
            .map(|_| {
                let x = self.next();
                match (small, x % 7) {
                    (0, _) => x >> 8 & 0x3f,
                    (_, 0) => 0,
                    (_, 1) => u64::MAX,
                    _ => x.rotate_left(9),
                }
            })
            .collect()
    }
}
/// equal wherever both are defined
fn same(a: &N, b: &N, leaves: usize, cap: u64) -> bool {
    let mut r = Rng(0x9e3779b97f4a7c15);
    let mut hits = 0;
    for _ in 0..600 {
        let v: Vec<u64> = r.sample(leaves).into_iter().map(|x| x & cap).collect();
        if let (Some(x), Some(y)) = (a.eval(&v), b.eval(&v)) {
            if x != y {
                return false;
            }
            hits += 1;
        }
    }
    hits > 50
}
/// no overflow wherever the operands are defined
fn never_overflows(x: &N, a: &N, b: &N, leaves: usize, cap: u64) -> bool {
    let mut r = Rng(0x1234567);
    let mut hits = 0;
    for _ in 0..600 {
        let v: Vec<u64> = r.sample(leaves).into_iter().map(|x| x & cap).collect();
        if a.eval(&v).is_some() && b.eval(&v).is_some() {
            if x.eval(&v).is_none() {
                return false;
            }
            hits += 1;
        }
    }
    hits > 50
}
/// what the code itself has to meet where it computes the expression
fn defined(x: &N, o: &mut Vec<String>) {
    x.each(&mut |y| {
        if let K::Bin(p @ ("<<" | ">>"), _, b) = &y.k {
            if !matches!(b.k, K::Lit(_)) {
                let _ = p;
                // the amount over the integers
                o.push(format!("{} < {}", b.ints(), bits(&y.ty).unwrap_or(0)));
                o.push(format!("{} >= 0", b.ints()));
            }
        }
    });
    o.sort();
    o.dedup();
}
fn bounded(leaves: &[Leaf], used: &[usize], cap: u64) -> String {
    used.iter()
        .filter(|i| max(&leaves[**i].ty) > cap)
        .map(|i| format!("$__l{} <= {}", i, cap))
        .collect::<Vec<_>>()
        .join(" && ")
}
fn under(c: &str, t: String) -> String {
    if c.is_empty() {
        t
    } else {
        format!("{} ==> {}", c, t)
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in perms(n - 1) {
        for i in (0..n).rev() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            o.push(q);
        }
    }
    o
}

fn proof(o: &mut Vec<String>, a: String) {
    proof_in(o, a, &[])
}
fn proof_in(o: &mut Vec<String>, a: String, req: &[String]) {
    let r = if req.is_empty() { String::new() } else { format!(" requires {}", req.join(", ")) };
    let t = format!("proof {{ assert({}) by (bit_vector){}; }}", a, r);
    if !o.contains(&t) {
        o.push(t);
    }
}

fn facts(n: &N, leaves: &[Leaf], shapes: &[(N, Vec<String>, Vec<String>)]) -> Vec<String> {
    let mut o = vec![];
    let total = leaves.len();
    let mut nodes = vec![];
    n.each(&mut |x| nodes.push(x));
    for x in nodes.iter().rev() {
        if let K::Bin(p, a, b) = &x.k {
            let (s, t) = (a.show(), b.show());
            match (*p, &b.k) {
                ("&" | "|" | "^", _) => proof(&mut o, format!("({} {} {}) == ({} {} {})", s, p, t, t, p, s)),
                _ => {}
            }
            let lit = |k: &K| if let K::Lit(v) = k { Some(*v) } else { None };
            match (*p, lit(&b.k)) {
                (">>", Some(k)) if k < bits(&x.ty).unwrap_or(0) as u64 => {
                    proof(&mut o, format!("{} == {} / {}{}", x.show(), s, 1u64 << k, x.ty))
                }
                ("/", Some(c)) if c.is_power_of_two() => proof(&mut o, format!("{} == {} >> {}{}", x.show(), s, c.trailing_zeros(), x.ty)),
                ("%", Some(c)) if c.is_power_of_two() => proof(&mut o, format!("{} == {} & {}{}", x.show(), s, c - 1, x.ty)),
                ("<<", Some(k)) if k > 0 && k < bits(&x.ty).unwrap_or(0) as u64 => {
                    proof(&mut o, format!("{} <= {}{} ==> {} == {} * {}", s, max(&x.ty) >> k, x.ty, x.show(), s, 1u64 << k))
                }
                ("*", Some(c)) if c.is_power_of_two() && x.ty != "usize" => proof(
                    &mut o,
                    format!("{} <= {}{} ==> {} << {}{} == {} * {}", s, max(&x.ty) / c, x.ty, s, c.trailing_zeros(), x.ty, s, c),
                ),
                _ => {}
            }
            for (m, y, z) in [(lit(&b.k), &s, a), (lit(&a.k), &t, b)] {
                if let (Some(m), "&") = (m, *p) {
                    if m < u64::MAX && (m + 1).is_power_of_two() && m > 0 {
                        if m == max(&z.ty) {
                            proof(&mut o, format!("{} == {}", x.show(), y));
                        } else {
                            proof(&mut o, format!("{} == {} % {}{}", x.show(), y, m + 1, x.ty));
                        }
                    }
                }
            }
            if *p == "+" && x.bitty() && bits(&x.ty).unwrap_or(64) <= 64 {
                for cap in [u64::MAX, 255] {
                    if never_overflows(x, a, b, total, cap) {
                        let c = bounded(leaves, &x.leaves(), cap);
                        let mut req = vec![];
                        defined(x, &mut req);
                        let sum = format!("({} as u128) + ({} as u128) <= {}", s, t, max(&x.ty));
                        proof_in(&mut o, under(&c, sum), &req);
                        let or = format!("({} | {})", s, t);
                        let xor = N { k: K::Bin("|", a.clone(), b.clone()), ty: x.ty.clone() };
                        if same(x, &xor, total, cap) {
                            proof_in(&mut o, under(&c, format!("{} == {}", x.show(), or)), &req);
                        }
                        break;
                    }
                }
            }
        }
        // a cast that drops what a mask keeps
        if let K::Cast(y) = &x.k {
            if let K::Bin(p, a, b) = &y.k {
                let m = max(&x.ty);
                for (l, z) in [(&b.k, a), (&a.k, b)] {
                    let keeps = match (l, *p) {
                        (K::Lit(v), "&") => v & m == m,
                        (K::Lit(v), "%") => std::ptr::eq(z, a) && *v != 0 && m < u64::MAX && v % (m + 1) == 0 && v.is_power_of_two(),
                        _ => false,
                    };
                    if keeps {
                        proof(&mut o, format!("{} == ({} as {})", x.show(), z.show(), x.ty));
                    }
                }
            }
        }
        // the committed spellings of the same function
        if x.ops() < 2 && !matches!(x.k, K::Cast(_)) {
            continue;
        }
        let mine = x.leaves();
        let mut found = 0;
        let own = |btx: &Vec<String>| btx.iter().all(|t| mine.iter().any(|i| leaves[*i].text == *t));
        let first = shapes.iter().filter(|s| own(&s.2)).chain(shapes.iter().filter(|s| !own(&s.2)));
        for (b, bt, btx) in first {
            if found >= 3 || b.ty != x.ty || bt.len() != mine.len() || !(b.bitty() || x.bitty() || b.nonlinear() && x.nonlinear() && b.sums() && x.sums()) {
                continue;
            }
            let cand: Vec<Vec<usize>> = {
                // by the same operands, else in any order
                let by_text: Option<Vec<usize>> =
                    btx.iter().map(|t| mine.iter().copied().find(|i| leaves[*i].text == *t)).collect();
                match by_text {
                    Some(v) => vec![v],
                    None if mine.len() <= 8 => perms(mine.len()).into_iter().map(|p| p.into_iter().map(|i| mine[i]).collect()).collect(),
                    None => vec![],
                }
            };
            for p in cand {
                if p.iter().zip(bt).any(|(i, t)| leaves[*i].ty != *t) {
                    continue;
                }
                let y = b.map(&|i| p[i]);
                if y == **x {
                    break;
                }
                if let Some(cap) = [u64::MAX, 255].into_iter().find(|c| same(x, &y, total, *c)) {
                    if x.nonlinear() && x.sums() {
                        let t = format!("proof {{ assert({} == {}) by (nonlinear_arith); }}", x.ints(), y.ints());
                        if cap == u64::MAX && !o.contains(&t) {
                            o.push(t);
                            found += 1;
                        }
                        break;
                    }
                    let mut req = vec![];
                    defined(x, &mut req);
                    defined(&y, &mut req);
                    let c = bounded(leaves, &mine, cap);
                    let n = o.len();
                    proof_in(&mut o, under(&c, format!("{} == {}", x.show(), y.show())), &req);
                    found += (o.len() > n) as usize;
                    break;
                }
            }
        }
    }
    o
}

struct Visitor<'a> {
    ft: Option<&'a FileTypes>,
    texts: &'a HashSet<String>,
    shapes: &'a [(N, Vec<String>, Vec<String>)],
    /// facts for the statement at hand, over its variables
    pending: Vec<String>,
    place: bool,
    header: bool,
    closure: bool,
    count: usize,
}
impl<'a> Visitor<'a> {
    fn candidate(e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => Self::candidate(&p.expr),
            Expr::Binary(b) => op(&b.op).is_some(),
            Expr::Unary(u) => matches!(u.op, UnOp::Not(_)),
            Expr::Cast(_) => true,
            _ => false,
        }
    }
    /// true when the expression (not its leaves) is dealt with
    fn try_expr(&mut self, e: &mut Expr) -> bool {
        let mut p = Parser { ft: self.ft, leaves: vec![] };
        let n = match p.node(e) {
            Some(n) if n.ops() > 0 && (!p.leaves.is_empty() || n.bitty()) && p.leaves.len() <= 12 => n,
            _ => return false,
        };
        if self.texts.contains(&text(e)) {
            return false;
        }
        let f = facts(&n, &p.leaves, self.shapes);
        if f.is_empty() {
            return false;
        }
        let simple = p.leaves.iter().all(|l| matches!(&l.expr, Expr::Path(q) if q.path.segments.len() == 1) && !l.by_ref)
            && !self.closure
            && !p.leaves.iter().any(|l| l.text.chars().all(|c| c.is_uppercase() || c == '_' || c.is_ascii_digit()));
        if simple {
            for x in f {
                let mut x = x;
                for (i, l) in p.leaves.iter().enumerate().rev() {
                    x = x.replace(&format!("$__l{}", i), &format!("$__n_{}", l.text));
                }
                self.pending.push(x);
            }
            return true;
        }
        if self.place {
            return false;
        }
        let ord = order(&n);
        let mut i = 0;
        let v = p.rebuild(e, &mut i, &ord);
        if i != ord.len() {
            return false;
        }
        let mut st: Vec<Stmt> = vec![];
        for (i, l) in p.leaves.iter_mut().enumerate() {
            let id = format_ident!("__l{}", i);
            let t: Type = parse_str(&l.ty).unwrap();
            self.inside(&mut l.expr);
            let x = &l.expr;
            st.push(if l.by_ref { parse_quote!(let #id: #t = *#x;) } else { parse_quote!(let #id: #t = #x;) });
        }
        let lit = LitStr::new(&f.join("\n"), Span::call_site());
        st.push(parse_quote!(__weave_fact!(#lit);));
        *e = parse_quote!({ #(#st)* #v });
        self.count += 1;
        true
    }
    /// the parts of a leaf
    fn inside(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
    }
}
impl<'a> VisitMut for Visitor<'a> {
    fn visit_type_mut(&mut self, _: &mut Type) {}
    fn visit_expr_repeat_mut(&mut self, r: &mut ExprRepeat) {
        self.visit_expr_mut(&mut r.expr);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if Self::candidate(e) && !self.header && self.try_expr(e) {
            return;
        }
        match e {
            Expr::Assign(a) => {
                let p = std::mem::replace(&mut self.place, true);
                self.visit_expr_mut(&mut a.left);
                self.place = p;
                self.visit_expr_mut(&mut a.right);
            }
            Expr::Binary(b) if op(&b.op).is_none() && text(&b.op).ends_with('=') && !matches!(text(&b.op).as_str(), "==" | "!=" | "<=" | ">=") => {
                let p = std::mem::replace(&mut self.place, true);
                self.visit_expr_mut(&mut b.left);
                self.place = p;
                self.visit_expr_mut(&mut b.right);
            }
            Expr::Reference(r) => {
                let p = std::mem::replace(&mut self.place, true);
                self.visit_expr_mut(&mut r.expr);
                self.place = p;
            }
            Expr::MethodCall(m) => {
                let p = std::mem::replace(&mut self.place, true);
                self.visit_expr_mut(&mut m.receiver);
                self.place = false;
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                self.place = p;
            }
            Expr::Call(c) => {
                let p = std::mem::replace(&mut self.place, false);
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                self.place = p;
            }
            Expr::Index(x) => {
                self.visit_expr_mut(&mut x.expr);
                let p = std::mem::replace(&mut self.place, false);
                self.visit_expr_mut(&mut x.index);
                self.place = p;
            }
            Expr::ForLoop(f) => {
                let h = std::mem::replace(&mut self.header, true);
                self.visit_expr_mut(&mut f.expr);
                self.header = h;
                self.visit_block_mut(&mut f.body);
            }
            Expr::While(w) => {
                let h = std::mem::replace(&mut self.header, true);
                self.visit_expr_mut(&mut w.cond);
                self.header = h;
                self.visit_block_mut(&mut w.body);
            }
            Expr::Closure(c) => {
                let s = (self.header, self.place, self.closure);
                (self.header, self.place, self.closure) = (false, false, true);
                self.visit_expr_mut(&mut c.body);
                (self.header, self.place, self.closure) = s;
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let s = (self.header, self.place, self.closure, std::mem::take(&mut self.pending));
        (self.header, self.place, self.closure) = (false, false, false);
        let mut out = vec![];
        for mut st in std::mem::take(&mut b.stmts) {
            self.visit_stmt_mut(&mut st);
            let p = std::mem::take(&mut self.pending);
            if !p.is_empty() {
                self.count += 1;
                let lit = LitStr::new(&p.join("\n"), Span::call_site());
                out.push(parse_quote!(__weave_fact!(#lit);));
            }
            out.push(st);
        }
        b.stmts = out;
        (self.header, self.place, self.closure, self.pending) = s;
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

/// `return e;` in the last place is `e`
pub fn tail(b: &mut Block) {
    struct C;
    impl VisitMut for C {
        fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
            visit_mut::visit_expr_closure_mut(self, c);
            if let Expr::Return(ExprReturn { expr: Some(e), .. }) = &*c.body {
                *c.body = (**e).clone();
            }
            if let Expr::Block(x) = &mut *c.body {
                strip_tail(&mut x.block);
            }
        }
    }
    C.visit_block_mut(b);
    strip_tail(b);
}
fn strip_tail(b: &mut Block) {
    fn ends(b: &Block) -> bool {
        match b.stmts.last() {
            Some(Stmt::Expr(e, _)) => leaves(e),
            _ => false,
        }
    }
    fn leaves(e: &Expr) -> bool {
        match e {
            Expr::Return(r) => r.expr.is_some(),
            Expr::Block(b) => b.label.is_none() && ends(&b.block),
            Expr::If(f) => ends(&f.then_branch) && f.else_branch.as_ref().is_some_and(|x| leaves(&x.1)),
            Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| leaves(&a.body)),
            _ => false,
        }
    }
    fn strip(e: &mut Expr) {
        match e {
            Expr::Return(r) => *e = *r.expr.clone().unwrap(),
            Expr::Block(b) => strip_tail(&mut b.block),
            Expr::If(f) => {
                strip_tail(&mut f.then_branch);
                if let Some((_, x)) = &mut f.else_branch {
                    strip(x);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| strip(&mut a.body)),
            _ => {}
        }
    }
    if ends(b) {
        if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
            strip(e);
            *semi = None;
        }
    }
}

/// `x = x + c` and negated comparisons, the way the committed code writes them
struct Plain<'a>(Option<&'a FileTypes>);
impl<'a> Plain<'a> {
    fn int(&self, e: &Expr) -> bool {
        let s = e.span();
        let k = (s.start().line, s.start().column, s.end().line, s.end().column);
        matches!(e, Expr::Lit(_)) || self.0.and_then(|f| f.expr.get(&k)).is_some_and(|t| bits(t).is_some())
    }
    fn bare(e: &Expr) -> &Expr {
        match e {
            Expr::Paren(p) => Self::bare(&p.expr),
            e => e,
        }
    }
    fn negated(&self, e: &Expr) -> Option<Expr> {
        let Expr::Unary(u) = e else { return None };
        let (UnOp::Not(_), Expr::Binary(b)) = (&u.op, Self::bare(&u.expr)) else { return None };
        if !self.int(Self::bare(&b.left)) && !self.int(Self::bare(&b.right)) {
            return None;
        }
        let mut b = b.clone();
        b.op = match b.op {
            BinOp::Lt(_) => BinOp::Ge(Default::default()),
            BinOp::Le(_) => BinOp::Gt(Default::default()),
            BinOp::Gt(_) => BinOp::Le(Default::default()),
            BinOp::Ge(_) => BinOp::Lt(Default::default()),
            BinOp::Eq(_) => BinOp::Ne(Default::default()),
            BinOp::Ne(_) => BinOp::Eq(Default::default()),
            _ => return None,
        };
        Some(Expr::Binary(b))
    }
}
impl<'a> VisitMut for Plain<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(x) = self.negated(e) {
            *e = x;
            return;
        }
        let Expr::Assign(a) = &*e else { return };
        let (Expr::Path(p), Expr::Binary(b)) = (&*a.left, Self::bare(&a.right)) else { return };
        if p.path.segments.len() != 1 || !self.int(&a.left) {
            return;
        }
        let is = |x: &Expr| text(Self::bare(x)) == text(&a.left);
        let (l, r) = (&*b.left, Self::bare(&b.right));
        *e = match b.op {
            BinOp::Add(_) if is(l) => parse_quote!(#p += #r),
            BinOp::Sub(_) if is(l) => parse_quote!(#p -= #r),
            BinOp::Add(_) if is(r) && matches!(Self::bare(l), Expr::Lit(_)) => {
                let l = Self::bare(l);
                parse_quote!(#p += #l)
            }
            _ => return,
        };
    }
    fn visit_macro_mut(&mut self, _: &mut Macro) {}
}

pub fn apply(key: &str, block: &mut Block, ft: Option<&FileTypes>, base: &Base) -> usize {
    let module = key.split("::").next().unwrap_or("");
    if base.bodies.get(key).map_or(true, |t| *t == body_text(block)) && base.bodies.contains_key(key) || base.bodies.is_empty() {
        return 0;
    }
    let none = HashSet::new();
    let nos = vec![];
    let mut v = Visitor {
        ft,
        texts: base.texts.get(module).unwrap_or(&none),
        shapes: base.shapes.get(module).unwrap_or(&nos),
        pending: vec![],
        place: false,
        header: false,
        closure: false,
        count: 0,
    };
    Plain(ft).visit_block_mut(block);
    v.visit_block_mut(block);
    v.count
}

/// what the committed text has: the body and its integer expressions
pub fn record(block: &Block, ft: Option<&FileTypes>) -> Value {
    struct R<'a> {
        ft: Option<&'a FileTypes>,
        texts: Vec<String>,
        shapes: Vec<Value>,
    }
    impl<'a, 'b> visit::Visit<'b> for R<'a> {
        fn visit_type(&mut self, _: &'b Type) {}
        fn visit_expr(&mut self, e: &'b Expr) {
            if Visitor::candidate(e) {
                let mut p = Parser { ft: self.ft, leaves: vec![] };
                if let Some(n) = p.node(e) {
                    self.texts.push(text(e));
                    let mut nodes = vec![];
                    n.each(&mut |x| nodes.push(x));
                    for x in nodes {
                        let l = x.leaves();
                        if x.ops() > 0 && (x.bitty() || x.nonlinear() && x.sums()) && !l.is_empty() && l.len() <= 8 {
                            let y = x.map(&|i| l.iter().position(|j| *j == i).unwrap());
                            let t: Vec<&String> = l.iter().map(|i| &p.leaves[*i].ty).collect();
                            let s: Vec<&String> = l.iter().map(|i| &p.leaves[*i].text).collect();
                            self.shapes.push(json!([y.ser(), t, s]));
                        }
                    }
                }
            }
            visit::visit_expr(self, e);
        }
    }
    let mut r = R { ft, texts: vec![], shapes: vec![] };
    visit::Visit::visit_block(&mut r, block);
    json!({"body": body_text(block), "texts": r.texts, "shapes": r.shapes})
}

pub fn load(path: &str) -> Base {
    let mut b = Base::default();
    let v: Value = match std::fs::read_to_string(path).ok().and_then(|t| serde_json::from_str(&t).ok()) {
        Some(v) => v,
        None => return b,
    };
    for (k, x) in v.as_object().into_iter().flatten() {
        let module = k.split("::").next().unwrap_or("").to_string();
        b.bodies.insert(k.clone(), x["body"].as_str().unwrap_or("").to_string());
        for t in x["texts"].as_array().into_iter().flatten() {
            b.texts.entry(module.clone()).or_default().insert(t.as_str().unwrap_or("").to_string());
        }
        for s in x["shapes"].as_array().into_iter().flatten() {
            let strs = |v: &Value| -> Vec<String> { v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(|x| x.to_string())).collect() };
            if let Some(n) = N::de(&s[0]) {
                let e = (n, strs(&s[1]), strs(&s[2]));
                let l = b.shapes.entry(module.clone()).or_default();
                if !l.contains(&e) {
                    l.push(e);
                }
            }
        }
    }
    b
}
