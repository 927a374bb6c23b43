//! Early returns of a helper that is inlined become the values of nested
//! conditionals: `if c { return x; } rest` is `if c { x } else { rest }`, a `?` is a
//! match, and a return inside a loop is a break with a note of which one it was.
use crate::lower::{diverges, has_return, returns};
use proc_macro2::Ident;
use quote::{format_ident, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Ret {
    pub n: usize,
    fuel: usize,
}

fn block(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn has(s: &Stmt) -> bool {
    let b = block(vec![s.clone()]);
    has_return(&b)
}
/// the statements of a branch, as far as they run before what follows
fn body(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
fn falls(v: &[Stmt]) -> bool {
    !diverges(v)
}
/// a branch whose value is not used
fn drop_value(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, s)) = v.last_mut() {
        if s.is_none() && !matches!(e, Expr::Return(_)) {
            *s = Some(Default::default());
        }
    }
    v
}
/// a branch whose value is bound to a pattern
fn bind_value(mut v: Vec<Stmt>, l: &Local) -> Option<Vec<Stmt>> {
    match v.pop()? {
        Stmt::Expr(e, None) => {
            let mut l = l.clone();
            l.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(e), diverge: None });
            v.push(Stmt::Local(l));
            Some(v)
        }
        _ => None,
    }
}

/// a value that is the same wherever it is written
fn constant(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Paren(p) => constant(&p.expr),
        Expr::Path(p) => {
            p.path.segments.len() > 1
                || p.path.segments[0].ident.to_string().starts_with(|c: char| c.is_uppercase())
        }
        Expr::Call(c) => constant(&c.func) && c.args.iter().all(constant),
        Expr::Tuple(t) => t.elems.iter().all(constant),
        Expr::Struct(_) => false,
        _ => false,
    }
}

struct LoopReturns<'a> {
    code: &'a Ident,
    vals: Vec<Expr>,
    bad: bool,
}
impl<'a> VisitMut for LoopReturns<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(r) => {
                let v: Expr = r.expr.as_deref().cloned().unwrap_or_else(|| parse_quote!(()));
                if !constant(&v) {
                    self.bad = true;
                    return;
                }
                let t = v.to_token_stream().to_string();
                let k = match self.vals.iter().position(|x| x.to_token_stream().to_string() == t) {
                    Some(k) => k,
                    None => {
                        self.vals.push(v);
                        self.vals.len() - 1
                    }
                };
                let c = self.code;
                let l = LitInt::new(&format!("{}u8", k + 1), proc_macro2::Span::call_site());
                *e = parse_quote!({ #c = #l; break; });
                return;
            }
            Expr::Try(_) => self.bad = true,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                if returns(e) {
                    self.bad = true;
                }
                return;
            }
            Expr::Closure(_) => return,
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl Ret {
    pub fn new(n: usize) -> Self {
        Ret { n, fuel: 64 }
    }
    fn fresh(&mut self) -> Ident {
        self.n += 1;
        format_ident!("__w{}", self.n)
    }

    /// what runs after a branch
    fn then(&mut self, v: Vec<Stmt>, rest: &[Stmt], used: &mut usize) -> Option<Vec<Stmt>> {
        if !falls(&v) {
            return self.go(v);
        }
        if rest.is_empty() {
            return self.go(v);
        }
        *used += 1;
        let mut v = drop_value(v);
        v.extend(rest.iter().cloned());
        self.go(v)
    }

    /// the first `?` that is evaluated, replaced by a variable
    fn hoist(&mut self, e: &mut Expr) -> Option<(Ident, Expr)> {
        fn quiet(e: &Expr) -> bool {
            match e {
                Expr::Path(_) | Expr::Lit(_) => true,
                Expr::Field(f) => quiet(&f.base),
                Expr::Paren(p) => quiet(&p.expr),
                Expr::Reference(r) => quiet(&r.expr),
                Expr::Unary(u) => quiet(&u.expr),
                _ => false,
            }
        }
        match e {
            Expr::Try(t) if !returns(&t.expr) => {
                let v = self.fresh();
                let x = (*t.expr).clone();
                *e = parse_quote!(#v);
                Some((v, x))
            }
            Expr::Try(t) => self.hoist(&mut t.expr),
            Expr::Paren(p) => self.hoist(&mut p.expr),
            Expr::Reference(p) => self.hoist(&mut p.expr),
            Expr::Unary(p) => self.hoist(&mut p.expr),
            Expr::Cast(p) => self.hoist(&mut p.expr),
            Expr::Field(p) => self.hoist(&mut p.base),
            Expr::Binary(b) if returns(&b.left) => self.hoist(&mut b.left),
            Expr::Binary(b) if quiet(&b.left) && !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => self.hoist(&mut b.right),
            Expr::Index(b) if returns(&b.expr) => self.hoist(&mut b.expr),
            Expr::Index(b) if quiet(&b.expr) => self.hoist(&mut b.index),
            Expr::Assign(a) if quiet(&a.left) => self.hoist(&mut a.right),
            Expr::Call(c) => {
                if !quiet(&c.func) {
                    return None;
                }
                for a in c.args.iter_mut() {
                    if returns(a) {
                        return self.hoist(a);
                    }
                    if !quiet(a) {
                        return None;
                    }
                }
                None
            }
            Expr::MethodCall(c) => {
                if returns(&c.receiver) {
                    return self.hoist(&mut c.receiver);
                }
                if !quiet(&c.receiver) {
                    return None;
                }
                for a in c.args.iter_mut() {
                    if returns(a) {
                        return self.hoist(a);
                    }
                    if !quiet(a) {
                        return None;
                    }
                }
                None
            }
            _ => None,
        }
    }

    /// statements without returns and the same value, if they can be found
    pub fn go(&mut self, stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
        self.fuel = self.fuel.checked_sub(1)?;
        let Some(k) = stmts.iter().position(has) else { return Some(stmts) };
        let mut out: Vec<Stmt> = stmts[..k].to_vec();
        let rest: Vec<Stmt> = stmts[k + 1..].to_vec();
        let mut used = 0;
        match stmts[k].clone() {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = r.expr {
                    out.extend(self.go(vec![Stmt::Expr(*e, None)])?);
                }
            }
            Stmt::Expr(Expr::If(mut i), semi) => {
                if returns(&i.cond) {
                    let (v, x) = self.hoist(&mut i.cond)?;
                    let mut s: Vec<Stmt> = vec![parse_quote!(let #v = #x?;), Stmt::Expr(Expr::If(i), semi)];
                    s.extend(rest);
                    out.extend(self.go(s)?);
                    return Some(out);
                }
                let a = self.then(i.then_branch.stmts.clone(), &rest, &mut used)?;
                let b = match &i.else_branch {
                    Some((_, e)) => self.then(body(e), &rest, &mut used)?,
                    None => self.then(vec![], &rest, &mut used)?,
                };
                if used > 1 {
                    return None;
                }
                i.then_branch = block(a);
                let b = block(b);
                i.else_branch = if b.stmts.is_empty() { None } else { Some((Default::default(), Box::new(parse_quote!(#b)))) };
                out.push(Stmt::Expr(Expr::If(i), None));
            }
            Stmt::Expr(Expr::Match(mut m), semi) => {
                if returns(&m.expr) {
                    let (v, x) = self.hoist(&mut m.expr)?;
                    let mut s: Vec<Stmt> = vec![parse_quote!(let #v = #x?;), Stmt::Expr(Expr::Match(m), semi)];
                    s.extend(rest);
                    out.extend(self.go(s)?);
                    return Some(out);
                }
                for a in m.arms.iter_mut() {
                    let b = block(self.then(body(&a.body), &rest, &mut used)?);
                    a.body = parse_quote!(#b);
                    a.comma = Some(Default::default());
                }
                if used > 1 {
                    return None;
                }
                out.push(Stmt::Expr(Expr::Match(m), None));
            }
            Stmt::Expr(Expr::Block(b), _) if b.label.is_none() && rest.is_empty() => {
                out.extend(self.go(b.block.stmts)?);
            }
            Stmt::Expr(Expr::Try(t), semi) if !returns(&t.expr) => {
                let x = &t.expr;
                let a = if rest.is_empty() && semi.is_none() {
                    parse_quote!(match #x { Ok(__ok) => __ok, Err(__er) => Err(__er), })
                } else {
                    let r = block(self.go(rest)?);
                    parse_quote!(match #x { Ok(_) => #r, Err(__er) => Err(__er), })
                };
                out.push(Stmt::Expr(a, None));
            }
            Stmt::Expr(mut e @ (Expr::ForLoop(_) | Expr::While(_)), _) => {
                let code = self.fresh();
                let (b, cond) = match &mut e {
                    Expr::ForLoop(f) => {
                        let c = (*f.expr).clone();
                        (&mut f.body, c)
                    }
                    Expr::While(f) => {
                        let c = (*f.cond).clone();
                        (&mut f.body, c)
                    }
                    _ => return None,
                };
                if returns(&cond) {
                    return None;
                }
                let mut l = LoopReturns { code: &code, vals: vec![], bad: false };
                l.visit_block_mut(b);
                if l.bad {
                    return None;
                }
                out.push(parse_quote!(let mut #code: u8 = 0;));
                let mut els = block(self.go(rest)?);
                for (k, v) in l.vals.iter().enumerate().rev() {
                    let n = LitInt::new(&format!("{}u8", k + 1), proc_macro2::Span::call_site());
                    els = parse_quote!({ if #code == #n { #v } else #els });
                }
                out.push(Stmt::Expr(e, Some(Default::default())));
                out.extend(els.stmts);
            }
            Stmt::Local(l) => {
                let i = l.init.clone()?;
                if let Some((_, d)) = &i.diverge {
                    if returns(&i.expr) {
                        return None;
                    }
                    let (p, x) = (&l.pat, &i.expr);
                    let a = block(self.go(rest)?);
                    let b = block(self.go(body(d))?);
                    out.push(Stmt::Expr(parse_quote!(match #x { #p => #a, _ => #b, }), None));
                    return Some(out);
                }
                match *i.expr {
                    Expr::Match(mut m) if !returns(&m.expr) => {
                        for a in m.arms.iter_mut() {
                            let v = body(&a.body);
                            let v = if falls(&v) {
                                used += 1;
                                let mut v = bind_value(v, &l)?;
                                v.extend(rest.iter().cloned());
                                v
                            } else {
                                v
                            };
                            let b = block(self.go(v)?);
                            a.body = parse_quote!(#b);
                            a.comma = Some(Default::default());
                        }
                        if used > 1 {
                            return None;
                        }
                        out.push(Stmt::Expr(Expr::Match(m), None));
                    }
                    Expr::If(mut f) if !returns(&f.cond) && f.else_branch.is_some() => {
                        let mut part = |me: &mut Self, v: Vec<Stmt>| -> Option<Block> {
                            let v = if falls(&v) {
                                used += 1;
                                let mut v = bind_value(v, &l)?;
                                v.extend(rest.iter().cloned());
                                v
                            } else {
                                v
                            };
                            Some(block(me.go(v)?))
                        };
                        f.then_branch = part(self, f.then_branch.stmts.clone())?;
                        let e = part(self, body(&f.else_branch.as_ref()?.1))?;
                        if used > 1 {
                            return None;
                        }
                        f.else_branch = Some((Default::default(), Box::new(parse_quote!(#e))));
                        out.push(Stmt::Expr(Expr::If(f), None));
                    }
                    Expr::Try(t) if !returns(&t.expr) => {
                        let x = &t.expr;
                        let v = self.fresh();
                        let mut l = l.clone();
                        l.init = Some(LocalInit { eq_token: Default::default(), expr: parse_quote!(#v), diverge: None });
                        let r = self.go(rest)?;
                        let s = Stmt::Local(l);
                        out.push(Stmt::Expr(
                            parse_quote!(match #x { Ok(#v) => { #s #(#r)* } Err(__er) => Err(__er), }),
                            None,
                        ));
                    }
                    mut e => {
                        let (v, x) = self.hoist(&mut e)?;
                        let mut l = l.clone();
                        l.init = Some(LocalInit { eq_token: Default::default(), expr: Box::new(e), diverge: None });
                        let mut s: Vec<Stmt> = vec![parse_quote!(let #v = #x?;), Stmt::Local(l)];
                        s.extend(rest);
                        out.extend(self.go(s)?);
                    }
                }
            }
            Stmt::Expr(Expr::Assign(a), _) if matches!(&*a.right, Expr::Match(_) | Expr::If(_)) => {
                let v = self.fresh();
                let (l, r) = (&a.left, &a.right);
                let mut s: Vec<Stmt> = vec![parse_quote!(let #v = #r;), parse_quote!(#l = #v;)];
                s.extend(rest);
                out.extend(self.go(s)?);
            }
            Stmt::Expr(mut e, semi) => {
                let (v, x) = self.hoist(&mut e)?;
                let mut s: Vec<Stmt> = vec![parse_quote!(let #v = #x?;), Stmt::Expr(e, semi)];
                s.extend(rest);
                out.extend(self.go(s)?);
            }
            _ => return None,
        }
        Some(out)
    }
}
