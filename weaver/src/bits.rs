//! Straight-line integer functions as one expression, so that their bit-level
//! contract can be decided by the bit-vector back end however they are written.
use proc_macro2::Span;
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::*;

pub struct Bits<'a> {
    /// spec function standing for a call, by callee name
    pub calls: &'a dyn Fn(&str) -> Option<String>,
    /// call text -> variable
    pub vars: BTreeMap<String, Ident>,
}

type Env = HashMap<String, Expr>;

fn text<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn is_int(t: &str) -> bool {
    matches!(t, "u8" | "u16" | "u32" | "u64" | "usize")
}

impl<'a> Bits<'a> {
    pub fn block(&mut self, b: &Block, env: &Env) -> Option<Expr> {
        let mut env = env.clone();
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let init = l.init.as_ref()?;
                    if init.diverge.is_some() {
                        return None;
                    }
                    let mut p = &l.pat;
                    if let Pat::Type(t) = p {
                        p = &t.pat;
                    }
                    let v = self.expr(&init.expr, &env)?;
                    match p {
                        Pat::Ident(id) if id.subpat.is_none() && id.by_ref.is_none() => {
                            env.insert(id.ident.to_string(), v);
                        }
                        Pat::Wild(_) => {}
                        _ => return None,
                    }
                }
                Stmt::Expr(Expr::Return(r), _) => {
                    return if i + 1 == n { self.expr(r.expr.as_ref()?, &env) } else { None };
                }
                Stmt::Expr(Expr::Assign(a), Some(_)) => {
                    let k = text(&a.left);
                    let v = self.expr(&a.right, &env)?;
                    env.contains_key(&k).then_some(())?;
                    env.insert(k, v);
                }
                Stmt::Expr(Expr::Binary(x), Some(_)) => {
                    let k = text(&x.left);
                    let (l, r) = (env.get(&k)?.clone(), self.expr(&x.right, &env)?);
                    let v: Expr = match x.op {
                        BinOp::BitXorAssign(_) => parse_quote!((#l ^ #r)),
                        BinOp::BitAndAssign(_) => parse_quote!((#l & #r)),
                        BinOp::BitOrAssign(_) => parse_quote!((#l | #r)),
                        BinOp::ShlAssign(_) => parse_quote!((#l << #r)),
                        BinOp::ShrAssign(_) => parse_quote!((#l >> #r)),
                        _ => return None,
                    };
                    env.insert(k, v);
                }
                Stmt::Expr(Expr::If(f), semi) if i + 1 < n || semi.is_some() => {
                    // if c { x op= e; } [else { ... }]: join the assigned variables
                    let c = self.expr(&f.cond, &env)?;
                    let e1 = self.effects(&f.then_branch, &env)?;
                    let e2 = match &f.else_branch {
                        Some((_, e)) => match &**e {
                            Expr::Block(b) => self.effects(&b.block, &env)?,
                            _ => return None,
                        },
                        None => env.clone(),
                    };
                    let keys: Vec<String> = env.keys().cloned().collect();
                    for k in keys {
                        let (a, b) = (e1.get(&k)?, e2.get(&k)?);
                        if text(a) != text(b) {
                            env.insert(k.clone(), parse_quote!((if #c { #a } else { #b })));
                        }
                    }
                }
                Stmt::Expr(e, None) if i + 1 == n => return self.expr(e, &env),
                Stmt::Expr(Expr::Lit(_), Some(_)) => {}
                Stmt::Expr(Expr::Tuple(t), Some(_)) if t.elems.is_empty() => {}
                _ => return None,
            }
        }
        None
    }
    /// the variables after a block that yields nothing
    fn effects(&mut self, b: &Block, env: &Env) -> Option<Env> {
        let mut env = env.clone();
        for s in &b.stmts {
            match s {
                Stmt::Expr(Expr::Assign(_), Some(_)) | Stmt::Expr(Expr::Binary(_), Some(_)) => {
                    let k = match s {
                        Stmt::Expr(Expr::Assign(a), _) => text(&a.left),
                        Stmt::Expr(Expr::Binary(a), _) => text(&a.left),
                        _ => return None,
                    };
                    let id: Expr = parse_str(&k).ok()?;
                    let one: Block = parse_quote!({ #s #id });
                    let v = self.block(&one, &env)?;
                    env.insert(k, v);
                }
                _ => return None,
            }
        }
        Some(env)
    }
    pub fn expr(&mut self, e: &Expr, env: &Env) -> Option<Expr> {
        Some(match e {
            Expr::Paren(p) => {
                let x = self.expr(&p.expr, env)?;
                parse_quote!((#x))
            }
            Expr::Group(p) => self.expr(&p.expr, env)?,
            Expr::Lit(_) => e.clone(),
            Expr::Path(p) => {
                let k = p.path.get_ident()?.to_string();
                env.get(&k)?.clone()
            }
            Expr::Block(b) if b.label.is_none() => self.block(&b.block, env)?,
            Expr::If(f) => {
                let c = self.expr(&f.cond, env)?;
                let a = self.block(&f.then_branch, env)?;
                let b = self.expr(&f.else_branch.as_ref()?.1, env)?;
                parse_quote!((if #c { #a } else { #b }))
            }
            Expr::Unary(u) => {
                if !matches!(u.op, UnOp::Not(_)) {
                    return None;
                }
                let x = self.expr(&u.expr, env)?;
                parse_quote!((!#x))
            }
            Expr::Cast(c) => {
                let t = &c.ty;
                let x = self.expr(&c.expr, env)?;
                if text(t) == "_" {
                    return None;
                }
                parse_quote!((#x as #t))
            }
            Expr::Binary(b) => {
                let l = self.expr(&b.left, env)?;
                let r = self.expr(&b.right, env)?;
                let op = &b.op;
                match op {
                    BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_)
                    | BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Gt(_) | BinOp::Le(_) | BinOp::Ge(_)
                    | BinOp::And(_) | BinOp::Or(_) => parse_quote!((#l #op #r)),
                    // amounts of shifts
                    BinOp::Sub(_) => parse_quote!((sub(#l, #r))),
                    _ => return None,
                }
            }
            Expr::MethodCall(m) => {
                let x = self.expr(&m.receiver, env)?;
                let n = m.method.to_string();
                match (n.as_str(), m.args.len()) {
                    ("wrapping_add", 1) => {
                        let y = self.expr(&m.args[0], env)?;
                        parse_quote!((add(#x, #y)))
                    }
                    ("wrapping_sub", 1) => {
                        let y = self.expr(&m.args[0], env)?;
                        parse_quote!((sub(#x, #y)))
                    }
                    ("wrapping_mul", 1) => {
                        let y = self.expr(&m.args[0], env)?;
                        parse_quote!((mul(#x, #y)))
                    }
                    ("clone", 0) => x,
                    _ => return None,
                }
            }
            Expr::Call(c) => {
                let f = text(&c.func).replace(' ', "");
                let mut args = vec![];
                for a in &c.args {
                    args.push(self.expr(a, env)?);
                }
                if let Some(t) = f.strip_suffix("::from") {
                    if is_int(t) && args.len() == 1 {
                        let (t, x) = (format_ident!("{}", t), &args[0]);
                        return Some(parse_quote!((#x as #t)));
                    }
                }
                if f == "sub" && args.len() == 2 {
                    let (a, b) = (&args[0], &args[1]);
                    return Some(parse_quote!((sub(#a, #b))));
                }
                let name = f.rsplit("::").next().unwrap();
                let sp = if name.starts_with("sp_") || name.starts_with("sa_") { name.to_string() } else { (self.calls)(name)? };
                let id = Ident::new(&sp, Span::call_site());
                let call: Expr = parse_quote!(#id(#(#args),*));
                let n = self.vars.len();
                let v = self.vars.entry(text(&call)).or_insert_with(|| format_ident!("__c{}", format!("{:02}", n))).clone();
                parse_quote!(#v)
            }
            _ => return None,
        })
    }
}

/// `proof { assert(BODY == SPEC) by (bit_vector); }`, if the body is of that kind
pub fn hint(sig: &Signature, body: &Block, spec: &str, pre: &str, ensures: &dyn Fn(&str) -> Option<String>) -> Option<String> {
    let mut env = Env::new();
    for i in &sig.inputs {
        if let FnArg::Typed(t) = i {
            let ty = text(&t.ty).replace(' ', "");
            if let Pat::Ident(id) = &*t.pat {
                if is_int(&ty) {
                    let n = &id.ident;
                    env.insert(n.to_string(), parse_quote!(#n));
                }
            }
        }
    }
    let mut b = Bits { calls: ensures, vars: BTreeMap::new() };
    let e = b.block(body, &env)?;
    let s: Expr = parse_str(spec).ok()?;
    let s = b.expr(&s, &env)?;
    let mut vars: Vec<(String, Ident)> = b.vars.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    vars.sort_by_key(|v| v.1.to_string());
    let lets: String = vars.iter().map(|(k, v)| format!("let {} = {};\n", v, k)).collect();
    let pre = pre.trim().trim_end_matches(',');
    let req = if pre.is_empty() { String::new() } else { format!(" requires {}", pre) };
    Some(format!("proof {{\n{}assert(({}) == ({})) by (bit_vector){};\n}}", lets, text(&e), text(&s), req))
}
