//! Role names (`$name`) in hints are resolved where the hint stands in the
//! lowered body: a parameter, a variable in scope of that name (possibly one of
//! an inlined helper), else the only variable in scope of the role's type.
use crate::print::Raw;
use proc_macro2::{TokenStream, TokenTree};
use std::collections::{HashMap, HashSet};
use syn::visit::{self, Visit};
use syn::*;

pub struct Role {
    pub ty: String,
    /// the vector a collect() fills
    pub collect: Option<String>,
    /// the variable that stands where the role's stood
    pub renamed: Option<String>,
    /// whether the role's variable is declared `mut`
    pub mutable: Option<bool>,
}

pub struct Roles<'a> {
    /// parameters, `self` and the result
    pub fixed: HashMap<String, String>,
    pub vars: HashMap<String, Role>,
    /// roles that need not be filled
    pub optional: HashSet<String>,
    pub ty_at: &'a dyn Fn(usize, usize) -> Option<String>,
    pub scope: Vec<Vec<(String, String, bool)>>,
    pub raws: &'a mut Vec<Raw>,
    pub lost: Vec<String>,
    pub done: HashSet<usize>,
    /// the parameters as they are written
    pub params: HashSet<String>,
    /// ghost variables whose definition was lost
    pub dead: HashSet<String>,
}

fn words(t: &str) -> Vec<String> {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}
/// statements of a hint, by lines
fn statements(t: &str) -> Vec<String> {
    let mut o = vec![];
    let mut cur = String::new();
    let mut depth = 0i32;
    for l in t.lines() {
        cur.push_str(l);
        cur.push('\n');
        for c in l.chars() {
            match c {
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => depth -= 1,
                _ => {}
            }
        }
        let e = l.trim_end();
        if depth == 0 && (e.ends_with(';') || e.ends_with('}')) {
            o.push(std::mem::take(&mut cur));
        }
    }
    if !cur.trim().is_empty() {
        o.push(cur);
    }
    o
}
fn ghosts(t: &str) -> Vec<String> {
    match t.trim_start().strip_prefix("let ghost") {
        Some(r) => words(r.split('=').next().unwrap_or("")).into_iter().filter(|w| w.starts_with("__")).collect(),
        None => vec![],
    }
}

fn squeeze(t: &str) -> String {
    t.replace(' ', "")
}
/// types that cannot be two spellings of one
fn differ(a: &str, b: &str) -> bool {
    let prim = |t: &str| matches!(t, "u8" | "u16" | "u32" | "u64" | "usize" | "bool" | "i32" | "i64");
    prim(a.trim()) && prim(b.trim()) && a.trim() != b.trim()
}

impl<'a> Roles<'a> {
    fn names(&self) -> impl Iterator<Item = &(String, String, bool)> {
        self.scope.iter().rev().flat_map(|f| f.iter().rev())
    }
    fn in_scope(&self, n: &str, t: &str) -> Option<String> {
        let tagged = format!("{}__", n);
        for (x, xt, _) in self.names() {
            let same = x == n || (x.starts_with(&tagged) && x[tagged.len()..].chars().all(|c| c.is_ascii_digit()));
            if same && !differ(xt, t) {
                return Some(x.clone());
            }
        }
        None
    }
    fn resolve(&self, n: &str) -> Option<String> {
        if let Some(x) = self.fixed.get(n) {
            return Some(x.clone());
        }
        if let Some(d) = n.strip_prefix("__l") {
            if d.chars().all(|c| c.is_ascii_digit()) {
                return self.in_scope(n, "");
            }
        }
        if let Some(x) = n.strip_prefix("__n_") {
            let own = self.fixed.values().any(|v| v == x) || self.params.contains(x);
            return self.in_scope(x, "").or_else(|| own.then(|| x.to_string()));
        }
        let r = self.vars.get(n)?;
        if let Some(c) = &r.collect {
            if self.names().any(|x| &x.0 == c) {
                return Some(c.clone());
            }
        }
        if let Some(x) = self.in_scope(n, &r.ty) {
            return Some(x);
        }
        if let Some(x) = r.renamed.as_ref().and_then(|x| self.in_scope(x, &r.ty)) {
            return Some(x);
        }
        let others: HashSet<String> = self
            .vars
            .iter()
            .filter(|k| k.0 != n)
            .flat_map(|(k, r)| {
                let x = self.in_scope(k, &r.ty).or_else(|| r.renamed.as_ref().and_then(|x| self.in_scope(x, &r.ty)));
                x.into_iter()
            })
            .collect();
        // by the type alone: a variable of the code, else the accumulator of a fold
        for temps in [false, true] {
            let mut seen = HashSet::new();
            let c: Vec<&(String, String, bool)> = self
                .names()
                .filter(|x| x.0.starts_with("__") == temps && (!temps || x.0.starts_with("__a")) && seen.insert(x.0.clone()))
                .filter(|x| squeeze(&x.1) == squeeze(&r.ty) && !others.contains(&x.0))
                .collect();
            let m: Vec<_> = c.iter().filter(|x| x.2 || r.mutable != Some(true)).collect();
            if m.len() == 1 {
                return Some(m[0].0.clone());
            }
            if r.mutable != Some(true) && c.len() == 1 {
                return Some(c[0].0.clone());
            }
        }
        None
    }
    fn subst(&self, text: &str, missing: &mut Vec<String>) -> String {
        let mut m: HashMap<String, String> = HashMap::new();
        let b: Vec<char> = text.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i] == '$' {
                let n: String = b[i + 1..].iter().take_while(|c| c.is_alphanumeric() || **c == '_').collect();
                if let Some(x) = self.resolve(&n) {
                    m.insert(n, x);
                }
            }
            i += 1;
        }
        for w in words(text) {
            if self.dead.contains(&w) {
                missing.push(w);
            }
        }
        crate::subst(text, &m, missing)
    }
    fn fix(&mut self, n: usize) {
        if !self.done.insert(n) || !self.raws[n].text.contains('$') && !self.raws[n].text.contains('\u{1}') && self.dead.is_empty() {
            return;
        }
        let t = self.raws[n].text.clone();
        let mut missing = vec![];
        let out = if let Some(b) = t.strip_prefix("invariant\n") {
            // clause by clause
            let (inv, decr) = match b.find("decreases ") {
                Some(i) => b.split_at(i),
                None => (b, ""),
            };
            let mut o = String::from("invariant\n");
            for c in crate::split_clauses(inv) {
                let mut m = vec![];
                let s = self.subst(&c, &mut m);
                if m.is_empty() {
                    o.push_str(&s);
                }
                missing.extend(m);
            }
            if let Some((a, b)) = decr.split_once('\u{1}') {
                let mut m = vec![];
                let s = self.subst(a, &mut m);
                if m.is_empty() {
                    o.push_str(&s);
                    o.push('\n');
                } else if !b.trim().is_empty() {
                    o.push_str(&format!("decreases {}\n", b.trim()));
                } else {
                    missing.extend(m);
                }
            } else {
                o.push_str(decr);
            }
            o
        } else {
            let mut o = String::new();
            for st in statements(&t) {
                let mut m = vec![];
                let s = self.subst(&st, &mut m);
                if m.is_empty() {
                    o.push_str(&s);
                } else {
                    self.dead.extend(ghosts(&st));
                    missing.extend(m);
                }
            }
            o
        };
        self.raws[n].text = out;
        self.lost.extend(missing.into_iter().filter(|m| !self.optional.contains(m) && !m.starts_with("__l") && !m.starts_with("__n_")));
    }
    fn push_pat(&mut self, p: &Pat, ann: Option<String>) {
        struct B(Vec<(String, usize, usize, bool)>);
        impl<'b> Visit<'b> for B {
            fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                // rustc's span of a binding includes `ref` and `mut`
                let s = match (&p.by_ref, &p.mutability) {
                    (Some(r), _) => r.span.start(),
                    (None, Some(m)) => m.span.start(),
                    _ => p.ident.span().start(),
                };
                self.0.push((p.ident.to_string(), s.line, s.column, p.mutability.is_some()));
                visit::visit_pat_ident(self, p);
            }
        }
        let mut b = B(vec![]);
        b.visit_pat(p);
        let one = b.0.len() == 1;
        for (n, l, c, m) in b.0 {
            let t = (self.ty_at)(l, c).or(if one { ann.clone() } else { None }).unwrap_or_default();
            self.scope.last_mut().unwrap().push((n, t, m));
        }
    }
}

fn marker(ts: &TokenStream) -> Option<usize> {
    match ts.clone().into_iter().next() {
        Some(TokenTree::Literal(l)) => l.to_string().parse().ok(),
        _ => None,
    }
}

impl<'a, 'b> Visit<'b> for Roles<'a> {
    fn visit_block(&mut self, b: &'b Block) {
        self.scope.push(vec![]);
        for s in &b.stmts {
            match s {
                Stmt::Local(l) => {
                    if let Some(i) = &l.init {
                        self.visit_expr(&i.expr);
                        if let Some((_, e)) = &i.diverge {
                            self.visit_expr(e);
                        }
                    }
                    let ann = match &l.pat {
                        Pat::Type(t) => Some(quote::ToTokens::to_token_stream(&t.ty).to_string()),
                        _ => None,
                    };
                    self.push_pat(&l.pat, ann);
                }
                s => self.visit_stmt(s),
            }
        }
        self.scope.pop();
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if m.path.is_ident("__weave_raw") || m.path.is_ident("__weave_head") {
            if let Some(n) = marker(&m.tokens) {
                self.fix(n);
            }
            return;
        }
        if let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter() {
                <Self as Visit<'_>>::visit_expr(self, a);
            }
        }
    }
    fn visit_arm(&mut self, a: &'b Arm) {
        self.scope.push(vec![]);
        self.push_pat(&a.pat, None);
        visit::visit_arm(self, a);
        self.scope.pop();
    }
    fn visit_expr_if(&mut self, f: &'b ExprIf) {
        self.scope.push(vec![]);
        self.visit_expr(&f.cond);
        if let Expr::Let(l) = &*f.cond {
            self.push_pat(&l.pat, None);
        }
        self.visit_block(&f.then_branch);
        self.scope.pop();
        if let Some((_, e)) = &f.else_branch {
            self.visit_expr(e);
        }
    }
    fn visit_expr_closure(&mut self, c: &'b ExprClosure) {
        self.scope.push(vec![]);
        for p in &c.inputs {
            self.push_pat(p, None);
        }
        self.visit_expr(&c.body);
        self.scope.pop();
    }
}
