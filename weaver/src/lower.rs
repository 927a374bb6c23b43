//! Rewrites a function body into the dialect the verifier reads: iterator
//! loops and iterator chains become counted `while` loops, reference operands of
//! arithmetic are dereferenced, helpers without a contract are inlined.  Every
//! rewrite is driven by the types rustc reports for the original source.
use crate::types::FileTypes;
use proc_macro2::{Ident, Span};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct FnDef {
    pub sig: Signature,
    pub block: Block,
    pub file: String,
    pub has_self: bool,
}

pub enum Elem {
    Val(Expr),
    Ref(Expr),
    RefMut(Expr),
    Tup(Vec<Elem>),
}

impl Elem {
    fn expr(&self) -> Expr {
        match self {
            Elem::Val(e) => e.clone(),
            Elem::Ref(e) => parse_quote!(& #e),
            Elem::RefMut(e) => parse_quote!(&mut #e),
            Elem::Tup(v) => {
                let x: Vec<Expr> = v.iter().map(|e| e.expr()).collect();
                parse_quote!((#(#x),*))
            }
        }
    }
}

pub struct Pipe {
    setup: Vec<Stmt>,
    conds: Vec<Expr>,
    adv: Vec<Stmt>,
    elem: Elem,
    elem_ty: Option<String>,
    inv: Vec<String>,
    decr: Option<String>,
    index: Option<Expr>,
    /// the sequences walked, as spec text
    srcs: Vec<String>,
    /// the place changed through the elements
    dst: Option<String>,
    /// step sizes that multiply the iteration count
    steps: Vec<String>,
}

/// Spec text attached to the function being lowered.
#[derive(Default, Clone)]
pub struct Hints {
    pub inv: HashMap<usize, String>,
    pub decr: HashMap<usize, String>,
    pub at: HashMap<String, String>,
}

pub struct Lower<'a> {
    pub types: &'a HashMap<String, FileTypes>,
    pub file: String,
    pub synth: HashMap<String, String>,
    pub n: usize,
    pub loops: usize,
    /// the headers of the loops met, in order
    pub heads: Vec<String>,
    /// which committed loop each one is, when there are more or fewer of them
    pub order: Option<Vec<Option<usize>>>,
    pub seen: usize,
    pub raws: &'a mut Vec<crate::print::Raw>,
    pub hints: Hints,
    pub used: HashSet<String>,
    pub errors: Vec<String>,
    pub notes: Vec<String>,
    pub contracted: &'a HashSet<String>,
    pub traits: &'a HashSet<String>,
    pub defs: &'a HashMap<String, FnDef>,
    pub depth: usize,
    /// the type whose method is lowered
    pub owner: String,
    pub calls: HashMap<String, usize>,
    pub inlined: Vec<String>,
    pub anchored: Vec<(String, usize)>,
    pub stdfns: &'a HashSet<String>,
    pub probe: bool,
    pub probes: usize,
    /// loops the hints are written for; further short ones are unrolled
    pub expected: Option<usize>,
    pub unrolled: usize,
    /// ghost names that do not exist here
    pub dead: HashSet<String>,
    pub std_used: Vec<String>,
}

fn strip_ref(t: &str) -> Option<(bool, &str)> {
    let t = t.trim();
    let r = t.strip_prefix('&')?;
    let mut r = r.trim_start();
    if r.starts_with('\'') {
        let i = r.find(' ')?;
        r = r[i..].trim_start();
    }
    if let Some(x) = r.strip_prefix("mut ") {
        Some((true, x.trim_start()))
    } else {
        Some((false, r))
    }
}

fn generic_arg<'b>(t: &'b str, heads: &[&str]) -> Option<&'b str> {
    for h in heads {
        if let Some(r) = t.strip_prefix(h) {
            if let Some(r) = r.strip_prefix('<') {
                return r.strip_suffix('>');
            }
        }
    }
    None
}

fn vec_elem(t: &str) -> Option<&str> {
    generic_arg(t, &["std::vec::Vec", "alloc::vec::Vec", "Vec"])
}

fn arr_elem(t: &str) -> Option<&str> {
    let r = t.strip_prefix('[')?.strip_suffix(']')?;
    // split at the last top-level ';'
    let mut depth = 0i32;
    let mut cut = None;
    for (i, c) in r.char_indices() {
        match c {
            '[' | '(' | '<' => depth += 1,
            ']' | ')' | '>' => depth -= 1,
            ';' if depth == 0 => cut = Some(i),
            _ => {}
        }
    }
    cut.map(|i| r[..i].trim())
}

fn slice_elem(t: &str) -> Option<&str> {
    let r = t.strip_prefix('[')?.strip_suffix(']')?;
    if arr_elem(t).is_some() {
        None
    } else {
        Some(r)
    }
}

fn seq_elem(t: &str) -> Option<&str> {
    vec_elem(t).or_else(|| arr_elem(t)).or_else(|| slice_elem(t))
}

pub fn is_copy(t: &str) -> bool {
    let t = t.trim();
    if matches!(
        t,
        "u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i8" | "i16" | "i32" | "i64" | "i128"
            | "isize" | "bool" | "char"
    ) {
        return true;
    }
    if let Some(e) = arr_elem(t) {
        return is_copy(e);
    }
    t.starts_with('&') && !t.contains("&mut")
}

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

/// a path or a chain of fields of one
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

struct BreakFinder(bool);
impl<'a> syn::visit::Visit<'a> for BreakFinder {
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
struct RetFinder(bool);
impl<'a> syn::visit::Visit<'a> for RetFinder {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
pub fn has_return(b: &Block) -> bool {
    let mut f = RetFinder(false);
    syn::visit::Visit::visit_block(&mut f, b);
    f.0
}
pub fn returns(e: &Expr) -> bool {
    let mut f = RetFinder(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}
struct ContFinder(bool);
impl<'a> syn::visit::Visit<'a> for ContFinder {
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_continue(b: &Block) -> bool {
    let mut f = ContFinder(false);
    syn::visit::Visit::visit_block(&mut f, b);
    f.0
}
fn has_break(b: &Block) -> bool {
    let mut f = BreakFinder(false);
    syn::visit::Visit::visit_block(&mut f, b);
    f.0
}

/// whether the end of the statements is not reached
pub fn diverges(v: &[Stmt]) -> bool {
    fn ex(e: &Expr) -> bool {
        match e {
            Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
            Expr::Block(b) => diverges(&b.block.stmts),
            Expr::If(i) => diverges(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |x| ex(&x.1)),
            Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| ex(&a.body)),
            _ => false,
        }
    }
    match v.last() {
        Some(Stmt::Expr(e, _)) => ex(e),
        _ => false,
    }
}

struct Renamer {
    map: HashMap<String, String>,
}
impl VisitMut for Renamer {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if let Some(n) = self.map.get(&i.to_string()) {
            *i = Ident::new(n, i.span());
        }
    }
    fn visit_member_mut(&mut self, _: &mut Member) {}
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        self.visit_expr_mut(&mut m.receiver);
        for a in m.args.iter_mut() {
            self.visit_expr_mut(a);
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.leading_colon.is_none() && p.segments.len() == 1 {
            self.visit_ident_mut(&mut p.segments[0].ident);
        }
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        // `S { n }` binds n: a renamed binding has to name its field
        if f.colon_token.is_none() {
            if let Pat::Ident(p) = &*f.pat {
                if self.map.contains_key(&p.ident.to_string()) {
                    f.colon_token = Some(Default::default());
                }
            }
        }
        self.visit_pat_mut(&mut f.pat);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        f.colon_token = Some(Default::default());
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut args) = m.parse_body_with(
            punctuated::Punctuated::<Expr, Token![,]>::parse_terminated,
        ) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
}

/// `let f = |x| e;`, only ever called: each call is the body with the arguments bound
pub fn closures(b: &mut Block) {
    struct Calls<'x> {
        name: &'x str,
        calls: usize,
        uses: usize,
    }
    impl<'x, 'a> syn::visit::Visit<'a> for Calls<'x> {
        fn visit_expr_call(&mut self, c: &'a ExprCall) {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                self.calls += 1;
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_ident(&mut self, i: &'a Ident) {
            if i == self.name {
                self.uses += 1;
            }
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            match m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                Ok(a) => a.iter().for_each(|x| self.visit_expr(x)),
                Err(_) => self.uses += 9 * m.tokens.to_string().contains(self.name) as usize,
            }
        }
    }
    struct Put<'x> {
        name: &'x str,
        params: &'x [(Ident, Option<Type>, bool)],
        ret: Option<&'x Type>,
        body: &'x Expr,
        n: &'x mut usize,
    }
    impl<'x> VisitMut for Put<'x> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Expr::Call(c) = e else { return };
            if !matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) {
                return;
            }
            *self.n += 1;
            let n = *self.n;
            let mut body = self.body.clone();
            let mut bc = BindCollector(vec![]);
            syn::visit::Visit::visit_expr(&mut bc, &body);
            let mut map: HashMap<String, String> = bc.0.into_iter().map(|b| (b.clone(), format!("{}__c{}", b, n))).collect();
            let mut binds: Vec<Stmt> = vec![];
            let mut puts = vec![];
            for ((id, ty, m), a) in self.params.iter().zip(&c.args) {
                let nid = format_ident!("{}__c{}", id, n);
                map.insert(id.to_string(), nid.to_string());
                if !m && matches!(a, Expr::Lit(_)) || (!m && matches!(a, Expr::Path(p) if p.path.get_ident().is_some())) {
                    puts.push((nid.to_string(), a.clone()));
                    continue;
                }
                let m: Option<Token![mut]> = m.then(Default::default);
                binds.push(match ty {
                    Some(t) => parse_quote!(let #m #nid: #t = #a;),
                    None => parse_quote!(let #m #nid = #a;),
                });
            }
            Renamer { map }.visit_expr_mut(&mut body);
            for (name, a) in puts {
                struct P(String, Expr);
                impl VisitMut for P {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.0)) {
                            *e = self.1.clone();
                        } else {
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    fn visit_macro_mut(&mut self, m: &mut Macro) {
                        if let Ok(mut a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                            a.iter_mut().for_each(|x| self.visit_expr_mut(x));
                            m.tokens = a.to_token_stream();
                        }
                    }
                }
                P(name, a).visit_expr_mut(&mut body);
            }
            let _ = self.ret;
            *e = match (binds.is_empty(), body) {
                (true, x) => parse_quote!((#x)),
                (_, x) => parse_quote!({ #(#binds)* #x }),
            };
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            if let Ok(mut a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                a.iter_mut().for_each(|x| self.visit_expr_mut(x));
                m.tokens = a.to_token_stream();
            }
        }
    }
    let mut all = BindCollector(vec![]);
    syn::visit::Visit::visit_block(&mut all, b);
    let all = all.0;
    let mut n = 0;
    let mut k = 0;
    while k < b.stmts.len() {
        let found = (|| {
            let Stmt::Local(l) = &b.stmts[k] else { return None };
            let Pat::Ident(id) = strip_pat(&l.pat) else { return None };
            let i = l.init.as_ref()?;
            let Expr::Closure(c) = &*i.expr else { return None };
            if returns(&c.body) || i.diverge.is_some() || c.asyncness.is_some() || c.capture.is_some() {
                return None;
            }
            let name = id.ident.to_string();
            let mut params = vec![];
            for p in &c.inputs {
                let (p, t) = match p {
                    Pat::Type(t) => (&*t.pat, Some((*t.ty).clone())),
                    p => (p, None),
                };
                let Pat::Ident(p) = p else { return None };
                if p.by_ref.is_some() || p.subpat.is_some() {
                    return None;
                }
                params.push((p.ident.clone(), t, p.mutability.is_some()));
            }
            // what the body means must not depend on where it stands
            let mut own = BindCollector(params.iter().map(|x| x.0.to_string()).collect());
            syn::visit::Visit::visit_expr(&mut own, &c.body);
            let words = toks(&c.body);
            for w in words.split(|c: char| !c.is_alphanumeric() && c != '_') {
                if !own.0.iter().any(|x| x == w) && all.iter().filter(|x| *x == w).count() > 1 {
                    return None;
                }
            }
            if all.iter().filter(|x| **x == name).count() != 1 {
                return None;
            }
            let mut u = Calls { name: &name, calls: 0, uses: 0 };
            for s in &b.stmts[k + 1..] {
                syn::visit::Visit::visit_stmt(&mut u, s);
            }
            if u.calls == 0 || u.calls != u.uses {
                return None;
            }
            let ret = match &c.output {
                ReturnType::Type(_, t) => Some((**t).clone()),
                _ => None,
            };
            let mut body = (*c.body).clone();
            if let Expr::Block(x) = &body {
                if let ([Stmt::Expr(y, None)], None) = (&x.block.stmts[..], &x.label) {
                    body = y.clone();
                } else if let ([Stmt::Macro(m)], None) = (&x.block.stmts[..], &x.label) {
                    if m.semi_token.is_none() {
                        body = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    }
                }
            }
            Some((name, params, ret, body))
        })();
        let Some((name, params, ret, body)) = found else {
            k += 1;
            continue;
        };
        b.stmts.remove(k);
        let mut p = Put { name: &name, params: &params, ret: ret.as_ref(), body: &body, n: &mut n };
        for s in b.stmts[k..].iter_mut() {
            p.visit_stmt_mut(s);
        }
    }
}

struct Uses {
    name: String,
    count: usize,
    with: Option<Expr>,
}
impl VisitMut for Uses {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.name) {
                self.count += 1;
                if let Some(w) = &self.with {
                    *e = w.clone();
                }
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.tokens.to_string().contains(&self.name) {
            self.count += 2;
        }
    }
}

/// puts a place where a helper's `&mut` parameter stood
struct Alias<'x> {
    name: &'x str,
    with: &'x Expr,
    /// the place is a reference itself
    isref: bool,
}
impl<'x> Alias<'x> {
    fn is(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.is_ident(self.name),
            Expr::Paren(p) => self.is(&p.expr),
            _ => false,
        }
    }
    fn text(&self, t: &str, with: &str) -> String {
        let b: Vec<char> = t.chars().collect();
        let word = |c: char| c.is_alphanumeric() || c == '_';
        let mut o = String::new();
        let mut i = 0;
        while i < b.len() {
            if word(b[i]) {
                let mut j = i;
                while j < b.len() && word(b[j]) {
                    j += 1;
                }
                let w: String = b[i..j].iter().collect();
                if w == self.name {
                    if !self.isref {
                        let k = o.trim_end().len();
                        if o[..k].ends_with('*') {
                            o.truncate(k - 1);
                        }
                    }
                    o.push_str(with);
                } else {
                    o.push_str(&w);
                }
                i = j;
            } else {
                o.push(b[i]);
                i += 1;
            }
        }
        o
    }
}
impl<'x> VisitMut for Alias<'x> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let w = self.with.clone();
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => {
                *e = if self.isref { parse_quote!(*#w) } else { w };
                return;
            }
            Expr::Reference(r) => {
                if let Expr::Unary(u) = &*r.expr {
                    if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) {
                        let m = &r.mutability;
                        *e = if self.isref { parse_quote!(& #m *#w) } else { parse_quote!(& #m #w) };
                        return;
                    }
                }
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                *m.receiver = w;
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                return;
            }
            Expr::Index(i) if self.is(&i.expr) => {
                *i.expr = w;
                self.visit_expr_mut(&mut i.index);
                return;
            }
            Expr::Field(f) if self.is(&f.base) => {
                *f.base = w;
                return;
            }
            x if self.is(x) => {
                *x = if self.isref { parse_quote!(&mut *#w) } else { parse_quote!(&mut #w) };
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.to_token_stream().to_string().starts_with("__weave") {
            return;
        }
        if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
}

struct BindCollector(Vec<String>);
impl<'a> syn::visit::Visit<'a> for BindCollector {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}

impl<'a> Lower<'a> {
    pub fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        format_ident!("__{}{}", p, self.n)
    }
    pub fn raw(&mut self, text: String, kind: &str) -> Stmt {
        let n = self.raws.len();
        self.raws.push(crate::print::Raw {
            text,
            kind: kind.to_string(),
        });
        let lit = LitInt::new(&n.to_string(), Span::call_site());
        parse_quote!(__weave_raw!(#lit);)
    }
    fn head(&mut self, text: String, kind: &str) -> Stmt {
        let n = self.raws.len();
        self.raws.push(crate::print::Raw {
            text,
            kind: kind.to_string(),
        });
        let lit = LitInt::new(&n.to_string(), Span::call_site());
        parse_quote!(__weave_head!(#lit);)
    }
    fn key<T: Spanned>(t: &T) -> crate::types::Key {
        let s = t.span();
        let (a, b) = (s.start(), s.end());
        (a.line, a.column, b.line, b.column)
    }
    pub fn ty(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Paren(p) => return self.ty(&p.expr),
            Expr::Path(p) if p.path.segments.len() == 1 => {
                if let Some(t) = self.synth.get(&p.path.segments[0].ident.to_string()) {
                    return Some(t.clone());
                }
            }
            Expr::Reference(r) => {
                let k = Self::key(e);
                if self
                    .types
                    .get(&self.file)
                    .and_then(|f| f.expr.get(&k))
                    .is_none()
                {
                    let t = self.ty(&r.expr)?;
                    return Some(format!(
                        "&{}{}",
                        if r.mutability.is_some() { "mut " } else { "" },
                        t
                    ));
                }
            }
            _ => {}
        }
        let k = Self::key(e);
        self.types
            .get(&self.file)
            .and_then(|f| f.expr.get(&k))
            .cloned()
    }
    fn callee(&self, e: &Expr) -> Option<(String, bool)> {
        let k = Self::key(e);
        let known = self.types.get(&self.file).and_then(|f| f.call.get(&k)).cloned();
        if known.is_some() {
            return known;
        }
        // the call made of `.map(function)`
        let Expr::Call(c) = e else { return None };
        let (Expr::Path(f), Some(Expr::Path(a))) = (&*c.func, c.args.first()) else { return None };
        if c.args.len() != 1 || !a.path.get_ident()?.to_string().starts_with("__x") {
            return None;
        }
        let n = f.path.get_ident()?.to_string();
        let mut d = self.defs.iter().filter(|(k, d)| d.file == self.file && k.split("::").count() == 2 && k.rsplit("::").next() == Some(&n));
        d.next().map(|(k, _)| (k.clone(), true))
    }

    // ---- patterns ---------------------------------------------------------
    fn bind(&mut self, pat: &Pat, el: Elem, out: &mut Vec<Stmt>) -> std::result::Result<(), String> {
        match (pat, el) {
            (Pat::Wild(_), Elem::Val(e)) => {
                // keep effects of mapped closures
                if !is_place(&e) {
                    out.push(parse_quote!(let _ = #e;));
                }
                Ok(())
            }
            (Pat::Wild(_), _) => Ok(()),
            (Pat::Paren(p), el) => self.bind(&p.pat, el, out),
            (Pat::Type(p), el) => self.bind(&p.pat, el, out),
            (Pat::Reference(r), Elem::Ref(p)) | (Pat::Reference(r), Elem::RefMut(p)) => {
                self.bind(&r.pat, Elem::Val(p), out)
            }
            (Pat::Reference(r), Elem::Val(e)) => {
                let e: Expr = parse_quote!(*#e);
                self.bind(&r.pat, Elem::Val(e), out)
            }
            (Pat::Tuple(t), Elem::Tup(v)) => {
                if t.elems.len() != v.len() {
                    return Err("tuple pattern arity".into());
                }
                for (p, e) in t.elems.iter().zip(v.into_iter()) {
                    self.bind(p, e, out)?;
                }
                Ok(())
            }
            (Pat::Ident(i), el) => {
                if i.subpat.is_some() {
                    return Err("binding with sub-pattern".into());
                }
                let (m, id) = (&i.mutability, &i.ident);
                let e = el.expr();
                if i.by_ref.is_some() {
                    out.push(parse_quote!(let #m #id = & #e;));
                } else {
                    out.push(parse_quote!(let #m #id = #e;));
                }
                Ok(())
            }
            (Pat::Slice(p), Elem::Val(e)) => {
                match self.slice_lets(p, e.clone()) {
                    Some(x) => out.extend(x),
                    None => out.push(parse_quote!(let #p = #e;)),
                }
                Ok(())
            }
            (p, Elem::Val(e)) => {
                out.push(parse_quote!(let #p = #e;));
                Ok(())
            }
            (p, _) => Err(format!("pattern {}", toks(p))),
        }
    }

    // ---- pipelines --------------------------------------------------------
    /// How a sequence-valued source is walked.
    fn source(&mut self, e: &Expr, ty: &str, mode: u8, rev: bool) -> std::result::Result<Pipe, String> {
        // mode: 0 = by the type, 1 = shared, 2 = mutable
        let (m, inner): (u8, String) = match strip_ref(ty) {
            Some((true, t)) => (if mode == 1 { 1 } else { 2 }, t.to_string()),
            Some((false, t)) => (1, t.to_string()),
            None => (if mode == 0 { 3 } else { mode }, ty.to_string()),
        };
        // && chains
        let mut inner = inner;
        while let Some((_, t)) = strip_ref(&inner) {
            inner = t.to_string();
        }
        let et = seq_elem(&inner)
            .ok_or_else(|| format!("iteration over {}", ty))?
            .to_string();
        let p = self.fresh("p");
        let i = self.fresh("i");
        let it = "__IT__";
        let mut setup: Vec<Stmt> = vec![];
        let base: Expr;
        let is_ref = strip_ref(ty).is_some();
        if m == 3 && !is_copy(&et) {
            // consuming a vector of owned values
            if vec_elem(&inner).is_none() || rev {
                return Err(format!("consuming iteration over {}", ty));
            }
            let s = self.fresh("s");
            let s0 = self.fresh("g");
            let el = self.fresh("e");
            self.synth.insert(s.to_string(), inner.clone());
            self.synth.insert(el.to_string(), et.clone());
            setup.push(parse_quote!(let mut #s = #e;));
            let r = self.raw(format!("let ghost {} = {}@;", s0, s), "lowering");
            setup.push(r);
            return Ok(Pipe {
                setup,
                conds: vec![parse_quote!(#s.len() > 0)],
                adv: vec![parse_quote!(let #el = #s.remove(0);)],
                elem: Elem::Val(parse_quote!(#el)),
                elem_ty: Some(et),
                inv: vec![
                    format!("0 <= {it} <= {s0}.len()"),
                    format!("{s}@ =~= {s0}.subrange({it}, {s0}.len() as int)"),
                ],
                decr: Some(format!("{}.len()", s)),
                index: None,
                srcs: vec![format!("{s}@")],
                dst: None,
                steps: vec![],
            });
        }
        let part = if m == 2 { self.part(e, &mut setup) } else { None };
        let mut off: Option<Ident> = None;
        let mut upto: Option<Ident> = None;
        if let Some((b, o, h)) = part {
            base = b;
            off = Some(o);
            upto = Some(h);
        } else if m == 2 && is_place(e) {
            base = e.clone();
        } else {
            let s = self.fresh("s");
            if is_ref {
                if m == 2 {
                    setup.push(parse_quote!(let #s = &mut *#e;));
                } else {
                    setup.push(parse_quote!(let #s = #e;));
                }
            } else if m == 2 {
                setup.push(parse_quote!(let #s = &mut #e;));
            } else if m == 3 {
                setup.push(parse_quote!(let #s = #e;));
            } else {
                setup.push(parse_quote!(let #s = & #e;));
            }
            base = parse_quote!(#s);
        }
        let n = self.fresh("n");
        let bt = toks(&base);
        let mut inv = vec![];
        let mut src = format!("{bt}@");
        let place: Expr = if let (Some(o), Some(h)) = (&off, &upto) {
            setup.push(parse_quote!(let #n: usize = #h - #o;));
            inv.push(format!("{o} + {n} <= {bt}@.len()"));
            inv.push(format!("{n} == {h} - {o}"));
            src = format!("{bt}@.subrange({o} as int, {h} as int)");
            parse_quote!(#base[#o + #i])
        } else {
            setup.push(parse_quote!(let #n: usize = #base.len();));
            inv.push(format!("{bt}@.len() == {n}"));
            parse_quote!(#base[#i])
        };
        let elem = match m {
            1 => Elem::Ref(place),
            2 => Elem::RefMut(place),
            _ => Elem::Val(place),
        };
        let elem_ty = Some(match m {
            1 => format!("&{}", et),
            2 => format!("&mut {}", et),
            _ => et,
        });
        if rev {
            setup.push(parse_quote!(let mut #p: usize = #n;));
            inv.push(format!("{p} <= {n}"));
            inv.push(format!("{it} == {n} - {p}"));
            Ok(Pipe {
                setup,
                conds: vec![parse_quote!(#p > 0)],
                adv: vec![parse_quote!(#p = #p - 1;), parse_quote!(let #i: usize = #p;)],
                elem,
                elem_ty,
                inv,
                decr: Some(format!("{p}")),
                index: Some(parse_quote!(#i)),
                srcs: vec![src],
                dst: (m == 2).then(|| bt.clone()),
                steps: vec![],
            })
        } else {
            setup.push(parse_quote!(let mut #p: usize = 0;));
            inv.push(format!("{p} <= {n}"));
            inv.push(format!("{it} == {p}"));
            Ok(Pipe {
                setup,
                conds: vec![parse_quote!(#p < #n)],
                adv: vec![parse_quote!(let #i: usize = #p;), parse_quote!(#p = #p + 1;)],
                elem,
                elem_ty,
                inv,
                decr: Some(format!("{n} - {p}")),
                index: Some(parse_quote!(#i)),
                srcs: vec![src],
                dst: (m == 2).then(|| bt.clone()),
                steps: vec![],
            })
        }
    }

    /// `place[a..b]` as the place and the bounds, checked like the slice
    fn part(&mut self, e: &Expr, setup: &mut Vec<Stmt>) -> Option<(Expr, Ident, Ident)> {
        let mut e = e;
        loop {
            match e {
                Expr::Paren(p) => e = &p.expr,
                Expr::Reference(r) => e = &r.expr,
                _ => break,
            }
        }
        let Expr::Index(x) = e else { return None };
        let Expr::Range(r) = &*x.index else { return None };
        if !is_place(&x.expr) || !matches!(r.limits, RangeLimits::HalfOpen(_)) {
            return None;
        }
        let b = (*x.expr).clone();
        let (o, h) = (self.fresh("b"), self.fresh("h"));
        let lo: Expr = r.start.as_deref().cloned().unwrap_or_else(|| parse_quote!(0));
        let hi: Expr = r.end.as_deref().cloned().unwrap_or_else(|| parse_quote!(#b.len()));
        setup.push(parse_quote!(let #o: usize = #lo;));
        setup.push(parse_quote!(let #h: usize = #hi;));
        // the bounds are those of the slice
        setup.push(parse_quote!({ let __part = &#b[#o..#h]; }));
        Some((b, o, h))
    }

    fn range(&mut self, r: &ExprRange, ty: Option<String>, rev: bool) -> std::result::Result<Pipe, String> {
        let lo = r.start.as_ref().ok_or("range without start")?;
        let hi = r.end.as_ref().ok_or("range without end")?;
        let (lo, hi) = (lo.clone(), hi.clone());
        let t: Option<Type> = ty.and_then(|t| {
            let i = t.find('<')?;
            syn::parse_str::<Type>(t[i + 1..].strip_suffix('>')?).ok()
        });
        let int = |t: &String| matches!(t.as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64");
        let t = t.or_else(|| [&lo, &hi].into_iter().find_map(|e| self.ty(e).filter(int)).and_then(|t| syn::parse_str(&t).ok()));
        let t = t.unwrap_or_else(|| parse_quote!(_));
        let (l, h, p, i) = (
            self.fresh("lo"),
            self.fresh("hi"),
            self.fresh("p"),
            self.fresh("i"),
        );
        let it = "__IT__";
        let mut setup: Vec<Stmt> = vec![
            parse_quote!(let #l: #t = #lo;),
            parse_quote!(let #h: #t = #hi;),
        ];
        let ts = Some(toks(&t));
        let closed = matches!(r.limits, RangeLimits::Closed(_));
        let (conds, adv, inv, decr): (Vec<Expr>, Vec<Stmt>, Vec<String>, String);
        if !closed && !rev {
            setup.push(parse_quote!(let mut #p: #t = #l;));
            conds = vec![parse_quote!(#p < #h)];
            adv = vec![parse_quote!(let #i: #t = #p;), parse_quote!(#p = #p + 1;)];
            inv = vec![
                format!("{l} <= {p}"),
                format!("{p} <= {h} || {p} == {l}"),
                format!("{it} == {p} - {l}"),
            ];
            decr = format!("{h} - {p}");
        } else if !closed && rev {
            setup.push(parse_quote!(let mut #p: #t = #h;));
            conds = vec![parse_quote!(#p > #l)];
            adv = vec![parse_quote!(#p = #p - 1;), parse_quote!(let #i: #t = #p;)];
            inv = vec![
                format!("{p} <= {h}"),
                format!("{p} >= {l} || {p} == {h}"),
                format!("{it} == {h} - {p}"),
            ];
            decr = format!("{p} - {l}");
        } else {
            let d = self.fresh("d");
            setup.push(parse_quote!(let mut #d: bool = #l > #h;));
            if !rev {
                setup.push(parse_quote!(let mut #p: #t = #l;));
                adv = vec![
                    parse_quote!(let #i: #t = #p;),
                    parse_quote!(if #p < #h { #p = #p + 1; } else { #d = true; }),
                ];
                inv = vec![
                    format!("{l} <= {p}"),
                    format!("{l} <= {h} ==> {p} <= {h}"),
                    format!("{l} > {h} ==> {d} && {p} == {l} && {it} == 0"),
                    format!("{l} <= {h} ==> {it} == {p} - {l} + (if {d} {{ 1int }} else {{ 0 }})"),
                    format!("{d} ==> {p} >= {h}"),
                ];
                decr = format!("{h} - {p} + (if {d} {{ 0int }} else {{ 1 }})");
            } else {
                setup.push(parse_quote!(let mut #p: #t = #h;));
                adv = vec![
                    parse_quote!(let #i: #t = #p;),
                    parse_quote!(if #p > #l { #p = #p - 1; } else { #d = true; }),
                ];
                inv = vec![
                    format!("{p} <= {h}"),
                    format!("{l} <= {h} ==> {p} >= {l}"),
                    format!("{l} > {h} ==> {d} && {p} == {h} && {it} == 0"),
                    format!("{l} <= {h} ==> {it} == {h} - {p} + (if {d} {{ 1int }} else {{ 0 }})"),
                    format!("{d} ==> {p} <= {l}"),
                ];
                decr = format!("{p} - {l} + (if {d} {{ 0int }} else {{ 1 }})");
            }
            conds = vec![parse_quote!(!#d)];
        }
        Ok(Pipe {
            setup,
            conds,
            adv,
            elem: Elem::Val(parse_quote!(#i)),
            elem_ty: ts,
            inv,
            decr: Some(decr),
            index: None,
            srcs: vec![],
            dst: None,
            steps: vec![],
        })
    }

    fn chunks(&mut self, src: &Expr, n: &Expr, exact: bool, mutable: bool) -> std::result::Result<Pipe, String> {
        let ty = self.ty(src).ok_or("type of chunk source")?;
        let is_ref = strip_ref(&ty).is_some();
        let (_, inner) = strip_ref(&ty).unwrap_or((false, &ty));
        let et = seq_elem(inner).ok_or("chunks over a non-sequence")?.to_string();
        let (s, k, p, a, b, n_) = (
            self.fresh("s"),
            self.fresh("k"),
            self.fresh("p"),
            self.fresh("i"),
            self.fresh("j"),
            self.fresh("n"),
        );
        let it = "__IT__";
        let mut setup: Vec<Stmt> = vec![];
        let part = self.part(src, &mut setup);
        let (mut off, mut upto): (Option<Ident>, Option<Ident>) = (None, None);
        let base: Expr = if let Some((b, o, h)) = part {
            off = Some(o);
            upto = Some(h);
            b
        } else if mutable && is_place(src) {
            src.clone()
        } else {
            if is_ref {
                if mutable {
                    setup.push(parse_quote!(let #s = &mut *#src;));
                } else {
                    setup.push(parse_quote!(let #s = #src;));
                }
            } else if mutable {
                setup.push(parse_quote!(let #s = &mut #src;));
            } else {
                setup.push(parse_quote!(let #s = & #src;));
            }
            parse_quote!(#s)
        };
        match (&off, &upto) {
            (Some(o), Some(h)) => setup.push(parse_quote!(let #n_: usize = #h - #o;)),
            _ => setup.push(parse_quote!(let #n_: usize = #base.len();)),
        }
        setup.push(parse_quote!(let #k: usize = #n;));
        // std panics on a zero chunk size
        let r = self.raw(format!("assert({k} > 0);"), "precondition of chunks");
        setup.push(r);
        setup.push(parse_quote!(let mut #p: usize = 0;));
        let bt = toks(&base);
        let mut inv = vec![
            match (&off, &upto) {
                (Some(o), Some(h)) => format!("{n_} == {h} - {o} && {h} <= {bt}@.len()"),
                _ => format!("{bt}@.len() == {n_}"),
            },
            format!("{p} <= {n_}"),
            format!("{k} > 0"),
        ];
        let conds: Vec<Expr>;
        let mut adv: Vec<Stmt> = vec![parse_quote!(let #a: usize = #p;)];
        if exact {
            conds = vec![parse_quote!(#n_ - #p >= #k)];
            adv.push(parse_quote!(let #b: usize = #p + #k;));
            inv.push(format!("{p} == {it} * {k}"));
        } else {
            conds = vec![parse_quote!(#p < #n_)];
            adv.push(parse_quote!(let #b: usize = if #n_ - #p < #k { #n_ } else { #p + #k };));
            inv.push(format!("{p} == {it} * {k} || ({p} == {n_} && ({it} - 1) * {k} < {p} < {it} * {k})"));
        }
        adv.push(parse_quote!(#p = #b;));
        let st = self.raw(
            format!(
                "assert(__IT__ * {k} == (__IT__ - 1) * {k} + {k}) by (nonlinear_arith);"
            ),
            "lowering",
        );
        adv.push(st);
        let place: Expr = match &off {
            Some(o) => parse_quote!(#base[#o + #a..#o + #b]),
            None => parse_quote!(#base[#a..#b]),
        };
        let (elem, elem_ty) = if mutable {
            (Elem::RefMut(place), format!("&mut [{}]", et))
        } else {
            (Elem::Ref(place), format!("&[{}]", et))
        };
        Ok(Pipe {
            setup,
            conds,
            adv,
            elem,
            elem_ty: Some(elem_ty),
            inv,
            decr: Some(format!("{n_} - {p}")),
            index: None,
            srcs: vec![match (&off, &upto) {
                (Some(o), Some(h)) => format!("{bt}@.subrange({o} as int, {h} as int)"),
                _ => format!("{bt}@"),
            }],
            dst: mutable.then(|| bt.clone()),
            steps: vec![k.to_string()],
        })
    }

    fn pipe(&mut self, e: &Expr, rev: bool) -> std::result::Result<Pipe, String> {
        match e {
            Expr::Paren(p) => self.pipe(&p.expr, rev),
            Expr::Range(r) => {
                let t = self.ty(e);
                self.range(r, t, rev)
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                let recv = &*m.receiver;
                match (name.as_str(), args.len()) {
                    ("iter", 0) => {
                        let t = self.ty(recv).ok_or("type of iter() receiver")?;
                        self.source(recv, &t, 1, rev)
                    }
                    ("iter_mut", 0) => {
                        let t = self.ty(recv).ok_or("type of iter_mut() receiver")?;
                        self.source(recv, &t, 2, rev)
                    }
                    ("into_iter", 0) => {
                        let t = self.ty(recv).ok_or("type of into_iter() receiver")?;
                        if t.contains("Range") || t.contains("iter::") {
                            return self.pipe(recv, rev);
                        }
                        // edition 2018: arrays iterate by reference here
                        let mode = if arr_elem(&t).is_some() { 1 } else { 0 };
                        self.source(recv, &t, mode, rev)
                    }
                    ("by_ref", 0) => Err("by_ref".into()),
                    ("rev", 0) => self.pipe(recv, !rev),
                    ("copied", 0) | ("cloned", 0) => {
                        let mut p = self.pipe(recv, rev)?;
                        p.elem = match p.elem {
                            Elem::Ref(x) => {
                                let t = p.elem_ty.as_deref().and_then(strip_ref).map(|x| x.1);
                                if t.map(is_copy) == Some(true) {
                                    Elem::Val(x)
                                } else {
                                    Elem::Val(parse_quote!(#x.clone()))
                                }
                            }
                            Elem::Val(x) => Elem::Val(parse_quote!(*#x)),
                            _ => return Err("copied() on a compound element".into()),
                        };
                        p.elem_ty = p
                            .elem_ty
                            .and_then(|t| strip_ref(&t).map(|x| x.1.to_string()));
                        Ok(p)
                    }
                    ("enumerate", 0) => {
                        let mut p = self.pipe(recv, rev)?;
                        let idx: Expr = match (&p.index, rev) {
                            (Some(i), _) => i.clone(),
                            (None, true) => return Err("rev() over enumerate()".into()),
                            (None, false) => {
                                let c = self.fresh("c");
                                let i = self.fresh("i");
                                p.setup.push(parse_quote!(let mut #c: usize = 0;));
                                p.adv.push(parse_quote!(let #i: usize = #c;));
                                p.adv.push(parse_quote!(#c = #c + 1;));
                                p.inv.push(format!("{c} == __IT__"));
                                parse_quote!(#i)
                            }
                        };
                        p.elem = Elem::Tup(vec![Elem::Val(idx), p.elem]);
                        p.elem_ty = p.elem_ty.map(|t| format!("(usize, {})", t));
                        p.index = None;
                        Ok(p)
                    }
                    ("zip", 1) => {
                        if rev {
                            return Err("rev() over zip()".into());
                        }
                        let mut a = self.pipe(recv, false)?;
                        let b = self.pipe(&args[0], false)?;
                        a.setup.extend(b.setup);
                        a.conds.extend(b.conds);
                        a.adv.extend(b.adv);
                        a.inv.extend(b.inv);
                        a.srcs.extend(b.srcs);
                        a.dst = a.dst.or(b.dst);
                        a.steps.extend(b.steps);
                        a.elem = Elem::Tup(vec![a.elem, b.elem]);
                        a.elem_ty = match (a.elem_ty, b.elem_ty) {
                            (Some(x), Some(y)) => Some(format!("({}, {})", x, y)),
                            _ => None,
                        };
                        Ok(a)
                    }
                    ("take", 1) if !rev => {
                        let mut p = self.pipe(recv, false)?;
                        let (c, l) = (self.fresh("c"), self.fresh("l"));
                        let n = &args[0];
                        p.setup.push(parse_quote!(let #l: usize = #n;));
                        p.setup.push(parse_quote!(let mut #c: usize = 0;));
                        p.conds.insert(0, parse_quote!(#c < #l));
                        p.adv.insert(0, parse_quote!(#c = #c + 1;));
                        p.inv.push(format!("{c} == __IT__"));
                        p.inv.push(format!("{c} <= {l}"));
                        Ok(p)
                    }
                    ("skip", 1) if !rev => {
                        // only over a plain sequence source
                        let src = match recv {
                            Expr::MethodCall(x) if x.method == "iter" || x.method == "iter_mut" => x,
                            _ => return Err("skip() over a compound pipeline".into()),
                        };
                        let t = self.ty(&src.receiver).ok_or("type of skip() source")?;
                        let n = &args[0];
                        let r = &src.receiver;
                        let k = self.fresh("k");
                        let mode = if src.method == "iter" { 1 } else { 2 };
                        let sub: Expr = parse_quote!(#r[#k..]);
                        let inner = strip_ref(&t).map(|x| x.1.to_string()).unwrap_or(t.clone());
                        let et = seq_elem(&inner).ok_or("skip() source")?.to_string();
                        let mut p = self.source(&sub, &format!("[{}]", et), mode, false)?;
                        p.setup.insert(
                            0,
                            parse_quote!(let #k: usize = { let __k0: usize = #n; if __k0 > #r.len() { #r.len() } else { __k0 } };),
                        );
                        p.index = None;
                        Ok(p)
                    }
                    ("step_by", 1) if !rev => {
                        let r = match recv {
                            Expr::Paren(p) => match &*p.expr {
                                Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => r.clone(),
                                _ => return Err("step_by() over a compound pipeline".into()),
                            },
                            _ => return Err("step_by() over a compound pipeline".into()),
                        };
                        let rt = self.ty(&Expr::Range(r.clone()));
                        let t: Type = rt
                            .and_then(|t| {
                                let i = t.find('<')?;
                                syn::parse_str::<Type>(t[i + 1..].strip_suffix('>')?).ok()
                            })
                            .unwrap_or_else(|| parse_quote!(usize));
                        let lo = r.start.ok_or("range")?;
                        let hi = r.end.ok_or("range")?;
                        let n = &args[0];
                        let (l, h, k, p, i) = (
                            self.fresh("lo"),
                            self.fresh("hi"),
                            self.fresh("k"),
                            self.fresh("p"),
                            self.fresh("i"),
                        );
                        let pre = self.raw(format!("assert({k} > 0);"), "precondition of step_by");
                        let st = self.raw(
                            format!("assert(__IT__ * {k} == (__IT__ - 1) * {k} + {k}) by (nonlinear_arith);"),
                            "lowering",
                        );
                        Ok(Pipe {
                            setup: vec![
                                parse_quote!(let #l: #t = #lo;),
                                parse_quote!(let #h: #t = #hi;),
                                parse_quote!(let #k: usize = #n;),
                                pre,
                                parse_quote!(let mut #p: #t = #l;),
                            ],
                            conds: vec![parse_quote!(#p < #h)],
                            adv: vec![
                                parse_quote!(let #i: #t = #p;),
                                parse_quote!(if #h - #p > #k { #p = #p + #k; } else { #p = #h; }),
                                st,
                            ],
                            elem: Elem::Val(parse_quote!(#i)),
                            elem_ty: Some(toks(&t)),
                            inv: vec![
                                format!("{k} > 0"),
                                format!("{l} <= {p}"),
                                format!("{p} <= {h} || {p} == {l}"),
                                format!("{p} == {l} + __IT__ * {k} || ({p} == {h} && {l} + (__IT__ - 1) * {k} < {p} <= {l} + __IT__ * {k})"),
                            ],
                            decr: Some(format!("{h} - {p}")),
                            index: None,
                            srcs: vec![],
                            dst: None,
                            steps: vec![k.to_string()],
                        })
                    }
                    ("chunks", 1) if !rev => self.chunks(recv, &args[0], false, false),
                    ("chunks_exact", 1) if !rev => self.chunks(recv, &args[0], true, false),
                    ("chunks_mut", 1) if !rev => self.chunks(recv, &args[0], false, true),
                    ("chunks_exact_mut", 1) if !rev => self.chunks(recv, &args[0], true, true),
                    ("map", 1) => {
                        let c = match &args[0] {
                            Expr::Closure(c) => c.clone(),
                            Expr::Path(f) => {
                                let f = f.clone();
                                let x = self.fresh("x");
                                parse_quote!(|#x| #f(#x))
                            }
                            _ => return Err("map() with a non-closure".into()),
                        };
                        if c.inputs.len() != 1 {
                            return Err("closure arity".into());
                        }
                        let mut p = self.pipe(recv, rev)?;
                        let mut b: Vec<Stmt> = vec![];
                        let elem = std::mem::replace(&mut p.elem, Elem::Tup(vec![]));
                        if let (Pat::Ident(id), Some(t)) = (strip_pat(&c.inputs[0]), &p.elem_ty) {
                            let _ = (id, t);
                        }
                        self.bind(&c.inputs[0], elem, &mut b)?;
                        let body = &c.body;
                        let m_ = self.fresh("m");
                        let t = self.ty(body);
                        let tt: Option<Type> = t.as_ref().and_then(|t| syn::parse_str(t).ok());
                        if let Some(t) = &t {
                            self.synth.insert(m_.to_string(), t.clone());
                        }
                        match tt {
                            Some(tt) if is_copy(&toks(&tt)) && !toks(&tt).starts_with('&') => {
                                p.adv.push(parse_quote!(let #m_: #tt = { #(#b)* #body };))
                            }
                            _ => p.adv.push(parse_quote!(let #m_ = { #(#b)* #body };)),
                        }
                        p.elem = Elem::Val(parse_quote!(#m_));
                        p.elem_ty = t;
                        p.index = None;
                        Ok(p)
                    }
                    _ => {
                        // any other call: by the type of its result
                        let t = self.ty(e).ok_or_else(|| format!("iterator {}", name))?;
                        if t.contains("iter::") || t.contains("Iter<") {
                            return Err(format!("iterator adaptor {}()", name));
                        }
                        self.source(e, &t, 0, rev)
                    }
                }
            }
            _ => {
                let t = self
                    .ty(e)
                    .ok_or_else(|| format!("type of {}", toks(e)))?;
                if t.contains("ops::Range") || t.contains("iter::") {
                    return Err(format!("stored iterator {}", toks(e)));
                }
                self.source(e, &t, 0, rev)
            }
        }
    }

    // ---- loops ------------------------------------------------------------
    fn loop_text(&mut self, k: usize, auto: &[String], decr: Option<String>) -> String {
        let it = format!("__it{}", k);
        let mut s = String::from("invariant\n");
        s.push_str(&format!("    0 <= {it},\n"));
        for i in auto {
            s.push_str(&format!("    {},\n", i.replace("__IT__", &it)));
        }
        if let Some(t) = self.hints.inv.get(&k) {
            let t = t.trim_end().trim_end_matches(',');
            if !t.trim().is_empty() {
                s.push_str(t);
                s.push_str(",\n");
            }
            self.used.insert(format!("loop {}", k));
        }
        match (self.hints.decr.get(&k), decr) {
            // the first measure unless it names something that is not there
            (Some(d), e) => s.push_str(&format!("decreases {}\u{1}{}\n", d.trim(), e.unwrap_or_default())),
            (None, Some(d)) => s.push_str(&format!("decreases {}\n", d.trim())),
            (None, None) => {}
        }
        s
    }
    fn hint(&mut self, anchor: &str) -> Vec<Stmt> {
        let mut v = if let Some(t) = self.hints.at.get(anchor).cloned() {
            self.used.insert(anchor.to_string());
            vec![self.raw(t, &format!("hint at {}", anchor))]
        } else {
            vec![]
        };
        v.extend(self.probe_stmt(anchor));
        v
    }
    /// vacuity probes: unprovable unless the assumptions there are contradictory
    pub fn probe_stmt(&mut self, anchor: &str) -> Option<Stmt> {
        let at = anchor == "start" || (anchor.starts_with("loop") && (anchor.ends_with(" start") || anchor.ends_with(" after")));
        if !self.probe || !at {
            return None;
        }
        self.probes += 1;
        let t = format!("proof {{ assert(crate::sp::sp_probe({})); }}", self.probes);
        Some(self.raw(t, &format!("probe {}", anchor)))
    }
    fn finish_block(b: &Block) -> Vec<Stmt> {
        let mut v = b.stmts.clone();
        if let Some(Stmt::Expr(e, s)) = v.last_mut() {
            if s.is_none() && !matches!(e, Expr::Break(_) | Expr::Continue(_) | Expr::Return(_)) {
                *s = Some(Default::default());
            }
        }
        v
    }
    fn fix_it(&mut self, from: usize, k: usize) {
        let it = format!("__it{}", k);
        for r in self.raws[from..].iter_mut() {
            r.text = r.text.replace("__IT__", &it);
        }
    }

    fn gen_for(
        &mut self,
        label: &Option<Label>,
        pat: &Pat,
        src: &Expr,
        body: &Block,
    ) -> std::result::Result<Expr, String> {
        // push stages first
        if let Expr::MethodCall(m) = src {
            let name = m.method.to_string();
            if name == "flatten" && m.args.is_empty() {
                if has_break(body) {
                    return Err("break out of flatten()".into());
                }
                let f = self.fresh("f");
                let t = self.elem_type(&m.receiver);
                if let Some(t) = t {
                    self.synth.insert(f.to_string(), t);
                }
                let inner: Expr = parse_quote!(for #pat in #f #body);
                let b: Block = parse_quote!({ #inner });
                return self.gen_for(label, &parse_quote!(#f), &m.receiver, &b);
            }
            if name == "filter" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let f = self.fresh("f");
                    if let Some(t) = self.elem_type(&m.receiver) {
                        self.synth.insert(f.to_string(), t);
                    }
                    let mut st = vec![];
                    self.bind(&c.inputs[0], Elem::Ref(parse_quote!(#f)), &mut st)?;
                    let cb = &c.body;
                    let bs = Self::finish_block(body);
                    let b: Block = parse_quote!({ if { #(#st)* #cb } { let #pat = #f; #(#bs)* } });
                    return self.gen_for(label, &parse_quote!(#f), &m.receiver, &b);
                }
            }
        }
        let extra = match &self.order {
            Some(o) => o.get(self.seen).copied().flatten().is_none(),
            None => self.expected.map(|e| self.loops >= e).unwrap_or(false),
        };
        if extra && label.is_none() {
            if let Some(n) = self.static_count(src).filter(|n| *n <= 16) {
                if !has_break(body) && !has_continue(body) {
                    return self.unroll(pat, src, body, n);
                }
            }
        }
        let k = self.number(format!("for {}", toks(src)));
        let from = self.raws.len();
        let p = self.pipe(src, false)?;
        if p.srcs.is_empty() {
            self.dead.insert(format!("__src{}", k));
        }
        self.dst(k, p.dst.clone().or_else(|| changed(body)));
        let mut bindings = vec![];
        // types for names bound by the pattern, where synthetic
        if let (Pat::Ident(id), Some(t)) = (pat, &p.elem_ty) {
            if id.ident.to_string().starts_with("__") {
                self.synth.insert(id.ident.to_string(), t.clone());
            }
        }
        self.bind(pat, p.elem, &mut bindings)?;
        let head_t = self.loop_text(k, &p.inv, p.decr);
        let head = self.head(head_t, &format!("loop {}", k));
        let mut gt = format!("let ghost mut __it{}: int = 0;", k);
        for (i, s) in p.srcs.iter().enumerate() {
            if i == 0 {
                gt.push_str(&format!("\nlet ghost __src{} = {};", k, s));
            } else {
                gt.push_str(&format!("\nlet ghost __src{}_{} = {};", k, i + 1, s));
            }
        }
        let gi = self.raw(gt, "lowering");
        let inc = self.raw(format!("proof {{ __it{0} = __it{0} + 1; }}", k), "lowering");
        let muls: String = p.steps.iter().map(|s| format!("crate::sp::sp_by_const(__IT__, {s} as int);")).collect();
        let (mut known, mut done) = (vec![], vec![]);
        if !muls.is_empty() {
            known.push(self.raw(format!("proof {{ {muls} }}"), "lowering"));
            done.push(self.raw(format!("proof {{ {muls} }}"), "lowering"));
        }
        self.fix_it(from, k);
        let before = self.hint(&format!("loop {} before", k));
        let headh = self.hint(&format!("loop {} head", k));
        let start = self.hint(&format!("loop {} start", k));
        let end = self.hint(&format!("loop {} end", k));
        let after = self.hint(&format!("loop {} after", k));
        let cond = p
            .conds
            .into_iter()
            .reduce(|a, b| parse_quote!(#a && #b))
            .unwrap();
        let (setup, adv) = (p.setup, p.adv);
        let mut blk = Block {
            brace_token: Default::default(),
            stmts: Self::finish_block(body),
        };
        self.visit_block_mut(&mut blk);
        let bs = blk.stmts;
        let mut setup = setup;
        let mut adv = adv;
        for s in setup.iter_mut().chain(adv.iter_mut()).chain(bindings.iter_mut()) {
            self.visit_stmt_mut(s);
        }
        Ok(parse_quote!({
            #(#setup)*
            #gi
            #(#before)*
            #label while #cond {
                #head
                #inc
                #(#known)*
                #(#headh)*
                #(#adv)*
                #(#bindings)*
                #(#start)*
                #(#bs)*
                #(#end)*
            }
            #(#done)*
            #(#after)*
        }))
    }

    fn upcoming(&self) -> usize {
        match &self.order {
            Some(o) => o.get(self.seen).copied().flatten().unwrap_or(100 + self.seen),
            None => self.loops + 1,
        }
    }
    /// the number the hints know a loop by
    fn number(&mut self, head: String) -> usize {
        self.heads.push(head);
        let k = match &self.order {
            Some(o) => match o.get(self.seen).copied().flatten() {
                Some(k) => {
                    self.loops += 1;
                    k
                }
                None => 100 + self.seen,
            },
            None => {
                self.loops += 1;
                self.loops
            }
        };
        self.seen += 1;
        k
    }

    /// puts the place loop k changes where hints say `$dstK`
    fn dst(&mut self, k: usize, d: Option<String>) {
        if let Some(d) = d {
            let n = format!("$dst{}", k);
            for t in self.hints.inv.values_mut().chain(self.hints.decr.values_mut()).chain(self.hints.at.values_mut()) {
                *t = t.replace(&n, &d);
            }
        }
    }

    /// how often a loop over `src` runs, when that can be read off
    fn static_count(&self, src: &Expr) -> Option<usize> {
        let lit = |e: &Expr| match e {
            Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) => l.base10_parse::<usize>().ok(),
            _ => None,
        };
        match src {
            Expr::Paren(p) => self.static_count(&p.expr),
            Expr::Range(r) => {
                let (a, b) = (lit(r.start.as_ref()?)?, lit(r.end.as_ref()?)?);
                let b = if matches!(r.limits, RangeLimits::Closed(_)) { b + 1 } else { b };
                Some(b.saturating_sub(a))
            }
            Expr::MethodCall(m) => match (m.method.to_string().as_str(), m.args.len()) {
                ("iter" | "iter_mut" | "into_iter" | "enumerate" | "rev" | "copied" | "cloned", 0) => self.static_count(&m.receiver),
                ("map", 1) => self.static_count(&m.receiver),
                ("zip", 1) => match (self.static_count(&m.receiver), self.static_count(&m.args[0])) {
                    (Some(a), Some(b)) => Some(a.min(b)),
                    (a, b) => a.or(b),
                },
                ("take", 1) => lit(&m.args[0]),
                ("skip", 1) => Some(self.static_count(&m.receiver)?.saturating_sub(lit(&m.args[0])?)),
                ("chunks", 1) => Some((self.static_count(&m.receiver)? + lit(&m.args[0])? - 1) / lit(&m.args[0])?),
                ("chunks_exact", 1) => Some(self.static_count(&m.receiver)? / lit(&m.args[0])?),
                _ => None,
            },
            e => {
                let t = self.ty(e)?;
                let t = strip_ref(&t).map(|x| x.1.to_string()).unwrap_or(t);
                arr_elem(&t)?;
                t.trim_end_matches(']').rsplit(';').next()?.trim().trim_end_matches("usize").trim_end_matches('_').parse().ok()
            }
        }
    }

    /// a short loop without hints: its iterations one after another, and the
    /// obligation that there are no more
    fn unroll(&mut self, pat: &Pat, src: &Expr, body: &Block, n: usize) -> std::result::Result<Expr, String> {
        self.unrolled += 1;
        self.seen += 1;
        let seen = self.seen;
        let from = self.raws.len();
        let p = self.pipe(src, false)?;
        if let (Pat::Ident(id), Some(t)) = (pat, &p.elem_ty) {
            if id.ident.to_string().starts_with("__") {
                self.synth.insert(id.ident.to_string(), t.clone());
            }
        }
        let mut bindings = vec![];
        self.bind(pat, p.elem, &mut bindings)?;
        let cond = p.conds.into_iter().reduce(|a, b| parse_quote!(#a && #b)).unwrap();
        let mut its: Vec<Stmt> = vec![];
        for i in 0..n {
            self.seen = seen;
            let mut blk = Block { brace_token: Default::default(), stmts: Self::finish_block(body) };
            self.visit_block_mut(&mut blk);
            let bs = blk.stmts;
            let (mut adv, mut bi) = (p.adv.clone(), bindings.clone());
            for s in adv.iter_mut().chain(bi.iter_mut()) {
                self.visit_stmt_mut(s);
            }
            let g = self.raw(format!("proof {{ __u = {}; }}", i + 1), "lowering");
            its.push(parse_quote!(if #cond { #g #(#adv)* #(#bi)* #(#bs)* }));
        }
        let mut setup = p.setup;
        for s in setup.iter_mut() {
            self.visit_stmt_mut(s);
        }
        for r in self.raws[from..].iter_mut() {
            r.text = r.text.replace("__IT__", "__u");
        }
        let gi = self.raw("let ghost mut __u: int = 0;".into(), "lowering");
        let more = self.fresh("more");
        let done = self.raw(format!("assert(!{more});"), "no further iteration");
        Ok(parse_quote!({
            #(#setup)*
            #gi
            #(#its)*
            let #more: bool = #cond;
            #done
        }))
    }

    fn elem_type(&mut self, src: &Expr) -> Option<String> {
        // element type of a pipeline, without keeping anything generated
        let (n, l) = (self.n, self.loops);
        let rl = self.raws.len();
        let t = match src {
            Expr::MethodCall(m) if m.method == "flatten" => {
                let t = self.elem_type(&m.receiver)?;
                match strip_ref(&t) {
                    Some((mt, x)) => {
                        seq_elem(x).map(|e| format!("&{}{}", if mt { "mut " } else { "" }, e))
                    }
                    None => seq_elem(&t).map(|x| x.to_string()),
                }
            }
            Expr::MethodCall(m) if m.method == "filter" => self.elem_type(&m.receiver),
            _ => self.pipe(src, false).ok().and_then(|p| p.elem_ty),
        };
        self.raws.truncate(rl);
        self.loops = l;
        let _ = n;
        t
    }

    fn while_loop(&mut self, w: &ExprWhile) -> Expr {
        let k = self.number(format!("while {}", toks(&w.cond)));
        let src = walked(&w.cond, &w.body);
        if src.is_none() {
            self.dead.insert(format!("__src{}", k));
        }
        self.dst(k, changed(&w.body));
        let mut cond = (*w.cond).clone();
        self.visit_expr_mut(&mut cond);
        let gi = self.raw(format!("let ghost mut __it{}: int = 0;", k), "lowering");
        let inc = self.raw(format!("proof {{ __it{0} = __it{0} + 1; }}", k), "lowering");
        let decr = measure(&w.cond);
        let mut auto = vec![];
        let mut muls = String::new();
        let mut g0 = String::new();
        if let Some(x) = src {
            g0.push_str(&format!("\nlet ghost __src{k} = {x};"));
        }
        if let Some(x) = bound(&w.cond, &w.body) {
            auto.push(x);
        }
        for (i, (x, c, up)) in counters(&w.body).into_iter().enumerate() {
            if self.synth.contains_key(&x) {
                continue;
            }
            g0.push_str(&format!("\nlet ghost __c{k}_{i} = {x} as int;"));
            let s = if up { "+" } else { "-" };
            if c.starts_with(|c: char| c.is_ascii_digit()) {
                auto.push(format!("{x} as int == __c{k}_{i} {s} {c} * __IT__"));
            } else {
                auto.push(format!("{x} as int == __c{k}_{i} {s} __IT__ * ({c} as int)"));
                muls.push_str(&format!("crate::sp::sp_by_const(__it{k}, {c} as int);"));
            }
        }
        for (i, (x, e)) in pushes(&w.body).into_iter().enumerate() {
            if !self.ty(&e).map_or(false, |t| vec_elem(strip_ref(&t).map_or(&*t, |x| x.1)).is_some()) {
                continue;
            }
            g0.push_str(&format!("\nlet ghost __p{k}_{i} = {x}@.len() as int;"));
            auto.push(format!("{x}@.len() == __p{k}_{i} + __IT__"));
            if let Expr::Binary(b) = &*w.cond {
                let fixed = !toks(&b.right).split(|c: char| !c.is_alphanumeric() && c != '_').any(|y| y == x || assigned(&w.body).contains_key(y));
                let len = spec_text(&b.left) == Some(format!("{x}@.len()"));
                if let (true, true, BinOp::Lt(_) | BinOp::Ne(_), Some(y)) = (fixed, len, &b.op, spec_text(&b.right)) {
                    auto.push(format!("__p{k}_{i} <= {y} ==> {x}@.len() <= {y}"));
                }
            }
        }
        let g0 = self.raw(g0, "lowering");
        let (mut known, mut done) = (vec![], vec![]);
        if !muls.is_empty() {
            known.push(self.raw(format!("proof {{ {muls} }}"), "lowering"));
            done.push(self.raw(format!("proof {{ {muls} }}"), "lowering"));
        }
        let t = self.loop_text(k, &auto, decr);
        let head = self.head(t, &format!("loop {}", k));
        let before = self.hint(&format!("loop {} before", k));
        let headh = self.hint(&format!("loop {} head", k));
        let start = self.hint(&format!("loop {} start", k));
        let end = self.hint(&format!("loop {} end", k));
        let after = self.hint(&format!("loop {} after", k));
        let mut blk = Block {
            brace_token: Default::default(),
            stmts: Self::finish_block(&w.body),
        };
        self.visit_block_mut(&mut blk);
        let bs = blk.stmts;
        let label = &w.label;
        parse_quote!({
            #gi
            #g0
            #(#before)*
            #label while #cond {
                #head
                #inc
                #(#known)*
                #(#headh)*
                #(#start)*
                #(#bs)*
                #(#end)*
            }
            #(#done)*
            #(#after)*
        })
    }

    /// `let [a, b, ..] = e`, element by element
    fn flatten_slices(&mut self, v: Vec<Stmt>) -> Vec<Stmt> {
        let mut o = vec![];
        for s in v {
            let found = match &s {
                Stmt::Local(l) => match (strip_pat(&l.pat), &l.init) {
                    (Pat::Slice(p), Some(i)) if i.diverge.is_none() => Some((p.clone(), (*i.expr).clone())),
                    _ => None,
                },
                _ => None,
            };
            match found.and_then(|(p, e)| self.slice_lets(&p, e)) {
                Some(x) => o.extend(x),
                None => o.push(s),
            }
        }
        o
    }
    fn slice_lets(&mut self, p: &PatSlice, e: Expr) -> Option<Vec<Stmt>> {
        let t = self.ty(&e)?;
        let r = strip_ref(&t).map(|x| x.0);
        let inner = strip_ref(&t).map(|x| x.1.to_string()).unwrap_or(t.clone());
        arr_elem(&inner)?;
        let et = arr_elem(&inner)?.to_string();
        let n: usize = inner.trim_end_matches(']').rsplit(';').next()?.trim().trim_end_matches("usize").trim_end_matches('_').parse().ok()?;
        if !is_copy(&et) || r == Some(true) {
            return None;
        }
        let src = self.fresh("q");
        self.synth.insert(src.to_string(), t.clone());
        let mut o: Vec<Stmt> = vec![parse_quote!(let #src = #e;)];
        let rest = p.elems.iter().position(|x| matches!(x, Pat::Rest(_)));
        for (k, x) in p.elems.iter().enumerate() {
            let at = match rest {
                Some(q) if k == q => continue,
                Some(q) if k > q => n - (p.elems.len() - k),
                _ => k,
            };
            let at = LitInt::new(&at.to_string(), Span::call_site());
            match strip_pat(x) {
                Pat::Wild(_) => {}
                Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
                    let (m, id) = (&i.mutability, &i.ident);
                    if r.is_some() {
                        o.push(parse_quote!(let #m #id = &#src[#at];));
                    } else {
                        o.push(parse_quote!(let #m #id = #src[#at];));
                    }
                }
                Pat::Reference(q) if r.is_none() => {
                    let _ = q;
                    return None;
                }
                _ => return None,
            }
        }
        Some(o)
    }

    /// `&x` inside a pattern: bind the reference and read through it
    fn unref(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct V<'x>(Vec<Stmt>, &'x mut usize);
        impl<'x> VisitMut for V<'x> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    if let (Pat::Ident(i), None) = (&*r.pat, &r.mutability) {
                        if i.subpat.is_none() && i.by_ref.is_none() {
                            *self.1 += 1;
                            let n = format_ident!("__q{}", *self.1);
                            let i = i.clone();
                            self.0.push(parse_quote!(let #i = *#n;));
                            *p = parse_quote!(#n);
                            return;
                        }
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut v = V(vec![], &mut self.n);
        v.visit_pat_mut(p);
        v.0
    }

    // ---- inlining ---------------------------------------------------------
    #[allow(clippy::all)]
    fn inline(&mut self, key: &str, def: &FnDef, recv: Option<Expr>, args: Vec<Expr>) -> Option<Expr> {
        if self.depth > 8 || def.sig.asyncness.is_some() {
            return None;
        }
        let mut block = def.block.clone();
        let mut sig = def.sig.clone();
        for g in &def.sig.generics.params {
            // array lengths are read off the arguments
            let GenericParam::Const(c) = g else { return None };
            let mut n = None;
            for (i, a) in def.sig.inputs.iter().skip(recv.is_some() as usize).zip(&args) {
                let (FnArg::Typed(i), Some(t)) = (i, self.ty(a)) else { continue };
                let want = toks(&i.ty).replace(' ', "");
                let t = t.rsplit(';').next().unwrap_or("").trim().trim_end_matches(']').to_string();
                if want.ends_with(&format!(";{}]", c.ident)) && want.matches('[').count() == 1 {
                    n = t.parse::<usize>().ok();
                }
            }
            let lit = LitInt::new(&n?.to_string(), Span::call_site());
            let mut u = Uses { name: c.ident.to_string(), count: 0, with: Some(parse_quote!(#lit)) };
            u.visit_block_mut(&mut block);
            u.visit_signature_mut(&mut sig);
            if u.count > 1 && toks(&block).split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| c.ident == x) {
                return None;
            }
        }
        let def = &FnDef { sig, block: block.clone(), file: def.file.clone(), has_self: def.has_self };
        if has_return(&block) {
            let mut r = crate::ret::Ret::new(self.n * 100);
            match r.go(block.stmts.clone()) {
                Some(v) => block.stmts = v,
                None => {
                    self.notes.push(format!("{}: cannot inline, has early returns", key));
                    return None;
                }
            }
        }
        self.n += 1;
        let tag = self.n;
        let mut map = HashMap::new();
        let mut bc = BindCollector(vec![]);
        syn::visit::Visit::visit_block(&mut bc, &block);
        for b in bc.0 {
            map.insert(b.clone(), format!("{}__{}", b, tag));
        }
        let mut pre: Vec<Stmt> = vec![];
        let mut binds: Vec<Stmt> = vec![];
        let mut all: Vec<Expr> = vec![];
        if let Some(r) = recv {
            all.push(r);
        }
        all.extend(args);
        if all.len() != def.sig.inputs.len() {
            return None;
        }
        for (inp, a) in def.sig.inputs.iter().zip(all.into_iter()) {
            match inp {
                FnArg::Receiver(r) => {
                    // the receiver must be a place, so that `self` can stand for it
                    let simple = matches!(&a, Expr::Path(p) if p.path.is_ident("self"));
                    if simple {
                        continue;
                    }
                    if !is_place(&a) {
                        return None;
                    }
                    let s = format!("self__{}", tag);
                    let id = Ident::new(&s, Span::call_site());
                    map.insert("self".into(), s);
                    let at = self.ty(&a).unwrap_or_default();
                    let isref = strip_ref(&at).is_some();
                    let by_mut = toks(&r.ty).contains("mut");
                    let by_ref = r.reference.is_some() || toks(&r.ty).starts_with('&');
                    if !by_ref {
                        binds.push(parse_quote!(let #id = #a;));
                    } else if by_mut {
                        if isref {
                            binds.push(parse_quote!(let #id = &mut *#a;));
                        } else {
                            binds.push(parse_quote!(let #id = &mut #a;));
                        }
                    } else if isref {
                        binds.push(parse_quote!(let #id = #a;));
                    } else {
                        binds.push(parse_quote!(let #id = & #a;));
                    }
                }
                FnArg::Typed(pt) => {
                    let ty = &pt.ty;
                    if let Type::ImplTrait(_) = &**ty {
                        return None;
                    }
                    match &*pt.pat {
                        Pat::Ident(id) => {
                            let nm = format!("{}__{}", id.ident, tag);
                            map.insert(id.ident.to_string(), nm.clone());
                            let nid = Ident::new(&nm, Span::call_site());
                            let m = &id.mutability;
                            let at = self.ty(&a).unwrap_or_default();
                            if at.starts_with("&mut") && is_place(&a) {
                                binds.push(parse_quote!(let #m #nid: #ty = &mut *#a;));
                            } else {
                                binds.push(parse_quote!(let #m #nid: #ty = #a;));
                            }
                        }
                        Pat::Wild(_) => pre.push(parse_quote!(let _ = #a;)),
                        _ => return None,
                    }
                }
            }
        }
        let mut alias: Vec<(String, Expr, bool)> = vec![];
        binds.retain(|s| {
            let Stmt::Local(l) = s else { return true };
            let (Pat::Ident(id), Some(i)) = (strip_pat(&l.pat), &l.init) else { return true };
            let Expr::Reference(r) = &*i.expr else { return true };
            if id.mutability.is_some() || r.mutability.is_none() {
                return true;
            }
            match &*r.expr {
                Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && is_place(&u.expr) => {
                    alias.push((id.ident.to_string(), (*u.expr).clone(), true));
                    false
                }
                x if is_place(x) => {
                    alias.push((id.ident.to_string(), x.clone(), false));
                    false
                }
                _ => true,
            }
        });
        let raw_from = self.raws.len();
        let mut ren = Renamer { map };
        ren.visit_block_mut(&mut block);
        // arguments are lowered with the caller's types
        for s in pre.iter_mut().chain(binds.iter_mut()) {
            self.visit_stmt_mut(s);
        }
        let file = std::mem::replace(&mut self.file, def.file.clone());
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        self.file = file;
        self.inlined.push(key.to_string());
        for (n, x, isref) in &alias {
            let mut a = Alias { name: n, with: x, isref: *isref };
            a.visit_block_mut(&mut block);
            let xt = toks(x);
            for r in self.raws[raw_from..].iter_mut() {
                r.text = a.text(&r.text, &xt);
            }
        }
        let st = &block.stmts;
        let ret = match &def.sig.output {
            ReturnType::Default => None,
            ReturnType::Type(_, t) => Some(t.clone()),
        };
        Some(match ret {
            Some(t) => {
                let r = self.fresh("r");
                parse_quote!({ #(#pre)* #(#binds)* let #r: #t = { #(#st)* }; #r })
            }
            None => parse_quote!({ #(#pre)* #(#binds)* #(#st)* }),
        })
    }

    /// standard functions the verifier has no contract for: replaced by the
    /// equivalents of the prelude (`std_NAME` / `std_NAME_TYPE`)
    fn try_std(&mut self, e: &Expr) -> Option<Expr> {
        let (path, local) = self.callee(e)?;
        if local {
            return None;
        }
        let name = path.rsplit("::").next().unwrap().to_string();
        if let Some(x) = self.copied_value(e, &path, &name) {
            return Some(x);
        }
        if let Some(x) = self.std_slice(e, &path, &name) {
            return Some(x);
        }
        let imp = path
            .find("<impl ")
            .map(|i| path[i + 6..].split('>').next().unwrap().to_string());
        let first: Expr = match e {
            Expr::Call(c) => c.args.first()?.clone(),
            Expr::MethodCall(m) => (*m.receiver).clone(),
            _ => return None,
        };
        let ft = self.ty(&first).unwrap_or_default();
        let (isref, base) = match strip_ref(&ft) {
            Some((_, t)) => (true, t.to_string()),
            None => (false, ft.clone()),
        };
        let ty = imp.filter(|t| is_copy(t)).unwrap_or(base.clone());
        let ty = if ty == "{integer}" { "usize".to_string() } else { ty };
        let cands = [format!("std_{}_{}", name, ty), format!("std_{}", name)];
        let f = cands.iter().find(|c| self.stdfns.contains(*c))?;
        let id = format_ident!("{}", f);
        self.std_used.push(path.clone());
        let mut args: Vec<Expr> = match e {
            Expr::Call(c) => c.args.iter().cloned().collect(),
            Expr::MethodCall(m) => {
                let r = &m.receiver;
                let scalar = is_copy(&base) && !base.starts_with('[');
                let r: Expr = if scalar && isref {
                    parse_quote!(*#r)
                } else {
                    parse_quote!(#r)
                };
                std::iter::once(r).chain(m.args.iter().cloned()).collect()
            }
            _ => return None,
        };
        let args = args.drain(..);
        let args: Vec<Expr> = args.collect();
        Some(parse_quote!(crate::sp::#id(#(#args),*)))
    }

    /// a clone of a value that is copied
    fn copied_value(&mut self, e: &Expr, path: &str, name: &str) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        if !matches!(name, "clone" | "to_owned") || !(path.contains("Clone::") || path.contains("ToOwned::")) {
            return None;
        }
        let (t, r) = (self.ty(&m.receiver)?, &m.receiver);
        let to = self.ty(e)?;
        if !is_copy(&to) || to.starts_with('&') {
            return None;
        }
        let x: Expr = match strip_ref(&t) {
            _ if t == to => parse_quote!({ #r }),
            Some((_, b)) if b == to => parse_quote!({ *#r }),
            _ => return None,
        };
        self.std_used.push(path.to_string());
        Some(x)
    }

    /// methods of slices: the equivalents are methods of a trait of the prelude, so
    /// that the receiver is adjusted as before
    fn std_slice(&mut self, e: &Expr, path: &str, name: &str) -> Option<Expr> {
        if let Expr::Call(c) = e {
            // Vec::from(slice), slice.into()
            let (to, a) = (self.ty(e)?, c.args.first()?);
            let from = self.ty(a)?;
            if name != "from" || c.args.len() != 1 || vec_elem(&to).is_none() || !strip_ref(&from).map_or(false, |x| x.1.starts_with('[')) {
                return None;
            }
            self.std_used.push(path.to_string());
            return Some(parse_quote!((#a).std_to_vec()));
        }
        let Expr::MethodCall(m) = e else { return None };
        let base = |x: &Self, e: &Expr| {
            let t = x.ty(e).unwrap_or_default();
            strip_ref(&t).map(|(_, t)| t.to_string()).unwrap_or(t)
        };
        if name == "unwrap" || name == "expect" {
            // s.try_into().unwrap(), to an array
            let Expr::MethodCall(i) = &*m.receiver else { return None };
            let to = self.ty(e)?;
            let el = to.strip_prefix('[')?.split(';').next()?.to_string();
            let f = format!("std_to_array_{}", el);
            let from = base(self, &i.receiver);
            if i.method != "try_into" || !self.stdfns.contains(&f) || from != format!("[{}]", el) {
                return None;
            }
            self.std_used.push("core::convert::TryInto::try_into".to_string());
            let (f, r) = (format_ident!("{}", f), &i.receiver);
            return Some(match self.ty(r)?.starts_with('&') {
                true => parse_quote!(crate::sp::#f(#r)),
                false => parse_quote!(crate::sp::#f(&#r)),
            });
        }
        let slice = path.contains("slice::<impl [T]>::")
            || (name == "to_owned" && base(self, &m.receiver).starts_with('[') && !base(self, &m.receiver).contains(';'));
        if !slice || !matches!(name, "to_vec" | "to_owned" | "clone_from_slice" | "swap" | "reverse" | "rotate_left" | "rotate_right") {
            return None;
        }
        self.std_used.push(path.to_string());
        let mut m = m.clone();
        m.method = Ident::new(&format!("std_{}", name.replace("to_owned", "to_vec")), m.method.span());
        Some(Expr::MethodCall(m))
    }

    /// `map_err` / `map` / `ok_or` on a result or an option, as a match
    fn sum_method(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let t = self.ty(&m.receiver)?;
        let head = t.split('<').next()?.rsplit("::").next()?.to_string();
        let (r, n) = (&m.receiver, m.method.to_string());
        if m.args.len() != 1 {
            return None;
        }
        let a = &m.args[0];
        let v = self.fresh("u");
        let x: Expr = match a {
            Expr::Path(p) => parse_quote!(#p(#v)),
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let (p, b) = (strip_pat(&c.inputs[0]), &c.body);
                parse_quote!({ let #p = #v; #b })
            }
            _ => return None,
        };
        Some(match (head.as_str(), n.as_str()) {
            ("Result", "map_err") => parse_quote!(match #r { Ok(__ok) => Ok(__ok), Err(#v) => Err(#x) }),
            ("Result", "map") => parse_quote!(match #r { Ok(#v) => Ok(#x), Err(__er) => Err(__er) }),
            ("Option", "map") => parse_quote!(match #r { Some(#v) => Some(#x), None => None }),
            _ => return None,
        })
    }

    fn try_inline(&mut self, e: &Expr) -> Option<Expr> {
        let (path, local) = self.callee(e)?;
        if !local {
            return None;
        }
        if self.contracted.contains(&path) {
            return None;
        }
        let tr = path.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
        let mut path = path;
        if self.traits.contains(&tr) {
            // `Self::f(..)` in the copy of a trait's method made for a type
            let Expr::Call(c) = e else { return None };
            let Expr::Path(f) = &*c.func else { return None };
            if f.path.segments.len() != 2 || f.path.segments[0].ident != "Self" || self.owner.is_empty() {
                return None;
            }
            path = format!("{}::{}", self.owner, f.path.segments[1].ident);
            if self.contracted.contains(&path) {
                return None;
            }
        }
        let def = self.defs.get(&path)?.clone();
        match e {
            Expr::Call(c) => {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                self.inline(&path, &def, None, args)
            }
            Expr::MethodCall(m) => {
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                self.inline(&path, &def, Some((*m.receiver).clone()), args)
            }
            _ => None,
        }
    }
}

/// the one place whose elements a loop body assigns
fn changed(b: &Block) -> Option<String> {
    struct V(HashSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            let l = match e {
                Expr::Assign(a) => Some(&*a.left),
                Expr::Binary(b) if toks(&b.op).ends_with('=') && !matches!(toks(&b.op).as_str(), "==" | "<=" | ">=" | "!=") => {
                    Some(&*b.left)
                }
                _ => None,
            };
            if let Some(Expr::Index(i)) = l {
                if is_place(&i.expr) {
                    self.0.insert(toks(&i.expr));
                }
            }
            syn::visit::visit_expr(self, e);
        }
    }
    let mut v = V(HashSet::new());
    syn::visit::Visit::visit_block(&mut v, b);
    if v.0.len() == 1 {
        v.0.into_iter().next()
    } else {
        None
    }
}
/// text of an expression that reads the same in specifications
fn spec_text(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(_) | Expr::Lit(_) => Some(toks(e)),
        Expr::Field(_) if is_place(e) => Some(toks(e)),
        Expr::Paren(p) => spec_text(&p.expr),
        Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() && is_place(&m.receiver) => {
            Some(format!("{}@.len()", toks(&m.receiver)))
        }
        Expr::Binary(b) => {
            let (x, y) = (spec_text(&b.left)?, spec_text(&b.right)?);
            let o = match b.op {
                BinOp::Add(_) => "+",
                BinOp::Sub(_) => "-",
                BinOp::Mul(_) => "*",
                _ => return None,
            };
            Some(format!("({x} {o} {y})"))
        }
        _ => None,
    }
}
/// what shrinks while a condition holds
fn measure(c: &Expr) -> Option<String> {
    match c {
        Expr::Paren(p) => measure(&p.expr),
        Expr::Binary(b) => match b.op {
            BinOp::And(_) => measure(&b.left).or_else(|| measure(&b.right)),
            BinOp::Lt(_) | BinOp::Le(_) => Some(format!("{} - {}", spec_text(&b.right)?, spec_text(&b.left)?)),
            BinOp::Gt(_) | BinOp::Ge(_) => Some(format!("{} - {}", spec_text(&b.left)?, spec_text(&b.right)?)),
            BinOp::Ne(_) => match (spec_text(&b.left)?, spec_text(&b.right)?) {
                (x, z) if z == "0" => Some(x),
                (x, y) => Some(format!("{y} - {x}")),
            },
            _ => None,
        },
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => match &*u.expr {
            Expr::MethodCall(m) if m.method == "is_empty" && is_place(&m.receiver) => {
                Some(format!("{}@.len()", toks(&m.receiver)))
            }
            _ => None,
        },
        _ => None,
    }
}
/// how often the variables are assigned in a loop body
fn assigned(b: &Block) -> HashMap<String, usize> {
    struct W(HashMap<String, usize>);
    impl<'a> syn::visit::Visit<'a> for W {
        fn visit_expr(&mut self, e: &'a Expr) {
            let n = match e {
                Expr::Assign(a) => Some(&*a.left),
                Expr::Binary(b) if toks(&b.op).ends_with('=') && !matches!(toks(&b.op).as_str(), "==" | "<=" | ">=" | "!=") => {
                    Some(&*b.left)
                }
                Expr::Reference(r) if r.mutability.is_some() => Some(&*r.expr),
                _ => None,
            };
            if let Some(Expr::Path(p)) = n {
                *self.0.entry(toks(p)).or_insert(0) += 1;
            }
            syn::visit::visit_expr(self, e);
        }
        fn visit_macro(&mut self, m: &'a Macro) {
            let n = toks(&m.path);
            if n.starts_with("assert") || n.starts_with("debug_assert") || n.starts_with("__weave") || n == "panic" {
                return;
            }
            // a local macro may assign what it is given
            for w in m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_') {
                *self.0.entry(w.to_string()).or_insert(0) += 2;
            }
        }
    }
    let mut w = W(HashMap::new());
    syn::visit::Visit::visit_block(&mut w, b);
    let mut bound = BindCollector(vec![]);
    syn::visit::Visit::visit_block(&mut bound, b);
    for x in bound.0 {
        *w.0.entry(x).or_insert(0) += 2;
    }
    w.0
}
/// a constant step: a literal or the name of a constant
fn step(e: &Expr) -> Option<String> {
    match e {
        Expr::Paren(p) => step(&p.expr),
        Expr::Lit(ExprLit { lit: Lit::Int(l), .. }) => Some(l.base10_digits().to_string()),
        Expr::Path(p) if p.qself.is_none() => {
            let n = p.path.segments.last()?.ident.to_string();
            (n.len() > 1 && n.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_')).then(|| toks(p))
        }
        _ => None,
    }
}
/// variables that change once per iteration by a constant
fn counters(b: &Block) -> Vec<(String, String, bool)> {
    let w = assigned(b);
    let mut o = vec![];
    let mut named: HashMap<String, Expr> = HashMap::new();
    for s in &b.stmts {
        if has_continue(&Block { brace_token: Default::default(), stmts: vec![s.clone()] }) {
            break;
        }
        if let Stmt::Local(l) = s {
            // `let next = x + c;`
            if let (Pat::Ident(i), Some(LocalInit { expr, diverge: None, .. })) = (strip_pat(&l.pat), &l.init) {
                if i.mutability.is_none() && i.by_ref.is_none() && w.get(&i.ident.to_string()) == Some(&2) {
                    named.insert(i.ident.to_string(), (**expr).clone());
                }
            }
            continue;
        }
        let Stmt::Expr(e, _) = s else { continue };
        let (x, c, up) = match e {
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) => (&*b.left, &*b.right, true),
            Expr::Binary(b) if matches!(b.op, BinOp::SubAssign(_)) => (&*b.left, &*b.right, false),
            Expr::Assign(a) => match named.get(&toks(&a.right)).unwrap_or(&*a.right) {
                Expr::Binary(b) if toks(&b.left) == toks(&a.left) && matches!(b.op, BinOp::Add(_)) => (&*a.left, &*b.right, true),
                Expr::Binary(b) if toks(&b.left) == toks(&a.left) && matches!(b.op, BinOp::Sub(_)) => (&*a.left, &*b.right, false),
                _ => continue,
            },
            _ => continue,
        };
        let Expr::Path(p) = x else { continue };
        let Some(c) = step(c) else { continue };
        let n = toks(p);
        if p.path.segments.len() == 1 && w.get(&n) == Some(&1) {
            o.push((n, c, up));
        }
    }
    o
}
/// vectors that grow by one element per iteration
fn pushes(b: &Block) -> Vec<(String, Expr)> {
    struct M(HashMap<String, usize>);
    impl<'a> syn::visit::Visit<'a> for M {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            let reads = ["len", "iter", "is_empty", "clone", "last", "first", "to_vec", "get"];
            if let (Expr::Path(p), false) = (&*m.receiver, reads.iter().any(|r| m.method == r)) {
                *self.0.entry(toks(p)).or_insert(0) += 1;
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut m = M(HashMap::new());
    syn::visit::Visit::visit_block(&mut m, b);
    let w = assigned(b);
    let mut o = vec![];
    for s in &b.stmts {
        if has_continue(&Block { brace_token: Default::default(), stmts: vec![s.clone()] }) {
            break;
        }
        let Stmt::Expr(Expr::MethodCall(c), _) = s else { continue };
        let Expr::Path(p) = &*c.receiver else { continue };
        let n = toks(p);
        if c.method == "push" && p.path.get_ident().is_some() && m.0.get(&n) == Some(&1) && !w.contains_key(&n) {
            o.push((n, (*c.receiver).clone()));
        }
    }
    o
}
/// what a condition on a counter that moves by one keeps true
fn bound(c: &Expr, body: &Block) -> Option<String> {
    let w = assigned(body);
    let cs = counters(body);
    let one = |e: &Expr, up: bool| -> Option<String> {
        // the counter itself, or the counter and a constant
        let t = match e {
            Expr::Paren(p) => &*p.expr,
            e => e,
        };
        let x = match t {
            Expr::Path(p) => toks(p),
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && step(&b.right).is_some() => toks(&b.left),
            _ => return None,
        };
        cs.iter().find(|c| c.0 == x && c.2 == up).map(|c| c.1.clone())
    };
    let fixed = |e: &Expr| {
        !toks(e).split(|c: char| !c.is_alphanumeric() && c != '_').any(|x| w.contains_key(x))
    };
    match c {
        Expr::Paren(p) => bound(&p.expr, body),
        Expr::Binary(b) => {
            let (x, y) = (spec_text(&b.left), spec_text(&b.right));
            match b.op {
                BinOp::And(_) => bound(&b.left, body).or_else(|| bound(&b.right, body)),
                BinOp::Lt(_) if fixed(&b.right) => one(&b.left, true).and_then(|c| Some(format!("__IT__ > 0 ==> {} <= {} + {c} - 1", x?, y?))),
                BinOp::Le(_) if fixed(&b.right) => one(&b.left, true).and_then(|c| Some(format!("__IT__ > 0 ==> {} <= {} + {c}", x?, y?))),
                BinOp::Gt(_) if fixed(&b.right) && one(&b.left, false).is_some() => {
                    one(&b.left, false).and_then(|c| Some(format!("__IT__ > 0 ==> {} >= {} - {c} + 1", x?, y?)))
                }
                BinOp::Gt(_) if fixed(&b.left) => one(&b.right, true).and_then(|c| Some(format!("__IT__ > 0 ==> {} <= {} + {c} - 1", y?, x?))),
                _ => None,
            }
        }
        _ => None,
    }
}
/// the sequence a counting loop runs over
fn walked(c: &Expr, body: &Block) -> Option<String> {
    let w = assigned(body);
    match c {
        Expr::Paren(p) => walked(&p.expr, body),
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => walked(&b.left, body).or_else(|| walked(&b.right, body)),
        Expr::Binary(b) if matches!(b.op, BinOp::Lt(_) | BinOp::Ne(_)) => match &*b.right {
            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_)) => {
                let t = toks(&m.receiver);
                (!w.contains_key(&t)).then(|| format!("{t}@"))
            }
            _ => None,
        },
        _ => None,
    }
}

fn strip_pat(p: &Pat) -> &Pat {
    match p {
        Pat::Type(t) => strip_pat(&t.pat),
        Pat::Paren(t) => strip_pat(&t.pat),
        p => p,
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                match self.gen_for(&f.label, &f.pat, &f.expr, &f.body) {
                    Ok(x) => *e = x,
                    Err(m) => self.errors.push(format!("for loop: {}", m)),
                }
                return;
            }
            Expr::While(w) => {
                let w = w.clone();
                if let Expr::Let(_) = &*w.cond {
                    self.errors.push("while let".into());
                    return;
                }
                *e = self.while_loop(&w);
                return;
            }
            Expr::Loop(_) => {
                self.errors.push("loop".into());
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let m = m.clone();
                if name == "collect" && m.args.is_empty() {
                    let t = self.ty(e).unwrap_or_default();
                    if let Some(et) = vec_elem(&t).map(|x| x.to_string()) {
                        let et: Type = match syn::parse_str(&et) {
                            Ok(t) => t,
                            Err(_) => parse_quote!(_),
                        };
                        let c = format_ident!("__v{}", self.upcoming());
                        let x = self.fresh("x");
                        let body: Block = parse_quote!({ #c.push(#x); });
                        match self.gen_for(&None, &parse_quote!(#x), &m.receiver, &body) {
                            Ok(l) => {
                                *e = parse_quote!({
                                    let mut #c: Vec<#et> = Vec::new();
                                    #l
                                    #c
                                });
                            }
                            Err(x) => self.errors.push(format!("collect: {}", x)),
                        }
                    } else {
                        self.errors.push(format!("collect into {}", t));
                    }
                    return;
                }
                if matches!(name.as_str(), "for_each" | "fold" | "all" | "any" | "map_err" | "map")
                    && m.args.iter().any(|a| matches!(a, Expr::Closure(c) if returns(&c.body)))
                {
                    self.errors.push(format!("return in a closure of {}", name));
                    return;
                }
                if let Some(x) = self.sum_method(e) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                if name == "for_each" && m.args.len() == 1 {
                    if let Expr::Closure(c) = &m.args[0] {
                        let b = &c.body;
                        let body: Block = parse_quote!({ #b; });
                        match self.gen_for(&None, &c.inputs[0], &m.receiver, &body) {
                            Ok(l) => *e = l,
                            Err(x) => self.errors.push(format!("for_each: {}", x)),
                        }
                        return;
                    }
                }
                if name == "fold" && m.args.len() == 2 {
                    if let Expr::Closure(c) = &m.args[1] {
                        let init = &m.args[0];
                        let a = self.fresh("a");
                        let t = self.ty(e).and_then(|t| syn::parse_str::<Type>(&t).ok());
                        let t = t.unwrap_or_else(|| parse_quote!(_));
                        let (ap, b) = (&c.inputs[0], &c.body);
                        let body: Block = parse_quote!({ #a = { let #ap = #a; #b }; });
                        match self.gen_for(&None, &c.inputs[1], &m.receiver, &body) {
                            Ok(l) => {
                                let mut init = init.clone();
                                self.visit_expr_mut(&mut init);
                                *e = parse_quote!({ let mut #a: #t = #init; #l #a });
                            }
                            Err(x) => self.errors.push(format!("fold: {}", x)),
                        }
                        return;
                    }
                }
                if (name == "all" || name == "any") && m.args.len() == 1 {
                    if let (Expr::Closure(c), Some("bool")) = (&m.args[0], self.ty(e).as_deref()) {
                        let a = self.fresh("a");
                        let all = name == "all";
                        let b = &c.body;
                        let body: Block = if all {
                            parse_quote!({ if !{ #b } { #a = false; break; } })
                        } else {
                            parse_quote!({ if { #b } { #a = true; break; } })
                        };
                        match self.gen_for(&None, &c.inputs[0], &m.receiver, &body) {
                            Ok(l) => *e = parse_quote!({ let mut #a: bool = #all; #l #a }),
                            Err(x) => self.errors.push(format!("{}: {}", name, x)),
                        }
                        return;
                    }
                }
                if name == "extend" && m.args.len() == 1 {
                    let t = self.ty(&m.receiver).unwrap_or_default();
                    let (_, t) = strip_ref(&t).unwrap_or((false, &t));
                    if vec_elem(t).is_some() && is_place(&m.receiver) {
                        let x = self.fresh("x");
                        let r = &m.receiver;
                        let isref = self
                            .elem_type(&m.args[0])
                            .map(|t| t.starts_with('&'))
                            .unwrap_or(false);
                        let elem_ref = vec_elem(t).unwrap().starts_with('&');
                        let body: Block = if isref && !elem_ref {
                            parse_quote!({ #r.push(*#x); })
                        } else {
                            parse_quote!({ #r.push(#x); })
                        };
                        match self.gen_for(&None, &parse_quote!(#x), &m.args[0], &body) {
                            Ok(l) => *e = l,
                            Err(x) => self.errors.push(format!("extend: {}", x)),
                        }
                        return;
                    }
                }
                if let Some(x) = self.try_inline(e) {
                    *e = x;
                    return;
                }
                if let Some(x) = self.try_std(e) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            Expr::Call(_) => {
                if let Some(x) = self.try_inline(e) {
                    *e = x;
                    return;
                }
                if let Some(x) = self.try_std(e) {
                    *e = x;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    if a.guard.is_some() {
                        continue;
                    }
                    let lets = self.unref(&mut a.pat);
                    if !lets.is_empty() {
                        let b = a.body.clone();
                        *a.body = parse_quote!({ #(#lets)* #b });
                        a.comma = Some(Default::default());
                    }
                }
            }
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    let lets = self.unref(&mut l.pat);
                    i.then_branch.stmts.splice(0..0, lets);
                }
            }
            Expr::Binary(b) => {
                let lt = self.ty(&b.left).unwrap_or_default();
                let rt = self.ty(&b.right).unwrap_or_default();
                let arith = matches!(
                    b.op,
                    BinOp::Add(_)
                        | BinOp::Sub(_)
                        | BinOp::Mul(_)
                        | BinOp::Div(_)
                        | BinOp::Rem(_)
                        | BinOp::BitXor(_)
                        | BinOp::BitAnd(_)
                        | BinOp::BitOr(_)
                        | BinOp::Shl(_)
                        | BinOp::Shr(_)
                );
                let assign = matches!(
                    b.op,
                    BinOp::AddAssign(_)
                        | BinOp::SubAssign(_)
                        | BinOp::MulAssign(_)
                        | BinOp::DivAssign(_)
                        | BinOp::RemAssign(_)
                        | BinOp::BitXorAssign(_)
                        | BinOp::BitAndAssign(_)
                        | BinOp::BitOrAssign(_)
                        | BinOp::ShlAssign(_)
                        | BinOp::ShrAssign(_)
                );
                visit_mut::visit_expr_binary_mut(self, b);
                let prim = |t: &str| strip_ref(t).map(|x| is_copy(x.1) && !x.1.starts_with('[')) == Some(true);
                if arith && prim(&lt) || (!assign && !arith && prim(&lt) && prim(&rt)) {
                    let l = &b.left;
                    b.left = parse_quote!((*#l));
                }
                if (arith || assign) && prim(&rt) || (!assign && !arith && prim(&lt) && prim(&rt)) {
                    let r = &b.right;
                    b.right = parse_quote!((*#r));
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // an iterator kept in a variable and used once: put it where it is used
        let mut k = 0;
        while k < b.stmts.len() {
            let found = match &b.stmts[k] {
                Stmt::Local(l) => match (strip_pat(&l.pat), &l.init) {
                    (Pat::Ident(id), Some(i)) if i.diverge.is_none() => {
                        let t = self.ty(&i.expr).unwrap_or_default();
                        let is_iter = t.contains("::iter::") || t.contains("slice::") || t.contains("vec::IntoIter")
                            || t.contains("ops::Range");
                        if is_iter && !t.starts_with('&') {
                            Some((id.ident.to_string(), (*i.expr).clone()))
                        } else {
                            None
                        }
                    }
                    _ => None,
                },
                _ => None,
            };
            if let Some((n, e)) = found {
                let mut c = Uses { name: n.clone(), count: 0, with: None };
                for s in b.stmts[k + 1..].iter_mut() {
                    c.visit_stmt_mut(s);
                }
                // what does not borrow its operands may only move to the next statement
                let copies = toks(&e).contains("move") || self.ty(&e).unwrap_or_default().contains("ops::Range");
                let next = copies && {
                    let mut d = Uses { name: n.clone(), count: 0, with: None };
                    match b.stmts.get(k + 1) {
                        Some(Stmt::Expr(Expr::ForLoop(f), _)) => d.visit_expr_mut(&mut (*f.expr).clone()),
                        Some(s) => d.visit_stmt_mut(&mut s.clone()),
                        None => {}
                    }
                    d.count == 1
                };
                if c.count == 1 && (!copies || next) {
                    c.with = Some(e);
                    for s in b.stmts[k + 1..].iter_mut() {
                        c.visit_stmt_mut(s);
                    }
                    b.stmts.remove(k);
                    continue;
                }
            }
            k += 1;
        }
        let mut out: Vec<Stmt> = vec![];
        let flat = self.flatten_slices(std::mem::take(&mut b.stmts));
        for mut s in flat {
            // statements without effect
            match &s {
                Stmt::Expr(Expr::Lit(_), Some(_)) => continue,
                Stmt::Expr(Expr::Tuple(t), Some(_)) if t.elems.is_empty() => continue,
                Stmt::Local(l) => {
                    if let (Pat::Wild(_), Some(i)) = (strip_pat(&l.pat), &l.init) {
                        if matches!(&*i.expr, Expr::Lit(_)) || is_place(&i.expr)
                            || matches!(&*i.expr, Expr::Reference(r) if is_place(&r.expr))
                            || matches!(&*i.expr, Expr::Tuple(t) if t.elems.is_empty())
                        {
                            continue;
                        }
                    }
                }
                // state that outlives the call
                Stmt::Item(Item::Static(_)) => self.errors.push("static in a body".into()),
                Stmt::Item(_) => {}
                Stmt::Macro(m) if m.mac.path.segments.last().map_or(false, |x| x.ident == "thread_local") => {
                    self.errors.push("thread_local in a body".into())
                }
                Stmt::Macro(m) if m.mac.path.is_ident("__weave_fact") => {
                    if let Ok(t) = parse2::<LitStr>(m.mac.tokens.clone()) {
                        s = self.raw(t.value(), "fact");
                    }
                }
                Stmt::Macro(m)
                    if m.mac.path.is_ident("debug_assert")
                        || m.mac.path.is_ident("assert")
                        || m.mac.path.is_ident("debug_assert_eq")
                        || m.mac.path.is_ident("assert_eq") =>
                {
                    if let Some(x) = self.runtime_assert(&m.mac) {
                        s = x;
                    }
                }
                _ => {}
            }
            let names = calls_in(&s, self);
            self.visit_stmt_mut(&mut s);
            let mut before = vec![];
            let mut after = vec![];
            for n in names {
                let c = self.calls.entry(n.clone()).or_insert(0);
                *c += 1;
                let c = *c;
                before.extend(self.hint(&format!("call {} {} before", n, c)));
                after.extend(self.hint(&format!("call {} {} after", n, c)));
                before.extend(self.hint(&format!("call {} * before", n)));
                after.extend(self.hint(&format!("call {} * after", n)));
            }
            out.extend(before);
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }

    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let name = m.path.to_token_stream().to_string();
        if name.starts_with("__weave") {
            return;
        }
        if let Ok(mut args) =
            m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}

impl<'a> Lower<'a> {
    /// an `assert!` that is part of the code: a condition that must hold
    fn runtime_assert(&mut self, m: &Macro) -> Option<Stmt> {
        let args = m
            .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
            .ok()?;
        let name = m.path.to_token_stream().to_string();
        let c: Expr = if name.ends_with("_eq") {
            let (a, b) = (args.get(0)?, args.get(1)?);
            parse_quote!(#a == #b)
        } else {
            args.get(0)?.clone()
        };
        Some(parse_quote!(crate::sp::rt_assert(#c);))
    }
}

struct CallNames<'b, 'a> {
    lw: &'b Lower<'a>,
    out: Vec<String>,
}
impl<'b, 'a, 'ast> syn::visit::Visit<'ast> for CallNames<'b, 'a> {
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        syn::visit::visit_expr_call(self, c);
        if let Some((p, l)) = self.lw.callee(&Expr::Call(c.clone())) {
            self.out.push(format!("{}{}", if l { "" } else { "std:" }, p.rsplit("::").next().unwrap()));
        }
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, c);
        if let Some((p, l)) = self.lw.callee(&Expr::MethodCall(c.clone())) {
            self.out.push(format!("{}{}", if l { "" } else { "std:" }, p.rsplit("::").next().unwrap()));
        }
    }
    fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
    fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
    fn visit_block(&mut self, _: &'ast Block) {}
    fn visit_macro(&mut self, m: &'ast Macro) {
        if let Ok(args) =
            m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        {
            for a in args.iter() {
                self.visit_expr(a);
            }
        }
    }
}
fn calls_in(s: &Stmt, lw: &Lower) -> Vec<String> {
    let mut c = CallNames { lw, out: vec![] };
    syn::visit::Visit::visit_stmt(&mut c, s);
    c.out
}

#[allow(unused)]
fn unused() {
    let _ = quote!();
}
