//! Fields of the crate's structs that were renamed: the contracts speak of the
//! names in the `@struct` lines of specs/*.ct; a current field that is not among
//! them plays the part of a missing one of the same type, in order.
use crate::types::FileTypes;
use proc_macro2::Ident;
use quote::ToTokens;
use std::collections::HashMap;
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Map = HashMap<String, HashMap<String, String>>;

fn squeeze(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

/// `@struct module::Name field: type, ...` lines
pub fn parse(text: &str, out: &mut HashMap<String, Vec<(String, String)>>) {
    for l in text.lines() {
        let Some(r) = l.strip_prefix("@struct ") else { continue };
        let Some((n, f)) = r.trim().split_once(' ') else { continue };
        let (mut v, mut cur, mut depth) = (vec![], String::new(), 0);
        for c in f.chars().chain(",".chars()) {
            match c {
                '<' | '[' | '(' => depth += 1,
                '>' | ']' | ')' => depth -= 1,
                ',' if depth == 0 => {
                    if let Some((a, b)) = cur.split_once(':') {
                        v.push((a.trim().to_string(), squeeze(b)));
                    }
                    cur.clear();
                    continue;
                }
                _ => {}
            }
            cur.push(c);
        }
        out.insert(n.to_string(), v);
    }
}

/// current name -> name in the contracts
pub fn rename(s: &ItemStruct, want: &[(String, String)]) -> HashMap<String, String> {
    let have: Vec<(String, String)> = s
        .fields
        .iter()
        .filter_map(|f| Some((f.ident.as_ref()?.to_string(), squeeze(&f.ty.to_token_stream().to_string()))))
        .collect();
    let mut free: Vec<&(String, String)> = have.iter().filter(|h| !want.iter().any(|w| w.0 == h.0)).collect();
    let mut m = HashMap::new();
    let lack: Vec<&(String, String)> = want.iter().filter(|w| !have.iter().any(|h| h.0 == w.0)).collect();
    for w in &lack {
        if let Some(i) = free.iter().position(|h| h.1 == w.1) {
            m.insert(free.remove(i).0.clone(), w.0.clone());
        }
    }
    // the one that is left plays the last part, whatever its type is called
    let left: Vec<_> = lack.iter().filter(|w| !m.values().any(|x| *x == w.0)).collect();
    if left.len() == 1 && free.len() == 1 {
        m.insert(free[0].0.clone(), left[0].0.clone());
    }
    m
}

pub struct Rename<'a> {
    pub types: Option<&'a FileTypes>,
    pub map: &'a Map,
    /// what `Self` is
    pub this: String,
    pub module: String,
}

impl<'a> Rename<'a> {
    fn ty(&self, e: &Expr) -> Option<String> {
        if let Expr::Paren(p) = e {
            return self.ty(&p.expr);
        }
        let s = e.span();
        let (a, b) = (s.start(), s.end());
        let t = self.types?.expr.get(&(a.line, a.column, b.line, b.column)).cloned();
        if t.is_none() {
            if let Expr::Path(p) = e {
                if p.path.is_ident("self") {
                    return Some(self.this.clone());
                }
            }
        }
        t
    }
    fn fields(&self, t: &str) -> Option<&'a HashMap<String, String>> {
        let mut t = t.trim();
        while let Some(r) = t.strip_prefix('&') {
            let mut r = r.trim_start();
            if r.starts_with('\'') {
                r = r.split_once(' ')?.1;
            }
            t = r.strip_prefix("mut ").unwrap_or(r).trim();
        }
        self.map.get(t.split('<').next()?)
    }
    fn of_path(&self, p: &Path) -> Option<&'a HashMap<String, String>> {
        let n = p.segments.last()?.ident.to_string();
        if n == "Self" {
            return self.map.get(&self.this);
        }
        self.map
            .get(&format!("{}::{}", self.module, n))
            .or_else(|| self.map.iter().find(|(k, _)| k.rsplit("::").next() == Some(n.as_str())).map(|x| x.1))
    }
    fn change(&self, m: &mut Member, f: &HashMap<String, String>) {
        if let Member::Named(i) = m {
            if let Some(n) = f.get(&i.to_string()) {
                *i = Ident::new(n, i.span());
            }
        }
    }
}

impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) => {
                if let Some(m) = self.ty(&f.base).and_then(|t| self.fields(&t)) {
                    let mut x = f.member.clone();
                    self.change(&mut x, m);
                    f.member = x;
                }
            }
            Expr::Struct(s) => {
                if let Some(m) = self.of_path(&s.path) {
                    for v in s.fields.iter_mut() {
                        v.colon_token = Some(Default::default());
                        self.change(&mut v.member, m);
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_struct_mut(&mut self, p: &mut PatStruct) {
        if let Some(m) = self.of_path(&p.path) {
            for v in p.fields.iter_mut() {
                v.colon_token = Some(Default::default());
                self.change(&mut v.member, m);
            }
        }
        visit_mut::visit_pat_struct_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter_mut() {
                self.visit_expr_mut(a);
            }
            m.tokens = args.to_token_stream();
        }
    }
}
