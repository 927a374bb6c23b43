//! The outline of a function body: which loops, names and calls it has.  Proof
//! hints are written for an outline; a failed proof over another outline means
//! "undecided", not "violated".
use serde_json::{json, Value};
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
struct Shape {
    loops: Vec<String>,
    names: Vec<String>,
    calls: Vec<String>,
}

fn chain(e: &Expr) -> String {
    match e {
        Expr::MethodCall(m) => format!("{}.{}", chain(&m.receiver), m.method),
        Expr::Range(_) => "range".into(),
        Expr::Paren(p) => chain(&p.expr),
        Expr::Reference(r) => format!("&{}", chain(&r.expr)),
        _ => "_".into(),
    }
}

impl<'a> Visit<'a> for Shape {
    fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
        self.loops.push(format!("for {}", chain(&f.expr)));
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_while(&mut self, w: &'a ExprWhile) {
        self.loops.push("while".into());
        visit::visit_expr_while(self, w);
    }
    fn visit_expr_loop(&mut self, w: &'a ExprLoop) {
        self.loops.push("loop".into());
        visit::visit_expr_loop(self, w);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.names.push(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.calls.push(p.path.segments.last().unwrap().ident.to_string());
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.calls.push(c.method.to_string());
        visit::visit_expr_method_call(self, c);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if let Ok(args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            for a in args.iter() {
                // borrowed for the traversal only
                let mut s = Shape::default();
                s.visit_expr(a);
                self.loops.extend(s.loops);
                self.names.extend(s.names);
                self.calls.extend(s.calls);
            }
        }
    }
}

pub fn of(b: &Block) -> Value {
    let mut s = Shape::default();
    s.visit_block(b);
    s.names.sort();
    s.names.dedup();
    s.calls.sort();
    s.calls.dedup();
    json!({"loops": s.loops, "names": s.names, "calls": s.calls})
}

/// the bindings of a function, in order: (name, line, column, mutable)
pub fn binds(sig: &Signature, b: &Block) -> Vec<(String, usize, usize, bool)> {
    struct B(Vec<(String, usize, usize, bool)>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            // rustc's span of a binding includes `ref` and `mut`
            let s = match (&p.by_ref, &p.mutability) {
                (Some(r), _) => r.span.start(),
                (None, Some(m)) => m.span.start(),
                _ => p.ident.span().start(),
            };
            self.0.push((p.ident.to_string(), s.line, s.column, p.mutability.is_some()));
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = B(vec![]);
    v.visit_signature(sig);
    v.visit_block(b);
    v.0
}

pub type Bind = (String, String, bool);

/// which current variable plays the part of each committed one: the best order-keeping match
pub fn align(base: &[Bind], now: &[Bind]) -> Vec<(String, String)> {
    let score = |a: &Bind, b: &Bind| -> i64 {
        let t = a.1.replace(' ', "") == b.1.replace(' ', "");
        match (t, a.0 == b.0) {
            (true, true) => 10,
            (true, false) => 3 + (a.2 == b.2) as i64,
            (false, true) => 2,
            _ => -100,
        }
    };
    let (n, m) = (base.len(), now.len());
    let mut d = vec![vec![0i64; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            d[i][j] = d[i + 1][j].max(d[i][j + 1]).max(d[i + 1][j + 1] + score(&base[i], &now[j]));
        }
    }
    let (mut i, mut j, mut o) = (0, 0, vec![]);
    while i < n && j < m {
        let s = score(&base[i], &now[j]);
        if s > 0 && d[i][j] == d[i + 1][j + 1] + s {
            if base[i].1.replace(' ', "") == now[j].1.replace(' ', "") {
                o.push((base[i].0.clone(), now[j].0.clone()));
            }
            i += 1;
            j += 1;
        } else if d[i][j] == d[i + 1][j] {
            i += 1;
        } else {
            j += 1;
        }
    }
    o
}

/// a loop header without the marks of inlining
fn plain(t: &str) -> String {
    let mut o = String::new();
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '_' && i + 2 < b.len() && b[i + 1] == '_' && b[i + 2].is_ascii_digit() && i > 0 && b[i - 1].is_alphanumeric() {
            i += 2;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    o
}
/// which committed loop (from 1) each current one is, by their headers and order
pub fn align_loops(base: &[String], now: &[String]) -> Vec<Option<usize>> {
    let kind = |t: &str| -> Vec<String> {
        let w: Vec<String> = t.split_whitespace().map(|x| x.to_string()).collect();
        w
    };
    let score = |a: &str, b: &str| -> i64 {
        let (a, b) = (plain(a), plain(b));
        if a == b {
            return 40;
        }
        let (x, y) = (kind(&a), kind(&b));
        let common = x.iter().filter(|w| y.contains(w)).count() as i64;
        1 + 20 * common / x.len().max(y.len()).max(1) as i64
    };
    let (n, m) = (base.len(), now.len());
    let mut d = vec![vec![0i64; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            d[i][j] = d[i + 1][j].max(d[i][j + 1]).max(d[i + 1][j + 1] + score(&base[i], &now[j]));
        }
    }
    let mut o = vec![None; m];
    let (mut i, mut j) = (0, 0);
    while i < n && j < m {
        if d[i][j] == d[i + 1][j + 1] + score(&base[i], &now[j]) {
            o[j] = Some(i + 1);
            i += 1;
            j += 1;
        } else if d[i][j] == d[i + 1][j] {
            i += 1;
        } else {
            j += 1;
        }
    }
    o
}
