//! The facts the type dumper printed, keyed by source span.
use std::collections::HashMap;

pub type Key = (usize, usize, usize, usize);

#[derive(Default, Clone)]
pub struct FileTypes {
    pub expr: HashMap<Key, String>,
    pub call: HashMap<Key, (String, bool)>,
    /// bindings in order: (line, col, name, type)
    pub binds: Vec<(usize, usize, String, String)>,
}

pub fn load(path: &str) -> HashMap<String, FileTypes> {
    let mut m: HashMap<String, FileTypes> = HashMap::new();
    let text = std::fs::read_to_string(path).unwrap_or_default();
    for l in text.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        if f.len() < 5 {
            continue;
        }
        let loc: Vec<&str> = f[1].split('|').collect();
        if loc.len() != 5 {
            continue;
        }
        let n: Vec<usize> = loc[1..].iter().map(|x| x.parse().unwrap()).collect();
        let key = (n[0], n[1], n[2], n[3]);
        let ft = m.entry(loc[0].to_string()).or_default();
        match f[0] {
            "E" => {
                if !f[2].starts_with("fn(") {
                    ft.expr.entry(key).or_insert_with(|| f[2].to_string());
                }
            }
            "M" => {
                ft.call
                    .entry(key)
                    .or_insert_with(|| (f[2].to_string(), f[3] == "local"));
            }
            "B" => ft
                .binds
                .push((n[0], n[1], f[3].to_string(), f[2].to_string())),
            _ => {}
        }
    }
    m
}

/// rustc gives a parenthesised expression the span of its parentheses: say the same of what is inside
pub fn through_parens(items: &[syn::Item], ft: &mut FileTypes) {
    struct P<'a>(&'a mut FileTypes);
    fn key<T: syn::spanned::Spanned>(t: &T) -> Key {
        let s = t.span();
        (s.start().line, s.start().column, s.end().line, s.end().column)
    }
    impl<'a, 'b> syn::visit::Visit<'b> for P<'a> {
        fn visit_expr_paren(&mut self, p: &'b syn::ExprParen) {
            let (o, i) = (key(p), key(&*p.expr));
            if let Some(t) = self.0.expr.get(&o).cloned() {
                self.0.expr.entry(i).or_insert(t);
            }
            if let Some(t) = self.0.call.get(&o).cloned() {
                self.0.call.entry(i).or_insert(t);
            }
            syn::visit::visit_expr_paren(self, p);
        }
    }
    let mut p = P(ft);
    for i in items {
        syn::visit::Visit::visit_item(&mut p, i);
    }
}
