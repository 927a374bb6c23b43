//! Behaviour-keeping rewrites of one source file: prints `class\tline\tstart\tend\ttext` (byte
//! offsets) for every place outside tests where a rewrite of that class applies.
use proc_macro2::Span;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct V<'a> {
    src: &'a str,
    lines: Vec<usize>,
}
impl<'a> V<'a> {
    fn off(&self, p: proc_macro2::LineColumn) -> usize {
        let s = self.lines[p.line - 1];
        s + self.src[s..].chars().take(p.column).map(|c| c.len_utf8()).sum::<usize>()
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
    fn text(&self, s: Span) -> &'a str {
        let (a, b) = self.range(s);
        &self.src[a..b]
    }
    fn emit(&self, class: &str, s: Span, t: String) {
        let (a, b) = self.range(s);
        if self.src[a..b].contains("//") {
            return;
        }
        println!("{}\t{}\t{}\t{}\t{}", class, s.start().line, a, b, t.replace('\n', " "));
    }
}
fn lit(e: &Expr) -> Option<u64> {
    match e {
        Expr::Lit(l) => match &l.lit {
            Lit::Int(i) if i.suffix().is_empty() => i.base10_parse().ok(),
            _ => None,
        },
        _ => None,
    }
}
fn pure_(e: &Expr) -> bool {
    struct C(bool);
    impl<'a> Visit<'a> for C {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::MethodCall(m) if m.method == "len" => {}
                Expr::Call(_) | Expr::MethodCall(_) | Expr::Macro(_) | Expr::Assign(_) | Expr::Try(_) | Expr::Return(_) | Expr::Block(_) => self.0 = false,
                _ => {}
            }
            visit::visit_expr(self, e);
        }
    }
    let mut c = C(true);
    c.visit_expr(e);
    c.0
}
impl<'a, 'b> Visit<'b> for V<'a> {
    fn visit_item_mod(&mut self, m: &'b ItemMod) {
        if m.attrs.iter().any(|a| a.path().is_ident("cfg")) {
            return;
        }
        visit::visit_item_mod(self, m)
    }
    fn visit_item_const(&mut self, _: &'b ItemConst) {}
    fn visit_item_macro(&mut self, _: &'b ItemMacro) {}
    fn visit_type(&mut self, _: &'b Type) {}
    fn visit_pat(&mut self, _: &'b Pat) {}
    fn visit_expr_repeat(&mut self, _: &'b ExprRepeat) {}
    fn visit_expr_binary(&mut self, e: &'b ExprBinary) {
        let (l, r) = (self.text(e.left.span()), self.text(e.right.span()));
        let s = e.span();
        let both = pure_(&e.left) && pure_(&e.right);
        let op = |o: &str| self.emit(o, s, format!("({}) {} ({})", r, self.text(e.op.span()), l));
        match &e.op {
            BinOp::Add(_) | BinOp::Mul(_) if both => op("commute-arith"),
            BinOp::BitXor(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) if both => op("commute-bits"),
            BinOp::And(_) => self.emit("demorgan", s, format!("!(!({}) || !({}))", l, r)),
            BinOp::Or(_) => self.emit("demorgan", s, format!("!(!({}) && !({}))", l, r)),
            BinOp::Lt(_) => {
                self.emit("flip-cmp", s, format!("({}) > ({})", r, l));
                self.emit("neg-cmp", s, format!("!(({}) >= ({}))", l, r));
            }
            BinOp::Le(_) => {
                self.emit("flip-cmp", s, format!("({}) >= ({})", r, l));
                self.emit("neg-cmp", s, format!("!(({}) > ({}))", l, r));
            }
            BinOp::Gt(_) => {
                self.emit("flip-cmp", s, format!("({}) < ({})", r, l));
                self.emit("neg-cmp", s, format!("!(({}) <= ({}))", l, r));
            }
            BinOp::Ge(_) => {
                self.emit("flip-cmp", s, format!("({}) <= ({})", r, l));
                self.emit("neg-cmp", s, format!("!(({}) < ({}))", l, r));
            }
            BinOp::Eq(_) => {
                self.emit("flip-eq", s, format!("({}) == ({})", r, l));
                self.emit("neg-eq", s, format!("!(({}) != ({}))", l, r));
            }
            BinOp::Ne(_) => {
                self.emit("flip-eq", s, format!("({}) != ({})", r, l));
                self.emit("neg-eq", s, format!("!(({}) == ({}))", l, r));
            }
            BinOp::AddAssign(_) => self.emit("open-assign", s, format!("{} = {} + ({})", l, l, r)),
            BinOp::SubAssign(_) => self.emit("open-assign", s, format!("{} = {} - ({})", l, l, r)),
            _ => {}
        }
        // powers of two
        if let Some(k) = lit(&e.right).filter(|k| k.is_power_of_two() && *k > 1) {
            let b = k.trailing_zeros();
            match &e.op {
                BinOp::Rem(_) => self.emit("rem-mask", s, format!("(({}) & {})", l, k - 1)),
                BinOp::Div(_) => self.emit("div-shift", s, format!("(({}) >> {})", l, b)),
                BinOp::Mul(_) => self.emit("mul-shift", s, format!("(({}) << {})", l, b)),
                _ => {}
            }
        }
        if let Some(k) = lit(&e.right) {
            match &e.op {
                BinOp::Shr(_) if k < 32 => self.emit("shift-div", s, format!("(({}) / {})", l, 1u64 << k)),
                BinOp::BitAnd(_) if (k + 1).is_power_of_two() => self.emit("mask-rem", s, format!("(({}) % {})", l, k + 1)),
                BinOp::Lt(_) if k > 0 => self.emit("lt-le", s, format!("({}) <= {}", l, k - 1)),
                BinOp::Ge(_) if k > 0 => self.emit("ge-gt", s, format!("({}) > {}", l, k - 1)),
                BinOp::Le(_) => self.emit("le-lt", s, format!("({}) < {}", l, k + 1)),
                BinOp::Gt(_) => self.emit("gt-ge", s, format!("({}) >= {}", l, k + 1)),
                _ => {}
            }
        }
        if let BinOp::BitOr(_) = &e.op {
            if self.src.contains("<<") {
                self.emit("or-xor", s, format!("({}) ^ ({})", l, r));
                self.emit("or-add", s, format!("({}) + ({})", l, r));
            }
        }
        // association
        if let (BinOp::Add(_) | BinOp::BitXor(_) | BinOp::BitOr(_), Expr::Binary(x)) = (&e.op, &*e.left) {
            if std::mem::discriminant(&x.op) == std::mem::discriminant(&e.op) {
                let o = self.text(e.op.span());
                self.emit("assoc", s, format!("({}) {} (({}) {} ({}))", self.text(x.left.span()), o, self.text(x.right.span()), o, r));
            }
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_if(&mut self, f: &'b ExprIf) {
        if let Some((_, e)) = &f.else_branch {
            if !matches!(&*f.cond, Expr::Let(_)) && matches!(&**e, Expr::Block(_)) {
                self.emit("swap-if", f.span(), format!("if !({}) {} else {}", self.text(f.cond.span()), self.text(e.span()), self.text(f.then_branch.span())));
            }
        }
        visit::visit_expr_if(self, f);
    }
    fn visit_expr_index(&mut self, i: &'b ExprIndex) {
        let t = self.text(i.index.span());
        if pure_(&i.index) && !matches!(&*i.index, Expr::Range(_)) {
            self.emit("index-plus", i.index.span(), format!("({}) + 0", t));
        }
        if let Expr::Range(r) = &*i.index {
            if let (None, Some(e)) = (&r.start, &r.end) {
                self.emit("range-zero", i.index.span(), format!("0..{}", self.text(e.span())));
            }
            if let (Some(a), None) = (&r.start, &r.end) {
                if let Expr::Path(_) = &*i.expr {
                    self.emit("range-end", i.index.span(), format!("{}..{}.len()", self.text(a.span()), self.text(i.expr.span())));
                }
            }
        }
        visit::visit_expr_index(self, i);
    }
    fn visit_expr_for_loop(&mut self, f: &'b ExprForLoop) {
        if let Expr::Range(r) = &*f.expr {
            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                if let Some(k) = lit(b).filter(|k| *k > 0) {
                    self.emit("inclusive", f.expr.span(), format!("{}..={}", self.text(a.span()), k - 1));
                }
            }
        }
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
        if m.method == "wrapping_add" && m.args.len() == 1 && pure_(&m.args[0]) && pure_(&m.receiver) {
            self.emit("commute-wrap", m.span(), format!("({}).wrapping_add({})", self.text(m.args[0].span()), self.text(m.receiver.span())));
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_cast(&mut self, c: &'b ExprCast) {
        if let Type::Path(p) = &*c.ty {
            if p.path.is_ident("u8") {
                if let Expr::Path(_) | Expr::Paren(_) = &*c.expr {
                    self.emit("mask-cast", c.span(), format!("({} & 0xff) as u8", self.text(c.expr.span())));
                }
            }
        }
        visit::visit_expr_cast(self, c);
    }
    fn visit_block(&mut self, b: &'b Block) {
        for s in &b.stmts {
            // a name in between
            if let Stmt::Expr(e, None) = s {
                if matches!(e, Expr::Call(_) | Expr::MethodCall(_) | Expr::Binary(_) | Expr::Array(_) | Expr::Struct(_) | Expr::Index(_)) {
                    self.emit("let-result", e.span(), format!("let result_value = {}; result_value", self.text(e.span())));
                    self.emit("return", e.span(), format!("return {};", self.text(e.span())));
                }
            }
        }
        for w in b.stmts.windows(2) {
            if let (Stmt::Local(a), Stmt::Local(c)) = (&w[0], &w[1]) {
                // independent neighbours
                struct N(Vec<String>);
                impl<'a> Visit<'a> for N {
                    fn visit_ident(&mut self, i: &'a Ident) {
                        self.0.push(i.to_string())
                    }
                }
                let names = |p: &Pat| { let mut n = N(vec![]); n.visit_pat(p); n.0 };
                let mut used = N(vec![]);
                if let Some(i) = &c.init { used.visit_expr(&i.expr) }
                let mut used_a = N(vec![]);
                if let Some(i) = &a.init { used_a.visit_expr(&i.expr) }
                let (na, nc) = (names(&a.pat), names(&c.pat));
                let ok = |l: &Local| l.init.as_ref().map(|i| pure_(&i.expr)).unwrap_or(true);
                if !used.0.iter().any(|x| na.contains(x)) && !used_a.0.iter().any(|x| nc.contains(x)) && na.iter().all(|x| !nc.contains(x)) && (ok(a) || ok(c)) {
                    let (x, _) = self.range(a.span());
                    let (_, y) = self.range(c.span());
                    println!("swap-lets\t{}\t{}\t{}\t{}", a.span().start().line, x, y, format!("{} {}", self.text(c.span()), self.text(a.span())).replace('\n', " "));
                }
            }
        }
        visit::visit_block(self, b);
    }
}
fn main() {
    let p = std::env::args().nth(1).unwrap();
    let src = std::fs::read_to_string(&p).unwrap();
    let f = parse_file(&src).unwrap();
    let mut lines = vec![0];
    for (i, c) in src.bytes().enumerate() {
        if c == b'\n' {
            lines.push(i + 1);
        }
    }
    let mut v = V { src: &src, lines };
    v.visit_file(&f);
}
