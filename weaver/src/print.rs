//! Token printer.  Spec text travels through the syntax tree as
//! `__weave_raw!(n);` statements and `__weave_head!(n);` block openers and is
//! spliced in here; every spliced line is recorded in the line map.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

#[derive(Clone, Debug)]
pub struct Region {
    pub from: usize,
    pub to: usize,
    pub func: String,
    pub kind: String,
}

pub struct Raw {
    pub text: String,
    pub kind: String,
}

pub struct Printer {
    pub out: String,
    pub line: usize,
    pub indent: usize,
    pub raws: Vec<Raw>,
    pub regions: Vec<Region>,
    pub func: String,
    fresh: bool,
    joint: bool,
}

impl Printer {
    pub fn new() -> Self {
        Printer {
            out: String::new(),
            line: 1,
            indent: 0,
            raws: vec![],
            regions: vec![],
            func: String::new(),
            fresh: true,
            joint: false,
        }
    }
    pub fn nl(&mut self) {
        if !self.fresh {
            self.out.push('\n');
            self.line += 1;
            self.fresh = true;
        }
        self.joint = false;
    }
    fn word(&mut self, s: &str) {
        if self.fresh {
            for _ in 0..self.indent {
                self.out.push_str("  ");
            }
            self.fresh = false;
        } else if !self.joint {
            self.out.push(' ');
        }
        self.joint = false;
        self.out.push_str(s);
        self.line += s.matches('\n').count();
    }
    pub fn raw(&mut self, s: &str, kind: &str) {
        self.nl();
        let from = self.line;
        for l in s.lines() {
            if l.trim().is_empty() {
                continue;
            }
            for _ in 0..self.indent {
                self.out.push_str("  ");
            }
            self.out.push_str(l);
            self.out.push('\n');
            self.line += 1;
        }
        self.fresh = true;
        self.joint = false;
        if self.line > from {
            self.regions.push(Region {
                from,
                to: self.line - 1,
                func: self.func.clone(),
                kind: kind.to_string(),
            });
        }
    }
    fn marker(tts: &[TokenTree], i: usize) -> Option<(String, usize)> {
        if i + 2 < tts.len() {
            if let (TokenTree::Ident(a), TokenTree::Punct(b), TokenTree::Group(g)) =
                (&tts[i], &tts[i + 1], &tts[i + 2])
            {
                let a = a.to_string();
                if b.as_char() == '!' && (a == "__weave_raw" || a == "__weave_head") {
                    let n: usize = g.stream().to_string().trim().parse().unwrap();
                    return Some((a, n));
                }
            }
        }
        None
    }
    pub fn tokens(&mut self, ts: TokenStream) {
        let tts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < tts.len() {
            if let Some((kind, n)) = Self::marker(&tts, i) {
                if kind == "__weave_raw" {
                    let (t, k) = (self.raws[n].text.clone(), self.raws[n].kind.clone());
                    self.raw(&t, &k);
                }
                i += 3;
                if let Some(TokenTree::Punct(p)) = tts.get(i) {
                    if p.as_char() == ';' {
                        i += 1;
                    }
                }
                continue;
            }
            match &tts[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            if let Some((k, n)) = Self::marker(&inner, 0) {
                                if k == "__weave_head" {
                                    let (t, k) =
                                        (self.raws[n].text.clone(), self.raws[n].kind.clone());
                                    self.raw(&t, &k);
                                }
                            }
                            self.word("{");
                            self.indent += 1;
                            self.nl();
                            self.tokens(g.stream());
                            self.indent -= 1;
                            self.nl();
                            self.word("}");
                            // statement-like ends
                            let glue = matches!(tts.get(i + 1), Some(TokenTree::Punct(_)))
                                || matches!(tts.get(i + 1), Some(TokenTree::Ident(x)) if x == "else");
                            if !glue {
                                self.nl();
                            }
                        }
                        d => {
                            let (o, c) = match d {
                                Delimiter::Parenthesis => ("(", ")"),
                                Delimiter::Bracket => ("[", "]"),
                                _ => ("", ""),
                            };
                            // calls and indexing hug the callee
                            if i > 0 && !self.fresh {
                                if let TokenTree::Ident(_) | TokenTree::Group(_) = &tts[i - 1] {
                                    self.joint = true;
                                }
                            }
                            self.word(o);
                            self.joint = true;
                            self.tokens(g.stream());
                            self.joint = true;
                            self.word(c);
                        }
                    }
                }
                TokenTree::Ident(id) => {
                    let s = id.to_string();
                    self.word(&s)
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    self.word(&s)
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ';' | ',' | '.' | '?') && !self.fresh {
                        self.joint = true;
                    }
                    let mut b = [0u8; 4];
                    self.word(c.encode_utf8(&mut b));
                    if p.spacing() == Spacing::Joint || c == '\'' {
                        self.joint = true;
                    }
                    if c == '.' {
                        self.joint = true;
                    }
                    if c == ';' && p.spacing() != Spacing::Joint {
                        self.nl_soft();
                    }
                }
            }
            i += 1;
        }
    }
    fn nl_soft(&mut self) {
        self.nl();
    }
}
