//! weaver SRC_DIR TYPES SPEC_DIR OUT_RS OUT_JSON [--opaque key,key,...]
//!
//! Reads the crate's current source, keeps every function of the modules under
//! contract, rewrites the bodies into the verifier's dialect (see lower.rs) and
//! splices in the contracts of SPEC_DIR/*.ct.  Nothing is read from anywhere but
//! the current source: a change there changes the verified text.
mod bits;
mod db;
mod facts;
mod fields;
mod lower;
mod print;
mod ret;
mod scope;
mod shape;
mod types;

use lower::{FnDef, Hints, Lower};
use quote::ToTokens;
use serde_json::json;
use std::collections::{HashMap, HashSet};
use syn::*;

struct Module {
    name: String,
    file: String,
    items: Vec<Item>,
}

fn is_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test")
            || (a.path().is_ident("cfg") && {
                let t = a.meta.to_token_stream().to_string().replace(' ', "");
                t == "cfg(test)" || t.contains("feature=") || t == "cfg(kani)" || t.contains("cfg(all(test")
            })
    })
}

fn keep_attrs(attrs: &mut Vec<Attribute>) {
    attrs.retain(|a| a.path().is_ident("derive"));
    for a in attrs.iter_mut() {
        // keep only the derives the verifier knows
        if let Ok(list) = a.parse_args_with(
            punctuated::Punctuated::<Path, Token![,]>::parse_terminated,
        ) {
            let v: Vec<Path> = list
                .into_iter()
                .filter(|p| {
                    let n = p.segments.last().unwrap().ident.to_string();
                    matches!(n.as_str(), "Clone" | "Copy" | "PartialEq" | "Eq" | "Debug")
                })
                .collect();
            *a = parse_quote!(#[derive(#(#v),*)]);
        }
    }
}

fn pubv(v: &mut Visibility) {
    *v = parse_quote!(pub);
}

fn ty_name(t: &Type) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// names the std traits whose impls only format errors
fn dropped_trait(n: &str) -> bool {
    matches!(n, "Display" | "Error" | "Debug" | "Drop")
}

struct Out {
    p: print::Printer,
    report: Vec<serde_json::Value>,
    spans: Vec<(String, usize, usize)>,
}

struct Ctx {
    types: HashMap<String, types::FileTypes>,
    contracts: HashMap<String, db::Contract>,
    contracted: HashSet<String>,
    traits: HashSet<String>,
    defs: HashMap<String, FnDef>,
    opaque: HashSet<String>,
    stub: HashSet<String>,
    stdfns: HashSet<String>,
    probe: bool,
    /// the bindings of the committed functions, in order
    base: HashMap<String, Vec<shape::Bind>>,
    /// the headers of their loops
    base_loops: HashMap<String, Vec<String>>,
    /// their expressions
    exprs: facts::Base,
}

pub fn subst(text: &str, map: &HashMap<String, String>, missing: &mut Vec<String>) -> String {
    let b: Vec<char> = text.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '$' && i + 1 < b.len() && (b[i + 1].is_alphabetic() || b[i + 1] == '_') {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            let n: String = b[i + 1..j].iter().collect();
            if let Some(v) = map.get(&n) {
                o.push_str(v);
            } else {
                missing.push(n.clone());
                o.push_str(&n);
            }
            i = j;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

/// comma-terminated clauses, each possibly over several lines
pub fn split_clauses(text: &str) -> Vec<String> {
    let mut o = vec![];
    let mut cur = String::new();
    let mut depth = 0i32;
    for l in text.lines() {
        cur.push_str(l);
        cur.push('\n');
        for c in l.chars() {
            match c {
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => depth -= 1,
                _ => {}
            }
        }
        if depth == 0 && l.trim_end().ends_with(',') {
            o.push(std::mem::take(&mut cur));
        }
    }
    if !cur.trim().is_empty() {
        o.push(cur);
    }
    o
}

/// drops the clauses that mention an unresolved name
fn clauses(text: &str, map: &HashMap<String, String>, missing: &mut Vec<String>) -> String {
    let mut o = String::new();
    for c in split_clauses(text) {
        let mut m = vec![];
        let s = subst(&c, map, &mut m);
        if m.is_empty() {
            o.push_str(&s);
        } else {
            missing.extend(m);
        }
    }
    o
}

#[allow(clippy::too_many_arguments)]
fn emit_fn(ctx: &Ctx, out: &mut Out, key: &str, file: &str, sig: &Signature, block: &Block) {
    let c = ctx.contracts.get(key);
    let ft = ctx.types.get(file);
    let sp = {
        use syn::spanned::Spanned;
        let (a, b) = (sig.span().start(), block.span().end());
        ((a.line, a.column), (b.line, b.column))
    };
    // --- names
    let mut actual: Vec<String> = vec![];
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(_) => actual.push("self".into()),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => actual.push(i.ident.to_string()),
                _ => actual.push("_".into()),
            },
        }
    }
    let binds: Vec<shape::Bind> = shape::binds(sig, block)
        .into_iter()
        .map(|b| {
            let t = ft.and_then(|f| f.binds.iter().find(|x| (x.0, x.1) == (b.1, b.2))).map(|x| x.3.clone());
            (b.0, t.unwrap_or_default(), b.3)
        })
        .collect();
    let none = vec![];
    let base = ctx.base.get(key).unwrap_or(&none);
    let plays = shape::align(base, &binds);
    let mut map: HashMap<String, String> = HashMap::new();
    let mut lost: Vec<String> = vec![];
    let mut roles = HashMap::new();
    if let Some(c) = c {
        for (i, p) in c.params.iter().enumerate() {
            if let Some(a) = actual.get(i) {
                map.insert(p.clone(), a.clone());
            } else {
                lost.push(format!("parameter {}", p));
            }
        }
        if c.params.len() != actual.len() {
            lost.push("arity".into());
        }
        for (n, t) in &c.vars {
            let d = c.collect.iter().find(|x| &x.0 == n).map(|x| x.1.clone());
            let renamed = plays.iter().find(|x| &x.0 == n && !binds.iter().any(|b| &b.0 == n)).map(|x| x.1.clone());
            let mutable = base.iter().filter(|x| &x.0 == n).map(|x| x.2).last();
            roles.insert(n.clone(), scope::Role { ty: t.clone(), collect: d, renamed, mutable });
        }
        map.insert("ret".into(), c.ret.clone());
    }
    let ret = c.map(|c| c.ret.clone()).unwrap_or_else(|| "r".into());

    // --- contract text
    let mut missing = vec![];
    let mut head = String::new();
    let mut hints = Hints::default();
    if let Some(c) = c {
        for (k, l) in [
            ("requires", &c.requires),
            ("ensures", &c.ensures),
            ("decreases", &c.decreases),
        ] {
            let mut t = String::new();
            for x in l {
                let x = clauses(x, &map, &mut missing);
                let x = x.trim_end().trim_end_matches(',').to_string();
                if !x.trim().is_empty() {
                    t.push_str(&x);
                    t.push_str(",\n");
                }
            }
            if !t.is_empty() {
                head.push_str(&format!("{}\n{}", k, t));
            }
        }
        lost.extend(missing.drain(..).map(|m| format!("contract name {}", m)));
        let local = |x: &str| x.replace("$it", "__it").replace("$src", "__src");
        for (k, v) in &c.inv {
            let e = hints.inv.entry(*k).or_default();
            for x in v {
                e.push_str(&local(x));
                e.push('\n');
            }
        }
        for (k, v) in &c.decr {
            hints.decr.insert(*k, local(v));
        }
        for (a, v) in &c.at {
            let e = hints.at.entry(a.clone()).or_default();
            e.push_str(&local(v));
            e.push('\n');
        }
        lost.extend(missing.into_iter().map(|m| format!("name {}", m)));
        if let Some(v) = &c.bits {
            let mut m2 = vec![];
            let x = subst(v, &map, &mut m2);
            let module = key.split("::").next().unwrap_or("");
            let callee = |n: &str| -> Option<String> {
                let c = ctx.contracts.get(&format!("{}::{}", module, n))?;
                let e = c.ensures.first()?.trim().strip_prefix(&format!("{} == ", c.ret))?.to_string();
                let f = e.split('(').next()?.trim().to_string();
                f.chars().all(|c| c.is_alphanumeric() || c == '_').then_some(f)
            };
            if m2.is_empty() {
                let mut pre = String::new();
                for q in &c.requires {
                    pre.push_str(&clauses(q, &map, &mut m2));
                }
                if let Some(h) = bits::hint(sig, block, &x, &pre, &callee) {
                    let e = hints.at.entry("start".into()).or_default();
                    e.push_str(&h);
                    e.push('\n');
                }
            }
        }
    }

    // --- body
    let mut fb = block.clone();
    lower::closures(&mut fb);
    facts::tail(&mut fb);
    let woven_facts = facts::apply(key, &mut fb, ft, &ctx.exprs);
    let mut raws = std::mem::take(&mut out.p.raws);
    let hk: Vec<String> = hints.at.keys().cloned().collect();
    // a dry run to see which loops there are
    let mut scratch = vec![];
    let mut first = Lower {
        types: &ctx.types,
        file: file.to_string(),
        synth: HashMap::new(),
        n: 0,
        loops: 0,
        heads: vec![],
        order: None,
        seen: 0,
        raws: &mut scratch,
        hints: Hints::default(),
        used: HashSet::new(),
        errors: vec![],
        notes: vec![],
        contracted: &ctx.contracted,
        traits: &ctx.traits,
        defs: &ctx.defs,
        depth: 0,
        owner: key.rsplit_once("::").map_or(String::new(), |x| x.0.to_string()),
        calls: HashMap::new(),
        inlined: vec![],
        anchored: vec![],
        stdfns: &ctx.stdfns,
        std_used: vec![],
        probe: false,
        probes: 0,
        expected: None,
        unrolled: 0,
        dead: HashSet::new(),
    };
    visit_mut::VisitMut::visit_block_mut(&mut first, &mut fb.clone());
    let heads = first.heads;
    let order = match ctx.base_loops.get(key) {
        Some(b) if c.map_or(false, |c| c.loops.is_some()) && b.len() != heads.len() => Some(shape::align_loops(b, &heads)),
        _ => None,
    };
    let mut lw = Lower {
        types: &ctx.types,
        file: file.to_string(),
        synth: HashMap::new(),
        n: 0,
        loops: 0,
        heads: vec![],
        order,
        seen: 0,
        raws: &mut raws,
        hints,
        used: HashSet::new(),
        errors: vec![],
        notes: vec![],
        contracted: &ctx.contracted,
        traits: &ctx.traits,
        defs: &ctx.defs,
        depth: 0,
        owner: key.rsplit_once("::").map_or(String::new(), |x| x.0.to_string()),
        calls: HashMap::new(),
        inlined: vec![],
        anchored: vec![],
        stdfns: &ctx.stdfns,
        std_used: vec![],
        probe: ctx.probe && c.is_some(),
        probes: 0,
        expected: c.map(|c| c.loops.unwrap_or(0)),
        unrolled: 0,
        dead: HashSet::new(),
    };
    let shape = shape::of(block);
    let mut b = fb;
    // the value of the function gets a name, so that hints can follow it
    if hk.iter().any(|k| k == "end" || k.contains("after")) {
        if let ReturnType::Type(_, t) = &sig.output {
            if let Some(Stmt::Expr(e, None)) = b.stmts.last().cloned() {
                b.stmts.pop();
                let r: Ident = parse_str(&ret).unwrap();
                let tt = match &**t {
                    Type::ImplTrait(_) => parse_quote!(_),
                    t => t.clone(),
                };
                b.stmts.push(parse_quote!(let #r: #tt = #e;));
                b.stmts.push(parse_quote!(__weave_end!();));
                b.stmts.push(Stmt::Expr(parse_quote!(#r), None));
            } else {
                b.stmts.push(parse_quote!(__weave_end!();));
            }
        } else {
            if let Some(Stmt::Expr(_, s)) = b.stmts.last_mut() {
                *s = Some(Default::default());
            }
            b.stmts.push(parse_quote!(__weave_end!();));
        }
    }
    visit_mut::VisitMut::visit_block_mut(&mut lw, &mut b);
    // start / end hints
    let mk = |lw: &mut Lower, a: &str| -> Vec<Stmt> {
        let mut v = if let Some(t) = lw.hints.at.get(a).cloned() {
            lw.used.insert(a.to_string());
            vec![lw.raw(t, &format!("hint at {}", a))]
        } else {
            vec![]
        };
        v.extend(lw.probe_stmt(a));
        v
    };
    let mut st: Vec<Stmt> = mk(&mut lw, "start");
    let end = mk(&mut lw, "end");
    for s in b.stmts {
        if let Stmt::Macro(m) = &s {
            if m.mac.path.is_ident("__weave_end") {
                st.extend(end.clone());
                continue;
            }
        }
        st.push(s);
    }
    b.stmts = st;
    if c.is_some() {
        let ty_at = |l: usize, col: usize| -> Option<String> {
            let f = |f: &types::FileTypes| f.binds.iter().find(|b| (b.0, b.1) == (l, col)).map(|b| b.3.clone());
            ft.and_then(f)
        };
        let mut r = scope::Roles {
            fixed: map.clone(),
            vars: roles,
            optional: c.map(|c| c.optional.clone()).unwrap_or_default(),
            ty_at: &ty_at,
            scope: vec![],
            raws: &mut *lw.raws,
            lost: vec![],
            done: HashSet::new(),
            params: actual.iter().cloned().collect(),
            dead: std::mem::take(&mut lw.dead),
        };
        syn::visit::Visit::visit_block(&mut r, &b);
        lost.extend(r.lost.iter().map(|m| format!("name {}", m)));
    }
    for k in &hk {
        if !lw.used.contains(k) && !k.contains("std:") {
            lost.push(format!("anchor {}", k));
        }
    }
    if let Some(c) = c {
        if let Some(n) = c.loops {
            if n != lw.loops {
                lost.push(format!("loops: expected {}, found {}", n, lw.loops));
            }
        }
    }
    let (errors, notes, loops, inlined) = (lw.errors, lw.notes, lw.loops, lw.inlined);
    let std_used = lw.std_used;
    let probes = lw.probes;
    out.p.raws = raws;

    // --- print
    let stubbed = ctx.stub.contains(key);
    let opaque = ctx.opaque.contains(key) || (!errors.is_empty() && !stubbed);
    out.p.func = key.to_string();
    out.p.nl();
    let from = out.p.line;
    if opaque {
        out.p.raw("#[verifier::external_body]", "opaque");
    }
    out.p.raw("#[verifier::loop_isolation(false)]", "attr");
    if let Some(c) = c {
        for a in &c.attrs {
            out.p.raw(a, "attr");
        }
    }
    let (name, inputs, gens) = (&sig.ident, &sig.inputs, &sig.generics);
    let wh = &sig.generics.where_clause;
    let mut ins: Vec<proc_macro2::TokenStream> = vec![];
    for i in inputs {
        match i {
            FnArg::Receiver(r) => {
                let t = ty_name(&r.ty);
                let m = &r.mutability;
                if t.starts_with("&mut") {
                    ins.push(quote::quote!(&mut self));
                } else if t.starts_with('&') {
                    ins.push(quote::quote!(&self));
                } else {
                    ins.push(quote::quote!(#m self));
                }
            }
            FnArg::Typed(t) => ins.push(t.to_token_stream()),
        }
    }
    let o = match &sig.output {
        ReturnType::Default => quote::quote!(),
        ReturnType::Type(_, t) => {
            let r: Ident = parse_str(&ret).unwrap();
            quote::quote!(-> (#r: #t))
        }
    };
    out.p
        .tokens(quote::quote!(pub fn #name #gens ( #(#ins),* ) #o #wh));
    out.p.indent += 1;
    out.p.raw(&head, "contract");
    out.p.indent -= 1;
    if opaque {
        out.p.raw("{ unimplemented!() }", "opaque");
    } else {
        out.p.tokens(b.to_token_stream());
    }
    out.p.nl();
    let to = out.p.line;
    out.spans.push((key.to_string(), from, to));
    out.report.push(json!({
        "fn": key,
        "contract": c.is_some(),
        "from": from,
        "to": to,
        "loops": loops,
        "errors": errors,
        "notes": notes,
        "lost": lost,
        "inlined": inlined,
        "std": std_used,
        "opaque": opaque,
        "shape": shape,
        "binds": binds,
        "heads": heads,
        "probes": probes,
        "exprs": facts::record(block, ft),
        "facts": woven_facts,
        "src_line": sp.0 .0,
        "file": file,
    }));
    out.p.func = String::new();
}

struct Hoist {
    names: HashSet<String>,
    out: Vec<ItemFn>,
}
impl visit_mut::VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut k = 0;
        while k < b.stmts.len() {
            match &b.stmts[k] {
                Stmt::Item(Item::Fn(f)) if self.names.insert(f.sig.ident.to_string()) => {
                    self.out.push(f.clone());
                    b.stmts.remove(k);
                }
                _ => k += 1,
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

fn item_names(i: &Item) -> Vec<String> {
    match i {
        Item::Fn(x) => vec![x.sig.ident.to_string()],
        Item::Const(x) => vec![x.ident.to_string()],
        Item::Static(x) => vec![x.ident.to_string()],
        Item::Struct(x) => vec![x.ident.to_string()],
        Item::Enum(x) => vec![x.ident.to_string()],
        Item::Impl(x) => x
            .items
            .iter()
            .filter_map(|y| match y {
                ImplItem::Fn(f) => Some(f.sig.ident.to_string()),
                _ => None,
            })
            .collect(),
        Item::Trait(x) => x
            .items
            .iter()
            .filter_map(|y| match y {
                TraitItem::Fn(f) => Some(f.sig.ident.to_string()),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, types_f, specs, out_rs, out_json) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let mut opaque = HashSet::new();
    let mut only: Option<HashSet<String>> = None;
    let mut probe = false;
    let mut facts_on = true;
    let mut i = 6;
    while i + 1 < a.len() {
        let v: HashSet<String> = a[i + 1]
            .split(',')
            .filter(|x| !x.is_empty())
            .map(|x| x.to_string())
            .collect();
        match a[i].as_str() {
            "--opaque" => opaque = v,
            "--probe" => probe = true,
            "--facts" => facts_on = a[i + 1] != "0",
            "--modules" => only = Some(v),
            _ => panic!("option {}", a[i]),
        }
        i += 2;
    }
    // --- contracts
    let mut contracts = HashMap::new();
    let mut ents: Vec<_> = std::fs::read_dir(specs)
        .unwrap()
        .map(|e| e.unwrap().path())
        .collect();
    ents.sort();
    let mut prelude = String::new();
    let mut structs: HashMap<String, Vec<(String, String)>> = HashMap::new();
    let mut includes: HashMap<String, String> = HashMap::new();
    // modules that have contracts of their own; a module of the crate that is not
    // among them (helpers moved to a new file, say) is always part of the program
    let mut known: HashSet<String> = HashSet::new();
    for p in &ents {
        let ext = p.extension().and_then(|x| x.to_str()).unwrap_or("");
        let stem = p.file_stem().and_then(|x| x.to_str()).unwrap_or("");
        // modXX_name.rs belongs to a module name; sp_*.rs always included
        if let Some((_, m)) = stem.split_once("__") {
            known.insert(m.to_string());
            if only.as_ref().map_or(false, |o| !o.contains(m)) {
                continue;
            }
        }
        if ext == "ct" {
            fields::parse(&std::fs::read_to_string(p).unwrap(), &mut structs);
            for c in db::parse(&std::fs::read_to_string(p).unwrap()) {
                contracts.insert(c.key.clone(), c);
            }
        } else if ext == "inc" {
            // spec text that lives inside the module of the same name
            let m = stem.split_once("__").map(|x| x.1).unwrap_or(stem);
            let t = std::fs::read_to_string(p).unwrap();
            includes.entry(m.to_string()).or_default().push_str(&t);
        } else if ext == "rs" {
            prelude.push_str(&std::fs::read_to_string(p).unwrap());
            prelude.push('\n');
        }
    }
    // --- modules
    let lib = std::fs::read_to_string(format!("{}/lib.rs", src)).expect("lib.rs");
    let libf = parse_file(&lib).expect("parse lib.rs");
    let mut modules: Vec<Module> = vec![];
    let mut macros: Vec<String> = vec![];
    fn load(src: &str, name: &str, items: Vec<Item>, file: String, modules: &mut Vec<Module>) {
        modules.push(Module {
            name: name.to_string(),
            file,
            items,
        });
        let _ = src;
    }
    let mut root_items = vec![];
    for it in libf.items {
        match it {
            Item::Mod(m) if !is_test_cfg(&m.attrs) => {
                let name = m.ident.to_string();
                if let Some((_, items)) = m.content {
                    load(src, &name, items, format!("{}/lib.rs", src), &mut modules);
                } else {
                    let mut f = format!("{}/{}.rs", src, name);
                    if !std::path::Path::new(&f).exists() {
                        f = format!("{}/{}/mod.rs", src, name);
                    }
                    let t = std::fs::read_to_string(&f).expect("module file");
                    let pf = parse_file(&t).expect("parse module");
                    load(src, &name, pf.items, f, &mut modules);
                }
            }
            Item::Mod(_) => {}
            x => root_items.push(x),
        }
    }
    if !root_items.is_empty() {
        modules.insert(
            0,
            Module {
                name: "".into(),
                file: format!("{}/lib.rs", src),
                items: root_items,
            },
        );
    }
    let mut alltypes = types::load(types_f);
    // functions inside functions stand beside them
    for m in modules.iter_mut() {
        let names: HashSet<String> = m.items.iter().flat_map(item_names).collect();
        let mut h = Hoist { names, out: vec![] };
        for it in m.items.iter_mut() {
            match it {
                Item::Fn(f) if !is_test_cfg(&f.attrs) => visit_mut::VisitMut::visit_block_mut(&mut h, &mut f.block),
                Item::Impl(im) if !is_test_cfg(&im.attrs) => visit_mut::VisitMut::visit_item_impl_mut(&mut h, im),
                Item::Trait(t) => visit_mut::VisitMut::visit_item_trait_mut(&mut h, t),
                _ => {}
            }
        }
        for f in h.out {
            let (name, to) = (f.sig.ident.to_string(), format!("{}::{}", m.name, f.sig.ident));
            if let Some(ft) = alltypes.get_mut(&m.file) {
                for (p, local) in ft.call.values_mut() {
                    let q = format!("::{}", name);
                    if *local && p.starts_with(&format!("{}::", m.name)) && p.ends_with(&q) && p.matches("::").count() > 1 {
                        *p = to.clone();
                    }
                }
            }
            m.items.push(Item::Fn(f));
        }
    }
    for m in &modules {
        if let Some(ft) = alltypes.get_mut(&m.file) {
            types::through_parens(&m.items, ft);
        }
    }
    // --- definitions, trait expansion
    let mut defs: HashMap<String, FnDef> = HashMap::new();
    let mut traits: HashSet<String> = HashSet::new();
    let mut trait_items: HashMap<String, ItemTrait> = HashMap::new();
    for m in &modules {
        for it in &m.items {
            if let Item::Trait(t) = it {
                traits.insert(format!("{}::{}", m.name, t.ident));
                trait_items.insert(format!("{}::{}", m.name, t.ident), t.clone());
            }
        }
    }
    enum Piece {
        Raw(Item),
        Fn(String, Signature, Block),
        Impl(Generics, Type, Vec<(String, Signature, Block)>, Vec<ImplItem>),
    }
    let mut dropped: Vec<String> = vec![];
    let mut prog: Vec<(String, String, Vec<Piece>)> = vec![];
    let mut private: HashSet<String> = HashSet::new();
    for m in modules {
        let mut ps = vec![];
        let pre = if m.name.is_empty() {
            String::new()
        } else {
            format!("{}::", m.name)
        };
        for it in m.items {
            match it {
                Item::Fn(f) => {
                    if is_test_cfg(&f.attrs) {
                        continue;
                    }
                    let key = format!("{}{}", pre, f.sig.ident);
                    if !matches!(f.vis, Visibility::Public(_)) {
                        private.insert(key.clone());
                    }
                    defs.insert(
                        key.clone(),
                        FnDef {
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            file: m.file.clone(),
                            has_self: false,
                        },
                    );
                    ps.push(Piece::Fn(key, f.sig, *f.block));
                }
                Item::Impl(mut im) => {
                    if is_test_cfg(&im.attrs) {
                        continue;
                    }
                    let tn = ty_name(&im.self_ty);
                    let tn0 = tn.split('<').next().unwrap().to_string();
                    let mut fns: Vec<(String, Signature, Block)> = vec![];
                    let mut rest = vec![];
                    if let Some((_, tp, _)) = &im.trait_ {
                        let t = tp.segments.last().unwrap().ident.to_string();
                        if dropped_trait(&t) {
                            dropped.push(format!("{}impl {} for {}", pre, t, tn));
                            // the texts of the errors are ordinary functions
                            im.items.retain(|x| t == "Error" && matches!(x, ImplItem::Fn(f) if f.sig.ident == "description"));
                            if im.items.is_empty() {
                                continue;
                            }
                        }
                        if let Some(ti) = trait_items.get(&format!("{}{}", pre, t)) {
                            let have: HashSet<String> = im
                                .items
                                .iter()
                                .filter_map(|x| match x {
                                    ImplItem::Fn(f) => Some(f.sig.ident.to_string()),
                                    _ => None,
                                })
                                .collect();
                            for x in &ti.items {
                                if let TraitItem::Fn(f) = x {
                                    if let (false, Some(b)) =
                                        (have.contains(&f.sig.ident.to_string()), &f.default)
                                    {
                                        fns.push((
                                            format!("{}{}::{}", pre, tn0, f.sig.ident),
                                            f.sig.clone(),
                                            b.clone(),
                                        ));
                                    }
                                } else if let TraitItem::Const(c) = x {
                                    if let Some((_, e)) = &c.default {
                                        let (i, t) = (&c.ident, &c.ty);
                                        let hc = im.items.iter().any(|y| matches!(y, ImplItem::Const(z) if z.ident == *i));
                                        if !hc {
                                            rest.push(parse_quote!(pub const #i: #t = #e;));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    for x in im.items {
                        match x {
                            ImplItem::Fn(f) => {
                                if is_test_cfg(&f.attrs) {
                                    continue;
                                }
                                let key = format!("{}{}::{}", pre, tn0, f.sig.ident);
                                if im.trait_.is_none() && !matches!(f.vis, Visibility::Public(_)) {
                                    private.insert(key.clone());
                                }
                                fns.push((key, f.sig, f.block));
                            }
                            ImplItem::Const(mut c) => {
                                c.attrs.clear();
                                pubv(&mut c.vis);
                                rest.push(ImplItem::Const(c));
                            }
                            x => rest.push(x),
                        }
                    }
                    for (k, s, b) in &fns {
                        defs.insert(
                            k.clone(),
                            FnDef {
                                sig: s.clone(),
                                block: b.clone(),
                                file: m.file.clone(),
                                has_self: s.receiver().is_some(),
                            },
                        );
                    }
                    ps.push(Piece::Impl(im.generics, *im.self_ty, fns, rest));
                }
                Item::Use(u) => {
                    let t = u.to_token_stream().to_string();
                    if t.contains("std :: fmt") || t.contains("std :: error") || is_test_cfg(&u.attrs) {
                        dropped.push(t);
                        continue;
                    }
                    let mut u = u;
                    u.attrs.clear();
                    u.vis = parse_quote!(pub);
                    ps.push(Piece::Raw(Item::Use(u)));
                }
                Item::Const(mut c) => {
                    if is_test_cfg(&c.attrs) {
                        continue;
                    }
                    c.attrs.clear();
                    pubv(&mut c.vis);
                    ps.push(Piece::Raw(Item::Const(c)));
                }
                Item::Static(s) => {
                    // immutable statics read like constants; others are left out, so that whatever uses them is opaque
                    let t = s.ty.to_token_stream().to_string();
                    let state = ["Cell", "Atomic", "Mutex", "Lock", "Once", "*"];
                    if !matches!(s.mutability, StaticMutability::None) || state.iter().any(|x| t.contains(x)) {
                        dropped.push(format!("{}static {}", pre, s.ident));
                        continue;
                    }
                    let (i, t, e) = (&s.ident, &s.ty, &s.expr);
                    ps.push(Piece::Raw(parse_quote!(pub const #i: #t = #e;)));
                }
                Item::Struct(mut s) => {
                    keep_attrs(&mut s.attrs);
                    pubv(&mut s.vis);
                    for f in s.fields.iter_mut() {
                        f.attrs.clear();
                        pubv(&mut f.vis);
                    }
                    ps.push(Piece::Raw(Item::Struct(s)));
                }
                Item::Enum(mut s) => {
                    keep_attrs(&mut s.attrs);
                    pubv(&mut s.vis);
                    for v in s.variants.iter_mut() {
                        v.attrs.clear();
                    }
                    ps.push(Piece::Raw(Item::Enum(s)));
                }
                Item::Type(mut t) => {
                    t.attrs.clear();
                    pubv(&mut t.vis);
                    ps.push(Piece::Raw(Item::Type(t)));
                }
                Item::Macro(mut mc) => {
                    if is_test_cfg(&mc.attrs) {
                        continue;
                    }
                    if mc.mac.path.segments.last().map_or(false, |x| x.ident == "thread_local") {
                        dropped.push(format!("{}thread_local", pre));
                        continue;
                    }
                    mc.attrs.clear();
                    macros.push(mc.to_token_stream().to_string());
                }
                Item::Mod(md) => {
                    if !is_test_cfg(&md.attrs) {
                        dropped.push(format!("{}mod {}", pre, md.ident));
                    }
                }
                Item::Trait(_) | Item::ExternCrate(_) => {}
                x => dropped.push(x.to_token_stream().to_string()),
            }
        }
        prog.push((m.name, m.file, ps));
    }
    // --- renamed fields
    let mut fmap: fields::Map = HashMap::new();
    for (name, _, ps) in &prog {
        for p in ps {
            if let Piece::Raw(Item::Struct(s)) = p {
                let k = if name.is_empty() { s.ident.to_string() } else { format!("{}::{}", name, s.ident) };
                if let Some(w) = structs.get(&k) {
                    let m = fields::rename(s, w);
                    if !m.is_empty() {
                        fmap.insert(k, m);
                    }
                }
            }
        }
    }
    if !fmap.is_empty() {
        use visit_mut::VisitMut;
        for (name, file, ps) in prog.iter_mut() {
            let mut fix = |k: &str, b: &mut Block| {
                let this = k.rsplit_once("::").map(|x| x.0.to_string()).unwrap_or_default();
                fields::Rename { types: alltypes.get(file.as_str()), map: &fmap, this, module: name.clone() }.visit_block_mut(b);
                if let Some(d) = defs.get_mut(k) {
                    d.block = b.clone();
                }
            };
            for p in ps.iter_mut() {
                match p {
                    Piece::Fn(k, _, b) => fix(k, b),
                    Piece::Impl(_, _, fns, _) => {
                        for (k, _, b) in fns.iter_mut() {
                            fix(k, b)
                        }
                    }
                    Piece::Raw(Item::Struct(s)) => {
                        let k = if name.is_empty() { s.ident.to_string() } else { format!("{}::{}", name, s.ident) };
                        if let Some(m) = fmap.get(&k) {
                            for f in s.fields.iter_mut() {
                                if let Some(n) = f.ident.as_ref().and_then(|i| m.get(&i.to_string())) {
                                    f.ident = Some(Ident::new(n, proc_macro2::Span::call_site()));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    let contracted: HashSet<String> = contracts
        .keys()
        .filter(|k| defs.contains_key(*k))
        .cloned()
        .collect();
    let missing: Vec<String> = contracts
        .keys()
        .filter(|k| !defs.contains_key(*k))
        .cloned()
        .collect();
    let mut stdfns = HashSet::new();
    for w in prelude.split("fn std_").skip(1) {
        let n: String = w.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
        stdfns.insert(format!("std_{}", n));
    }
    let exprs = if facts_on { facts::load(&format!("{}/exprs.json", specs)) } else { Default::default() };
    for (k, d) in defs.iter_mut() {
        if !contracted.contains(k) {
            lower::closures(&mut d.block);
            facts::tail(&mut d.block);
            facts::apply(k, &mut d.block, alltypes.get(&d.file), &exprs);
        }
    }
    let ctx = Ctx {
        exprs,
        types: alltypes,
        contracts,
        contracted,
        traits,
        defs,
        opaque,
        stub: HashSet::new(),
        stdfns,
        probe,
        base_loops: std::fs::read_to_string(format!("{}/loops.json", specs))
            .ok()
            .and_then(|t| serde_json::from_str(&t).ok())
            .unwrap_or_default(),
        base: std::fs::read_to_string(format!("{}/binds.json", specs))
            .ok()
            .and_then(|t| serde_json::from_str(&t).ok())
            .unwrap_or_default(),
    };
    // --- output; a private helper whose every call is inlined is checked there, in context,
    // and left out on its own
    let mut absorbed: HashSet<String> = HashSet::new();
    let (out, uncontracted) = loop {
    let mut out = Out {
        p: print::Printer::new(),
        report: vec![],
        spans: vec![],
    };
    out.p.raw(
        "#![allow(unused, non_snake_case, non_camel_case_types, unused_parens, unused_braces)]\nuse vstd::prelude::*;",
        "head",
    );
    for m in &macros {
        out.p.raw(m, "macro");
    }
    out.p.raw("verus! {", "head");
    out.p.raw("pub mod sp {\nuse vstd::prelude::*;\npub uninterp spec fn sp_probe(k: int) -> bool;", "head");
    out.p.raw(&prelude, "prelude");
    out.p.raw("}", "head");
    let mut uncontracted = vec![];
    for (name, file, ps) in &prog {
        if name.is_empty() && ps.is_empty() {
            continue;
        }
        if let Some(o) = &only {
            if !o.contains(name) && known.contains(name) {
                continue;
            }
        }
        if !name.is_empty() {
            out.p.raw(
                &format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::sp::*;", name),
                "head",
            );
            out.p.indent += 1;
        }
        for p in ps {
            match p {
                Piece::Raw(i) => {
                    out.p.tokens(i.to_token_stream());
                    out.p.nl();
                }
                Piece::Fn(k, s, b) => {
                    if !ctx.contracted.contains(k) && !absorbed.contains(k) {
                        uncontracted.push(k.clone());
                    }
                    if !absorbed.contains(k) {
                        emit_fn(&ctx, &mut out, k, file, s, b)
                    }
                }
                Piece::Impl(g, t, fns, rest) => {
                    let w = &g.where_clause;
                    let ts = quote::quote!(impl #g #t #w).to_string();
                    out.p.raw(&format!("{} {{", ts), "head");
                    out.p.indent += 1;
                    for r in rest {
                        out.p.tokens(r.to_token_stream());
                        out.p.nl();
                    }
                    for (k, s, b) in fns {
                        if !ctx.contracted.contains(k) && !absorbed.contains(k) {
                            uncontracted.push(k.clone());
                        }
                        if !absorbed.contains(k) {
                        emit_fn(&ctx, &mut out, k, file, s, b)
                    };
                    }
                    out.p.indent -= 1;
                    out.p.raw("}", "head");
                }
            }
        }
        if let Some(t) = includes.get(name) {
            out.p.raw(t, "prelude");
        }
        if !name.is_empty() {
            out.p.indent -= 1;
            out.p.raw("}", "head");
        }
    }
    out.p.raw("}\nfn main() {}", "head");

        let inl: HashSet<String> = out
            .report
            .iter()
            .flat_map(|r| r["inlined"].as_array().cloned().unwrap_or_default())
            .filter_map(|x| x.as_str().map(|x| x.to_string()))
            .collect();
        let lines: Vec<&str> = out.p.out.lines().collect();
        let mut more = HashSet::new();
        for k in uncontracted.iter().filter(|k| private.contains(*k) && inl.contains(*k)) {
            let name = k.rsplit("::").next().unwrap();
            let mut called = false;
            for (f, a, b) in &out.spans {
                if f != k && !absorbed.contains(f) {
                    for l in &lines[a - 1..*b] {
                        let word = |c: char| c.is_alphanumeric() || c == '_';
                        for (i, _) in l.match_indices(name) {
                            let next = l[i + name.len()..].trim_start();
                            if !l[..i].ends_with(word) && !l[i + name.len()..].starts_with(word)
                                && (next.starts_with('(') || next.starts_with(|c| c == ')' || c == ',') && name.len() > 1)
                            {
                                called = true;
                            }
                        }
                    }
                }
            }
            if !called {
                more.insert(k.clone());
            }
        }
        if more.is_empty() {
            break (out, uncontracted);
        }
        absorbed.extend(more);
    };
    std::fs::write(out_rs, &out.p.out).unwrap();
    let regions: Vec<_> = out
        .p
        .regions
        .iter()
        .map(|r| json!({"from": r.from, "to": r.to, "fn": r.func, "kind": r.kind}))
        .collect();
    let j = json!({
        "functions": out.report,
        "regions": regions,
        "missing": missing,
        "uncontracted": uncontracted,
        "absorbed": absorbed,
        "dropped": dropped,
    });
    std::fs::write(out_json, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

struct Collects(bool);
impl<'a> visit::Visit<'a> for Collects {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if m.method == "collect" {
            self.0 = true;
        }
        visit::visit_expr_method_call(self, m);
    }
}
fn has_collect(b: &Block) -> bool {
    let mut c = Collects(false);
    visit::Visit::visit_block(&mut c, b);
    c.0
}
