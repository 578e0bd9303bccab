//! Mechanical extraction of /repo's functions into one Verus file, run on every check.
//!
//! extract --repo /repo --contracts /verif/contracts --out FILE --report FILE [--prop Cxx | --all]
mod contracts;
mod xform;

use contracts::{Contracts, Section};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::Write as _;
use syn::visit_mut::VisitMut;
use syn::*;
use xform::{flatten_path, rewrite_type, shape, toks, Ghosts, Shape, Xf};

const SOURCES: &[&str] = &[
    "src/pieces/mod.rs",
    "src/pieces/util.rs",
    "src/pieces/stones.rs",
    "src/pieces/zobrist.rs",
    "src/pieces/group.rs",
    "src/pieces/goban.rs",
    "src/pieces/territory.rs",
    "src/rules/mod.rs",
    "src/rules/game.rs",
    "src/rules/game_builder.rs",
    "src/rules/sgf_bridge.rs",
    "src/rules/dead_stones.rs",
];

struct SrcFn {
    key: String,
    file: String,
    line: usize,
    lines: usize,
    header: Option<TokenStream>, // impl header for inherent methods
    sig: Signature,
    body: Option<Block>,
    shape: Shape,
    trait_impl: Option<String>,
}

struct SrcItem {
    key: String,
    item: Item,
}

#[derive(Default)]
struct Src {
    fns: BTreeMap<String, SrcFn>,
    items: BTreeMap<String, SrcItem>,
    impls: BTreeMap<String, (ItemImpl, String)>,
    order: Vec<String>,
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && toks(&a.meta).contains("test")) || attrs.iter().any(|a| a.path().is_ident("test"))
}

fn collect(items: Vec<Item>, file: &str, src: &mut Src) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if is_test(&m.attrs) {
                    continue;
                }
                if let Some((_, items)) = m.content {
                    collect(items, file, src);
                }
            }
            Item::Fn(f) => {
                if is_test(&f.attrs) {
                    continue;
                }
                let key = f.sig.ident.to_string();
                add_fn(src, key, file, None, f.sig, Some(*f.block), None);
            }
            Item::Impl(i) => {
                let ty = toks(&*i.self_ty);
                let tr = i.trait_.as_ref().map(|t| {
                    let mut p = t.1.clone();
                    flatten_path(&mut p);
                    toks(&p)
                });
                for x in &i.items {
                    if let (ImplItem::Type(t), Some("Deref")) = (x, tr.as_deref()) {
                        xform::DEREFS.with(|d| d.borrow_mut().insert(ty.clone(), toks(&t.ty)));
                    }
                    if let (ImplItem::Fn(f), None) = (x, &tr) {
                        xform::INHERENT.with(|d| d.borrow_mut().insert(format!("{ty}::{}", f.sig.ident)));
                    }
                    if let ImplItem::Fn(f) = x {
                        if is_test(&f.attrs) {
                            continue;
                        }
                        let (g, _, w) = i.generics.split_for_impl();
                        let st = &i.self_ty;
                        let key = match &tr {
                            Some(t) => format!("<{ty} as {t}>::{}", f.sig.ident),
                            None => format!("{ty}::{}", f.sig.ident),
                        };
                        let header = quote!(impl #g #st #w);
                        add_fn(src, key, file, Some(header), f.sig.clone(), Some(f.block.clone()), tr.clone().map(|t| format!("{t} for {ty}")));
                    }
                }
                if let Some(t) = tr {
                    let key = format!("{t} for {ty}");
                    src.order.push(format!("impl {key}"));
                    src.impls.insert(key, (i, file.to_string()));
                }
            }
            Item::Struct(ref s) => add_item(src, format!("struct {}", s.ident), it),
            Item::Enum(ref s) => add_item(src, format!("enum {}", s.ident), it),
            Item::Trait(ref s) => add_item(src, format!("trait {}", s.ident), it),
            Item::Const(ref s) => add_item(src, format!("const {}", s.ident), it),
            Item::Static(ref s) => {
                xform::STATICS.with(|x| x.borrow_mut().insert(s.ident.to_string()));
                add_item(src, format!("static {}", s.ident), it)
            }
            Item::Type(ref s) => add_item(src, format!("type {}", s.ident), it),
            Item::Macro(ref m) => {
                if let Some(id) = &m.ident {
                    add_item(src, format!("macro {id}"), it);
                } else {
                    // bitflags! { pub struct NAME : T { const A = ..; } }
                    let name = toks(&m.mac.path);
                    if name == "bitflags" {
                        let t = m.mac.tokens.clone().into_iter().collect::<Vec<_>>();
                        let mut prev = String::new();
                        for tt in &t {
                            if prev == "struct" {
                                add_item(src, format!("flags {tt}"), it.clone());
                                break;
                            }
                            prev = tt.to_string();
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn add_item(src: &mut Src, key: String, item: Item) {
    src.order.push(key.clone());
    src.items.insert(key.clone(), SrcItem { key, item });
}

fn add_fn(src: &mut Src, key: String, file: &str, header: Option<TokenStream>, sig: Signature, mut body: Option<Block>, trait_impl: Option<String>) {
    use syn::spanned::Spanned;
    // a function nested in a body captures nothing: it is taken out
    if let Some(b) = &mut body {
        let mut rest = vec![];
        for st in std::mem::take(&mut b.stmts) {
            match st {
                Stmt::Item(Item::Fn(f)) => add_fn(src, f.sig.ident.to_string(), file, None, f.sig, Some(*f.block), None),
                st => rest.push(st),
            }
        }
        b.stmts = rest;
    }
    let line = sig.ident.span().start().line;
    let end = body.as_ref().map(|b| b.span().end().line).unwrap_or(line);
    let sh = body.as_ref().map(shape).unwrap_or_default();
    src.order.push(format!("fn {key}"));
    src.fns.insert(
        key.clone(),
        SrcFn { key, file: file.into(), line, lines: end + 1 - line, header, sig, body, shape: sh, trait_impl },
    );
}

struct Out {
    text: String,
    errors: Vec<(String, String)>,
    emitted: Vec<String>,
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            if let Meta::List(l) = &a.meta {
                for t in l.tokens.to_string().split(',') {
                    v.push(t.trim().to_string());
                }
            }
        }
    }
    v
}

fn pub_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        x.vis = parse_quote!(pub);
        x.attrs.clear();
        rewrite_type(&mut x.ty);
    }
}

fn emit_item(key: &str, sec: &Section, it: &SrcItem, out: &mut Out) {
    let mut attrs = String::new();
    for d in sec.all("attr") {
        let _ = writeln!(attrs, "{} {}", d.args, d.text);
    }
    let fix_derive = |src_attrs: &[Attribute], out: &mut Out| -> String {
        let src = derives(src_attrs);
        let want: Vec<String> = match sec.get("derive") {
            Some(d) => d.args.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect(),
            None => src.iter().filter(|s| ["Clone", "Copy", "PartialEq", "Eq"].contains(&s.as_str())).cloned().collect(),
        };
        for w in &want {
            if w != "Structural" && !src.contains(w) {
                out.errors.push((key.into(), format!("derive({w}) is gone from {key}")));
            }
        }
        if let Some(d) = sec.get("needs-derive") {
            for w in d.args.split(',').map(|s| s.trim()) {
                if !src.iter().any(|s| s == w) {
                    out.errors.push((key.into(), format!("derive({w}) is gone from {key}")));
                }
            }
        }
        if want.is_empty() { String::new() } else { format!("#[derive({})]\n", want.join(", ")) }
    };
    let text = match &it.item {
        Item::Struct(s) => {
            let mut s = s.clone();
            let d = fix_derive(&s.attrs, out);
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            pub_fields(&mut s.fields);
            format!("{attrs}{d}{}", s.to_token_stream())
        }
        Item::Enum(s) => {
            let mut s = s.clone();
            let d = fix_derive(&s.attrs, out);
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            let mut disc = String::new();
            if sec.has("no-discriminant") {
                // the numeric values of the variants, kept as a function of the value (`x as usize` is written x.v_disc())
                let mut arms = String::new();
                let mut prev: Option<String> = None;
                for v in s.variants.iter() {
                    let d = match (&v.discriminant, &prev) {
                        (Some((_, e)), _) => e.to_token_stream().to_string(),
                        (None, None) => "0".to_string(),
                        (None, Some(p)) => format!("{p} + 1"),
                    };
                    arms.push_str(&format!("{}::{} => {d}, ", s.ident, v.ident));
                    prev = Some(d);
                }
                disc = format!("\nimpl {0} {{ pub open spec fn disc(self) -> int {{ match self {{ {arms} }} }}\npub fn v_disc(self) -> (r: usize) ensures r == self.disc() {{ match self {{ {arms} }} }} }}", s.ident);
            }
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                    xform::rewrite_type(&mut f.ty);
                }
                if sec.has("no-discriminant") {
                    v.discriminant = None;
                }
            }
            // the variants can be imported by name anywhere in the crate
            let d = format!("use {}::*;\n{d}", s.ident);
            if disc.is_empty() { format!("{attrs}{d}{}", s.to_token_stream()) } else { format!("// @@RAW\n{attrs}{d}{}{disc}\n// @@ENDRAW", s.to_token_stream()) }
        }
        Item::Trait(t) => {
            let mut t = t.clone();
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            let mut s = format!("{attrs}pub trait {} {} {{\n", t.ident, t.generics.to_token_stream());
            for d in sec.all("append") {
                s.push_str(&d.text);
            }
            for x in &t.items {
                if let TraitItem::Fn(f) = x {
                    let d = sec.all("spec").find(|d| d.args.split_whitespace().next() == Some(&f.sig.ident.to_string()));
                    let mut sig = f.sig.clone();
                    fix_sig(&mut sig);
                    match d {
                        Some(d) => {
                            let ret = match &sig.output {
                                ReturnType::Type(_, t) => format!("-> (r: {})", t.to_token_stream()),
                                _ => String::new(),
                            };
                            sig.output = ReturnType::Default;
                            let _ = writeln!(s, "{} {ret}\n{};", sig.to_token_stream(), d.text);
                        }
                        None => {
                            let _ = writeln!(s, "{};", sig.to_token_stream());
                        }
                    }
                }
            }
            s.push('}');
            out.text.push_str(&format!("// @@RAW\n{s}\n// @@ENDRAW\n"));
            out.emitted.push(key.into());
            return;
        }
        Item::Const(c) => {
            let mut c = c.clone();
            c.attrs.clear();
            c.vis = parse_quote!(pub);
            rewrite_type(&mut c.ty);
            if let Some(r) = sec.get("expect") {
                if toks(&*c.expr) != r.args.replace(' ', "") {
                    out.errors.push((key.into(), format!("{key} is no longer {}", r.args)));
                }
                return;
            }
            if let Some(d) = sec.get("exec") {
                format!("// @@RAW\n{attrs}pub exec const {}: {}\n{}{{ {} }}\n// @@ENDRAW", c.ident, c.ty.to_token_stream(), d.text, c.expr.to_token_stream())
            } else {
                format!("{attrs}{}", c.to_token_stream())
            }
        }
        Item::Static(c) => {
            // a static of plain data becomes a constant function
            let ty = &c.ty;
            let id = &c.ident;
            let e = &c.expr;
            let mut e = (**e).clone();
            let mut gh = Ghosts { texts: vec![] };
            let mut x = Xf::new(sec, &mut gh);
            x.visit_expr_mut(&mut e);
            let spec = sec.get("spec").map(|d| d.text.clone()).unwrap_or_default();
            let hint = sec.get("hint").map(|d| d.text.clone()).unwrap_or_default();
            // its value, and the fact (which no proof needs to establish) that evaluating it always gives that value
            let t = format!("// @@RAW\n{attrs}pub fn init_{id}() -> (r: {ty}) {spec} {{ {hint} {} }}\npub uninterp spec fn the_{id}() -> {ty};\n#[verifier::external_body]\npub fn static_{id}() -> (r: {ty}) {}\n r == the_{id}(), {{ init_{id}() }}\n// @@ENDRAW\n", e.to_token_stream(), if spec.is_empty() { "ensures".to_string() } else { spec.trim_end().to_string() }, ty = ty.to_token_stream());
            t
        }
        Item::Type(t) => {
            let mut t = t.clone();
            t.attrs.clear();
            t.vis = parse_quote!(pub);
            format!("{}", t.to_token_stream())
        }
        Item::Macro(m) => {
            if key.starts_with("flags ") {
                emit_flags(key, sec, m, out);
                return;
            }
            let id = &m.ident;
            let body = &m.mac.tokens;
            let t = quote!(macro_rules! #id { #body });
            out.text.push_str(&format!("// @@OUTSIDE\n{t}\n// @@INSIDE\n"));
            out.emitted.push(key.into());
            return;
        }
        _ => return,
    };
    out.text.push_str(&text);
    out.text.push('\n');
    out.emitted.push(key.into());
}

/// bitflags 1.x: a struct over an integer with constants; the set operations are in the prelude macro.
fn emit_flags(key: &str, _sec: &Section, m: &ItemMacro, out: &mut Out) {
    struct F {
        name: Ident,
        consts: Vec<(Ident, Expr)>,
    }
    impl parse::Parse for F {
        fn parse(input: parse::ParseStream) -> Result<Self> {
            let _ = input.call(Attribute::parse_outer)?;
            let _: Visibility = input.parse()?;
            let _: Token![struct] = input.parse()?;
            let name: Ident = input.parse()?;
            let _: Token![:] = input.parse()?;
            let _: Type = input.parse()?;
            let c;
            braced!(c in input);
            let mut consts = vec![];
            while !c.is_empty() {
                let _ = c.call(Attribute::parse_outer)?;
                let _: Token![const] = c.parse()?;
                let n: Ident = c.parse()?;
                let _: Token![=] = c.parse()?;
                let e: Expr = c.parse()?;
                let _: Token![;] = c.parse()?;
                consts.push((n, e));
            }
            Ok(F { name, consts })
        }
    }
    let f: F = match parse2(m.mac.tokens.clone()) {
        Ok(f) => f,
        Err(e) => {
            out.errors.push((key.into(), format!("unsupported bitflags: {e}")));
            return;
        }
    };
    let n = f.name.to_string();
    let mut s = format!("#[derive(Copy, Clone, PartialEq, Eq)]\npub struct {n} {{ pub bits: u32 }}\nflags_ops!({n});\nimpl {n} {{\n");
    let mut all = String::from("0u32");
    struct U32Lits;
    impl syn::visit_mut::VisitMut for U32Lits {
        fn visit_lit_int_mut(&mut self, l: &mut LitInt) {
            if l.suffix().is_empty() {
                *l = LitInt::new(&format!("{}u32", l.base10_digits()), l.span());
            }
        }
    }
    let mut f = f;
    for (_, e) in f.consts.iter_mut() {
        U32Lits.visit_expr_mut(e);
    }
    for (id, e) in &f.consts {
        let _ = writeln!(s, "pub const {id}: {n} = {n} {{ bits: {} }};", e.to_token_stream());
        let _ = write!(all, " | ({})", e.to_token_stream());
    }
    let _ = writeln!(s, "pub open spec fn all_bits() -> u32 {{ {} }}\npub fn v_all_bits() -> (r: u32) ensures r == Self::all_bits() {{ {} }}", all, all);
    s.push_str("}\n");
    out.text.push_str(&format!("// @@RAW\n{s}// @@ENDRAW\n"));
    out.emitted.push(key.into());
}

fn fix_sig(sig: &mut Signature) -> Vec<Stmt> {
    let mut pre = vec![];
    sig.constness = None;
    let mut n = 0usize;
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(pt) = a {
            rewrite_type(&mut pt.ty);
            pt.attrs.clear();
            let is_ident = matches!(&*pt.pat, Pat::Ident(i) if i.subpat.is_none());
            if !is_ident {
                let id = format_ident!("arg{}", n);
                let p = &pt.pat;
                pre.extend(xform::bind_pat(p, parse_quote!(#id)));
                *pt.pat = parse_quote!(#id);
            } else if let Pat::Ident(i) = &mut *pt.pat {
                if i.mutability.is_some() {
                    let id = format_ident!("arg{}", n);
                    let name = i.ident.clone();
                    pre.push(parse_quote!(let mut #name = #id;));
                    *pt.pat = parse_quote!(#id);
                }
            }
            n += 1;
        } else if let FnArg::Receiver(r) = a {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                pre.push(parse_quote!(let mut self_ = self;));
            }
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output {
        rewrite_type(t);
    }
    pre
}

struct SelfRename;
impl VisitMut for SelfRename {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = format_ident!("self_");
        }
    }
}

fn emit_fn(f: &SrcFn, sec: &Section, gh: &mut Ghosts, out: &mut Out, in_impl: bool) {
    let mut sig = f.sig.clone();
    let pre = fix_sig(&mut sig);
    let mut body = match &f.body {
        Some(b) => b.clone(),
        None => return,
    };
    if pre.iter().any(|s| toks(s).contains("self_=self")) {
        SelfRename.visit_block_mut(&mut body);
    }
    let mut errs;
    {
        let mut x = Xf::new(sec, gh);
        x.self_ty = match f.key.strip_prefix('<') {
            Some(r) => r.split(" as ").next().map(|t| t.to_string()),
            None => f.key.split_once("::").map(|t| t.0.to_string()),
        };
        let mut b2: Block = parse_quote!({});
        b2.stmts = pre;
        let old = std::mem::take(&mut body.stmts);
        b2.stmts.extend(old);
        body = b2;
        let rt: Option<Type> = match sec.get("rettype") {
            Some(d) => parse_str(&d.args).ok(),
            None => match &sig.output {
                ReturnType::Type(_, t) if !matches!(&**t, Type::ImplTrait(_)) => Some((**t).clone()),
                _ => None,
            },
        };
        x.run(&mut body, matches!(f.sig.output, ReturnType::Default), rt);
        errs = std::mem::take(&mut x.errors);
    }
    // return type and spec
    let ret_name = sec.get("ret").map(|d| d.args.clone()).unwrap_or("r".into());
    let ret_ty = sec.get("rettype").map(|d| d.args.clone()).or_else(|| match &sig.output {
        ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()),
        _ => None,
    });
    let spec = sec.get("spec").map(|d| d.text.clone()).unwrap_or_default();
    let spec_txt = match ret_ty {
        Some(t) => format!("-> ({ret_name}: {t})\n{spec}"),
        None => format!("\n{spec}"),
    };
    let g = gh.add(&spec_txt);
    sig.output = ReturnType::Default;
    if let Some(d) = sec.get("generics") {
        match parse_str::<Generics>(&d.args) {
            Ok(gn) => sig.generics = gn,
            Err(e) => errs.push(format!("bad @generics: {e}")),
        }
    }
    for d in sec.all("argtype") {
        let (i, t) = d.args.split_once(' ').unwrap();
        let i: usize = i.parse().unwrap();
        let mut k = 0;
        for a in sig.inputs.iter_mut() {
            if let FnArg::Typed(pt) = a {
                if k == i {
                    *pt.ty = parse_str(t).unwrap();
                }
                k += 1;
            }
        }
    }
    if let Some(d) = sec.get("rename") {
        sig.ident = format_ident!("{}", d.args);
    }
    let lit = LitInt::new(&g.to_string(), proc_macro2::Span::call_site());
    let stmts = &body.stmts;
    let mut attrs = String::new();
    for d in sec.all("attr") {
        let _ = writeln!(attrs, "{} {}", d.args, d.text.trim());
    }
    let is_trait = f.trait_impl.is_some() && in_impl;
    let vis = if is_trait { quote!() } else { quote!(pub) };
    let ftext = quote!(#vis #sig { __spec!(#lit); #(#stmts)* });
    let text = format!("// @@FN {}\n{attrs}{}\n// @@END {}\n", f.key, ftext, f.key);
    if in_impl {
        out.text.push_str(&text);
    } else {
        match (&f.header, sec.get("impl")) {
            (_, Some(d)) => out.text.push_str(&format!("{} {{\n{text}}}\n", d.args)),
            (Some(h), _) => {
                let h = h.to_string();
                out.text.push_str(&format!("{h} {{\n{text}}}\n"));
            }
            (None, _) => out.text.push_str(&text),
        }
    }
    for e in errs {
        out.errors.push((f.key.clone(), e));
    }
    out.emitted.push(format!("fn {}", f.key));
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn rustfmt(s: &str) -> std::result::Result<String, String> {
    let mut c = std::process::Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=140,use_small_heuristics=Max"])
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    c.stdin.take().unwrap().write_all(s.as_bytes()).map_err(|e| e.to_string())?;
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into_owned());
    }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

/// Replaces the placeholder macros by the ghost text.
fn fill(text: &str, gh: &Ghosts) -> String {
    let mut out = String::with_capacity(text.len() * 2);
    let mut rest = text;
    loop {
        let mut best: Option<(usize, &str)> = None;
        for m in ["__gh!(", "__inv!(", "__clo!(", "__gx!(", "__spec!("] {
            if let Some(p) = rest.find(m) {
                if best.map_or(true, |(q, _)| p < q) {
                    best = Some((p, m));
                }
            }
        }
        let Some((p, m)) = best else {
            out.push_str(rest);
            return out;
        };
        out.push_str(&rest[..p]);
        let after = &rest[p + m.len()..];
        let close = after.find(')').unwrap();
        let id: usize = after[..close].trim().parse().unwrap();
        let txt = gh.texts[id].trim_end();
        rest = &after[close + 1..];
        match m {
            "__gh!(" => {
                rest = rest.strip_prefix(';').unwrap_or(rest);
                out.push_str(txt);
                out.push('\n');
            }
            "__gx!(" => out.push_str(txt),
            _ => {
                rest = rest.strip_prefix(';').unwrap_or(rest);
                // move before the opening brace
                let b = out.trim_end();
                assert!(b.ends_with('{'), "placeholder not at a block start: ...{}", &b[b.len().saturating_sub(80)..]);
                let l = b.len() - 1;
                out.truncate(l);
                out.push_str(txt);
                out.push_str("\n{");
            }
        }
    }
}

/// Whether a contract has hints that stand at the end of the body or of a loop's body (an added early exit goes past them).
fn tail_hints(s: Option<&Section>) -> bool {
    s.is_some_and(|s| s.has("tail") || s.all("hint").any(|d| d.args.trim() == "end" || d.args.trim().ends_with("tail")))
}

/// Every extracted function and every lemma gets its own solver query (`#[verifier::spinoff_prover]`): the
/// queries run in parallel, and what one of them needs does not depend on the others.
fn spin_off(text: &str) -> String {
    let mut out: Vec<&str> = vec![];
    let mut in_fn = false;
    for l in text.lines() {
        let t = l.trim_start();
        if t.starts_with("// @@FN") {
            in_fn = true;
        } else if t.starts_with("// @@END") {
            in_fn = false;
        }
        let mut w = t;
        for p in ["pub(crate) ", "pub(super) ", "pub "] {
            w = w.strip_prefix(p).unwrap_or(w);
        }
        let w = w.strip_prefix("broadcast ").unwrap_or(w);
        let lemma = w.starts_with("proof fn ");
        if lemma || (in_fn && w.starts_with("fn ")) {
            let near = &out[out.len().saturating_sub(4)..];
            if !near.iter().any(|x| x.contains("spinoff") || x.contains("external_body") || (lemma && x.contains("axiom"))) {
                out.push("#[verifier::spinoff_prover]");
            }
        }
        out.push(l);
    }
    out.join("\n") + "\n"
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let repo = opt("--repo").unwrap_or("/repo".into());
    let cdir = opt("--contracts").unwrap_or("/verif/contracts".into());
    let outp = opt("--out").expect("--out");
    let report = opt("--report");
    let prop = opt("--prop");
    let vacuity = args.iter().any(|a| a == "--vacuity");
    if vacuity {
        xform::VACUITY.with(|c| c.set(0));
    }

    let mut contracts: Contracts = BTreeMap::new();
    let mut corder = vec![];
    let mut raws: Vec<(String, String)> = vec![];
    let mut names: Vec<_> = std::fs::read_dir(&cdir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in &names {
        let n = p.file_name().unwrap().to_string_lossy().to_string();
        let t = std::fs::read_to_string(p).unwrap_or_default();
        if n.ends_with(".ct") {
            contracts::parse_file(&n, &t, &mut contracts, &mut corder);
        } else if n.ends_with(".rs") {
            raws.push((n, t));
        }
    }

    let mut src = Src::default();
    let mut fatal: Vec<(String, String)> = vec![];
    for f in SOURCES {
        let p = format!("{repo}/{f}");
        match std::fs::read_to_string(&p) {
            Ok(t) => match parse_file(&t) {
                Ok(file) => collect(file.items, f, &mut src),
                Err(e) => fatal.push((f.to_string(), format!("does not parse: {e}"))),
            },
            Err(e) => fatal.push((f.to_string(), format!("cannot read: {e}"))),
        }
    }

    xform::SLICE_PARAMS.with(|m| {
        for f in src.fns.values() {
            let mut pos = vec![];
            let mut k = 0;
            for a in &f.sig.inputs {
                if let FnArg::Typed(t) = a {
                    if let Type::Reference(r) = &*t.ty {
                        if matches!(&*r.elem, Type::Slice(_)) && r.mutability.is_none() {
                            pos.push(k);
                        }
                    }
                    k += 1;
                }
            }
            if !pos.is_empty() {
                m.borrow_mut().insert(f.sig.ident.to_string(), pos);
            }
        }
    });

    // which functions: closure of the tagged ones
    let all_fn_secs: Vec<&String> = corder.iter().filter(|k| k.starts_with("fn ")).collect();
    let mut selected: BTreeSet<String> = BTreeSet::new();
    match &prop {
        None => selected.extend(all_fn_secs.iter().map(|k| k[3..].to_string())),
        Some(p) => {
            let mut work: Vec<String> = vec![];
            for k in &all_fn_secs {
                let s = &contracts[*k];
                let tagged = s.dirs.iter().any(|d| has_tag(&d.text, p) || (d.name == "prop" && d.args.split([',', ' ']).any(|x| x == p || x == "all")));
                if tagged {
                    work.push(k[3..].to_string());
                }
            }
            let mut by_name: BTreeMap<String, Vec<String>> = BTreeMap::new();
            for k in &all_fn_secs {
                let key = &k[3..];
                let n = key.rsplit("::").next().unwrap().to_string();
                by_name.entry(n).or_default().push(key.to_string());
            }
            while let Some(k) = work.pop() {
                if !selected.insert(k.clone()) {
                    continue;
                }
                if let Some(f) = src.fns.get(&k) {
                    let mut callee: Vec<String> = f.shape.calls.iter().map(|c| c.split("::<").next().unwrap().rsplit("::").next().unwrap().trim().to_string()).collect();
                    if let Some(s) = contracts.get(&format!("fn {k}")) {
                        for d in s.all("uses") {
                            callee.extend(d.args.split([',', ' ']).map(|x| x.to_string()));
                        }
                        // names introduced by substitutions
                        for d in s.all("subst") {
                            let t = format!("{} {}", d.args, d.text);
                            for w in t.split(|c: char| !(c.is_alphanumeric() || c == '_')) {
                                callee.push(w.to_string());
                            }
                        }
                    }
                    for c in callee {
                        let c = match c.as_str() {
                            "into" => vec!["from".to_string()],
                            "try_into" => vec!["try_from".to_string()],
                            _ => vec![c.clone()],
                        };
                        for c in c {
                            if let Some(ks) = by_name.get(&c) {
                                for k2 in ks {
                                    work.push(k2.clone());
                                }
                            }
                        }
                    }
                    // operators
                    for k2 in by_name.get("not").into_iter().chain(by_name.get("index")).chain(by_name.get("index_mut")).chain(by_name.get("eq")).flatten() {
                        work.push(k2.clone());
                    }
                }
            }
        }
    }

    let mut gh = Ghosts { texts: vec![] };
    let mut out = Out { text: String::new(), errors: vec![], emitted: vec![] };
    out.errors.extend(fatal);
    let mut done_impls: BTreeSet<String> = BTreeSet::new();
    for k in &corder {
        let sec = &contracts[k];
        match sec.kind.as_str() {
            "fn" => {
                if !selected.contains(&sec.key) {
                    continue;
                }
                match src.fns.get(&sec.key) {
                    None => out.errors.push((sec.key.clone(), "lost anchor: function is gone".into())),
                    Some(f) => {
                        if let Some(ti) = &f.trait_impl {
                            if sec.get("impl").is_none() && contracts.contains_key(&format!("impl {ti}")) {
                                if done_impls.insert(ti.clone()) {
                                    emit_impl(ti, &contracts, &src, &mut gh, &mut out);
                                }
                                continue;
                            }
                        }
                        emit_fn(f, sec, &mut gh, &mut out, false)
                    }
                }
            }
            "impl" => {}
            _ => match src.items.get(k) {
                None => out.errors.push((k.clone(), "lost anchor: item is gone".into())),
                Some(it) => {
                    let _ = &it.key;
                    emit_item(k, sec, it, &mut out)
                }
            },
        }
    }
    // format and fill
    let formatted = match rustfmt_parts(&out.text) {
        Ok(t) => t,
        Err(e) => {
            out.errors.push(("*".into(), format!("unsupported: rustfmt: {e}")));
            out.text.clone()
        }
    };
    let filled = fill(&formatted, &gh);
    let mut file = String::new();
    for (n, t) in &raws {
        if n.starts_with("00") {
            file.push_str(&format!("// ==== {n}\n{t}\n"));
        }
    }
    file.push_str("verus! {\n// ==== extracted\n");
    file.push_str(&filled.replace("// @@OUTSIDE", "} // @@OUTSIDE").replace("// @@INSIDE", "verus! { // @@INSIDE"));
    file.push_str("\n} // verus!\n");
    for (n, t) in &raws {
        if !n.starts_with("00") {
            let t = filter_lemmas(t, &prop);
            file.push_str(&format!("// ==== {n}\n{t}\n"));
        }
    }
    if vacuity {
        file.push_str("verus! { pub uninterp spec fn vac_point(n: int) -> bool; }\n");
    }
    file.push_str("fn main() {}\n");
    let file = spin_off(&file);
    std::fs::write(&outp, file).unwrap();
    // a proof hint whose place is gone is left out: hints assume nothing, so whatever verifies without it is proved
    let (lost, errors): (Vec<_>, Vec<_>) =
        out.errors.drain(..).partition(|(_, e)| e.starts_with("lost anchor:") && !e.ends_with("is gone") || e.ends_with("function is gone"));
    out.errors = errors;

    if let Some(r) = report {
        let mut j = String::from("{\n\"errors\": [");
        j.push_str(&out.errors.iter().map(|(k, e)| format!("[{},{}]", esc(k), esc(e))).collect::<Vec<_>>().join(",\n"));
        j.push_str("],\n\"lost\": [");
        j.push_str(&lost.iter().map(|(k, e)| format!("[{},{}]", esc(k), esc(e))).collect::<Vec<_>>().join(",\n"));
        j.push_str("],\n\"emitted\": ");
        j.push_str(&jlist(&out.emitted));
        j.push_str(",\n\"fns\": {\n");
        let mut first = true;
        for f in src.fns.values() {
            if !first {
                j.push_str(",\n");
            }
            first = false;
            let mut calls = f.shape.calls.clone();
            calls.sort();
            let _ = write!(
                j,
                "{}: {{\"file\": {}, \"line\": {}, \"lines\": {}, \"loops\": {}, \"closures\": {}, \"branches\": {}, \"exits\": {}, \"tail_hints\": {}, \"asserts\": {}, \"calls\": {}, \"bindings\": {}, \"contract\": {}, \"selected\": {}}}",
                esc(&f.key), esc(&f.file), f.line, f.lines, f.shape.loops, f.shape.closures, f.shape.branches, f.shape.exits, tail_hints(contracts.get(&format!("fn {}", f.key))), f.shape.asserts,
                jlist(&calls), jlist(&f.shape.bindings), contracts.contains_key(&format!("fn {}", f.key)), selected.contains(&f.key)
            );
        }
        j.push_str("\n}}\n");
        std::fs::write(r, j).unwrap();
    }
    for (k, e) in &out.errors {
        eprintln!("extract: {k}: {e}");
    }
    std::process::exit(if out.errors.is_empty() { 0 } else { 2 });
}

fn rustfmt_parts(t: &str) -> std::result::Result<String, String> {
    // traits carry raw Verus text: keep them out of rustfmt
    rustfmt_with_raw(t)
}

fn rustfmt_with_raw(t: &str) -> std::result::Result<String, String> {
    let mut fmt_in = String::new();
    let mut raw: Vec<String> = vec![];
    let mut cur: Option<String> = None;
    for l in t.lines() {
        if l.starts_with("// @@RAW") {
            cur = Some(String::new());
        } else if l.starts_with("// @@ENDRAW") {
            raw.push(cur.take().unwrap());
            fmt_in.push_str(&format!("// @@HOLE {}\n", raw.len() - 1));
        } else if let Some(c) = cur.as_mut() {
            c.push_str(l);
            c.push('\n');
        } else {
            fmt_in.push_str(l);
            fmt_in.push('\n');
        }
    }
    let f = rustfmt(&fmt_in)?;
    let mut o = String::new();
    for l in f.lines() {
        if let Some(n) = l.trim().strip_prefix("// @@HOLE ") {
            o.push_str(&raw[n.trim().parse::<usize>().unwrap()]);
        } else {
            o.push_str(l);
            o.push('\n');
        }
    }
    Ok(o)
}

fn emit_impl(ti: &str, contracts: &Contracts, src: &Src, gh: &mut Ghosts, out: &mut Out) {
    let sec = &contracts[&format!("impl {ti}")];
    let (imp, _) = match src.impls.get(ti) {
        Some(x) => x,
        None => {
            out.errors.push((ti.into(), "lost anchor: impl is gone".into()));
            return;
        }
    };
    let header = match sec.get("header") {
        Some(d) => d.args.clone(),
        None => {
            let (g, _, w) = imp.generics.split_for_impl();
            let st = &imp.self_ty;
            let mut p = imp.trait_.as_ref().unwrap().1.clone();
            flatten_path(&mut p);
            let last = p.segments.last_mut().unwrap();
            if last.ident == "From" {
                last.ident = format_ident!("VFrom");
            }
            if last.ident == "TryFrom" {
                last.ident = format_ident!("VTryFrom");
            }
            quote!(impl #g #p for #st #w).to_string()
        }
    };
    out.text.push_str(&format!("{header} {{\n"));
    for d in sec.all("append") {
        let gid = gh.add(&d.text);
        out.text.push_str(&format!("__gh!({gid});\n"));
    }
    for x in &imp.items {
        match x {
            ImplItem::Type(t) => {
                if !sec.has("no-types") {
                    out.text.push_str(&format!("{}\n", t.to_token_stream()));
                }
            }
            ImplItem::Fn(f) => {
                let ty = toks(&*imp.self_ty);
                let tr = ti.split(" for ").next().unwrap();
                let key = format!("<{ty} as {tr}>::{}", f.sig.ident);
                match contracts.get(&format!("fn {key}")) {
                    Some(s) => emit_fn(&src.fns[&key], s, gh, out, true),
                    None => out.errors.push((key, "unsupported: method without contract in a contracted impl".into())),
                }
            }
            _ => {}
        }
    }
    out.text.push_str("}\n");
    out.emitted.push(format!("impl {ti}"));
}

fn has_tag(text: &str, p: &str) -> bool {
    text.lines().any(|l| match l.rfind("// [") {
        Some(i) => l[i + 4..].split([',', ']', ' ']).any(|x| x == p),
        None => false,
    })
}

/// Lemma blocks between `// @@ONLY C07 C08` and `// @@ALL` are kept for these properties only.
fn filter_lemmas(t: &str, prop: &Option<String>) -> String {
    let Some(p) = prop else { return t.to_string() };
    let mut keep = true;
    let mut o = String::new();
    for l in t.lines() {
        if let Some(ps) = l.trim().strip_prefix("// @@ONLY ") {
            keep = ps.split_whitespace().any(|x| x == p);
            o.push('\n');
            continue;
        }
        if l.trim() == "// @@ALL" {
            keep = true;
        }
        o.push_str(if keep { l } else { "" });
        o.push('\n');
    }
    o
}
