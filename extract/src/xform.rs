//! Rewrites a function body of /repo into the subset Verus accepts, and places the
//! proof annotations of its contract section in it. Every rewrite is listed in DESIGN.md.
use crate::contracts::Section;
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Renames of methods of std / third party types to their verified counterparts in the prelude.
const METHOD_RENAMES: &[(&str, usize, &str)] = &[
    ("iter", 0, "v_iter"),
    ("into_iter", 0, "into_it"),
    ("map", 1, "v_map"),
    ("filter", 1, "v_filter"),
    ("filter_map", 1, "v_filter_map"),
    ("flat_map", 1, "v_flat_map"),
    ("map_or", 2, "v_map_or"),
    ("and_then", 1, "v_and_then"),
    ("any", 1, "v_any"),
    ("all", 1, "v_all"),
    ("position", 1, "v_position"),
    ("contains", 1, "v_contains"),
    ("into", 0, "v_into"),
    ("try_into", 0, "v_try_into"),
    ("swap", 2, "v_swap"),
    ("chunks_exact", 1, "v_chunks_exact"),
    ("bitor_assign", 1, "v_bitor_assign"),
    ("to_vec", 0, "v_to_vec"),
    ("to_string", 0, "v_to_string"),
    ("as_str", 0, "v_as_str"),
    ("first_mut", 0, "v_first_mut"),
    ("retain", 1, "v_retain"),
    ("extend", 1, "v_extend"),
    ("shuffle", 1, "v_shuffle"),
];

pub struct Ghosts {
    pub texts: Vec<String>,
}

impl Ghosts {
    pub fn add(&mut self, s: &str) -> usize {
        self.texts.push(s.to_string());
        self.texts.len() - 1
    }
}

#[derive(Default, Clone, Debug)]
pub struct Shape {
    pub loops: usize,
    pub closures: usize,
    pub asserts: usize,
    pub calls: Vec<String>,
    pub bindings: Vec<String>,
    pub branches: usize,
    pub exits: usize,
}

struct Hint {
    anchor: String,
    ghost: usize,
    used: bool,
}

pub struct Xf<'a> {
    pub sec: &'a Section,
    pub gh: &'a mut Ghosts,
    pub errors: Vec<String>,
    loops: usize,
    closures: usize,
    asserts: usize,
    calls: BTreeMap<String, usize>,
    lets: BTreeMap<String, usize>,
    hints: Vec<Hint>,
    pending: Vec<(bool, usize)>,
    substs: Vec<(String, String, usize)>,
    strmatch: usize,
    pub self_ty: Option<String>,
    used_loops: Vec<usize>,
    used_closures: Vec<usize>,
    closure_bodies: usize,
    in_spec_fn: bool,
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn toks<T: ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}

fn ghost_stmt(id: usize) -> Stmt {
    let lit = syn::LitInt::new(&id.to_string(), proc_macro2::Span::call_site());
    parse_quote!(__gh!(#lit);)
}

impl<'a> Xf<'a> {
    pub fn new(sec: &'a Section, gh: &'a mut Ghosts) -> Self {
        let mut hints = vec![];
        for d in sec.all("hint") {
            let g = gh.add(&d.text);
            hints.push(Hint { anchor: d.args.clone(), ghost: g, used: false });
        }
        let mut substs = vec![];
        for d in sec.all("subst") {
            let whole = format!("{} {}", d.args, d.text);
            let (a, b) = whole.split_once("=>").expect("@subst A => B");
            substs.push((norm(a), b.trim().to_string(), 0));
        }
        Xf {
            sec,
            gh,
            errors: vec![],
            loops: 0,
            closures: 0,
            asserts: 0,
            calls: BTreeMap::new(),
            lets: BTreeMap::new(),
            hints,
            pending: vec![],
            substs,
            strmatch: 0,
            self_ty: None,
            used_loops: vec![],
            used_closures: vec![],
            closure_bodies: 0,
            in_spec_fn: false,
        }
    }

    fn event(&mut self, what: &str) {
        // what = "call NAME K" / "let NAME K" / "return K" / "assert K"
        for h in self.hints.iter_mut() {
            if h.anchor == format!("before {what}") {
                self.pending.push((true, h.ghost));
                h.used = true;
            } else if h.anchor == format!("after {what}") {
                self.pending.push((false, h.ghost));
                h.used = true;
            }
        }
    }

    fn hint_at(&mut self, anchor: &str) -> Vec<Stmt> {
        let mut v = vec![];
        for h in self.hints.iter_mut() {
            if h.anchor == anchor {
                h.used = true;
                v.push(ghost_stmt(h.ghost));
            }
        }
        // reachability probes: each of these assertions must fail
        if anchor == "start" || anchor == "end" || anchor.ends_with(" head") || anchor.ends_with(" after") || anchor.ends_with(" start") {
            let n = VACUITY.with(|c| {
                let n = c.get();
                if n >= 0 {
                    c.set(n + 1);
                }
                n
            });
            if n >= 0 {
                let g = self.gh.add(&format!("proof {{ if vac_point({n}) {{ assert(false); }} }} // VAC {n} {anchor}"));
                v.push(ghost_stmt(g));
            }
        }
        v
    }

    pub fn run(&mut self, body: &mut Block, unit: bool, ret: Option<Type>) {
        Desugar { n: 0 }.visit_block_mut(body);
        let start = self.hint_at("start");
        self.visit_block_mut(body);
        // tail
        if let Some(t) = self.sec.get("tail") {
            let name = format_ident!("{}", t.args);
            match body.stmts.pop() {
                Some(Stmt::Expr(e, None)) => {
                    match &ret {
                        Some(ty) => body.stmts.push(parse_quote!(let #name: #ty = #e;)),
                        None => body.stmts.push(parse_quote!(let #name = #e;)),
                    }
                    let g = self.gh.add(&t.text);
                    body.stmts.push(ghost_stmt(g));
                    body.stmts.push(Stmt::Expr(parse_quote!(#name), None));
                }
                other => {
                    if let Some(o) = other {
                        body.stmts.push(o);
                    }
                    self.errors.push("lost anchor: no tail expression".into());
                }
            }
        }
        let end = self.hint_at("end");
        if !end.is_empty() {
            if unit {
                if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
                    *semi = Some(Default::default());
                }
            }
            match body.stmts.last() {
                Some(Stmt::Expr(_, None)) => {
                    let t = body.stmts.pop().unwrap();
                    body.stmts.extend(end);
                    body.stmts.push(t);
                }
                _ => body.stmts.extend(end),
            }
        }
        let mut s = start;
        s.append(&mut body.stmts);
        body.stmts = s;
        for h in &self.hints {
            if !h.used {
                self.errors.push(format!("lost anchor: hint '{}'", h.anchor));
            }
        }
        for (a, _, n) in &self.substs {
            if *n == 0 {
                self.errors.push(format!("lost anchor: subst '{a}'"));
            }
        }
        for d in self.sec.all("loop") {
            let k: usize = d.args.split_whitespace().next().unwrap().parse().unwrap();
            if !self.used_loops.contains(&k) {
                self.errors.push(format!("lost anchor: loop {k}"));
            }
        }
        for d in self.sec.all("closure") {
            let k: usize = d.args.split_whitespace().next().unwrap().parse().unwrap();
            if !self.used_closures.contains(&k) {
                self.errors.push(format!("lost anchor: closure {k}"));
            }
        }
    }

    fn loop_dir(&mut self, k: usize) -> (String, String, Option<usize>) {
        let d = self
            .sec
            .all("loop")
            .find(|d| d.args.split_whitespace().next() == Some(&k.to_string()))
            .cloned();
        self.used_loops.push(k);
        match d {
            Some(d) => {
                let mut it = d.args.split_whitespace();
                it.next();
                let mode = it.next().unwrap_or("at").to_string();
                let name = it.next().map(|s| s.to_string()).unwrap_or(format!("{k}"));
                let g = self.gh.add(&d.text);
                (mode, name, Some(g))
            }
            None => ("at".into(), format!("{k}"), None),
        }
    }

    fn inv_stmt(g: Option<usize>) -> Vec<Stmt> {
        match g {
            Some(g) => {
                let lit = syn::LitInt::new(&g.to_string(), proc_macro2::Span::call_site());
                vec![parse_quote!(__inv!(#lit);)]
            }
            None => vec![],
        }
    }

    fn do_for(&mut self, f: ExprForLoop) -> Expr {
        let k = self.loops;
        self.loops += 1;
        let (mode, nm, inv) = self.loop_dir(k);
        let head = self.hint_at(&format!("loop {k} head"));
        let tail = self.hint_at(&format!("loop {k} tail"));
        let before = self.hint_at(&format!("loop {k} before"));
        let init = self.hint_at(&format!("loop {k} init"));
        let after = self.hint_at(&format!("loop {k} after"));
        let ExprForLoop { label, pat, mut expr, mut body, .. } = f;
        let pat = *pat;
        // the iterated expression
        self.visit_expr_mut(&mut expr);
        let saved = std::mem::take(&mut self.pending);
        self.visit_block_mut(&mut body);
        self.pending = saved;
        let invs = Self::inv_stmt(inv);
        let stmts = body.stmts;
        let it = format_ident!("it{}", nm);
        let ix = format_ident!("ix{}", nm);
        let unparen = {
            let mut e: &Expr = &expr;
            while let Expr::Paren(p) = e {
                e = &p.expr;
            }
            e.clone()
        };
        if let Expr::Range(ExprRange { start: Some(lo), limits: RangeLimits::HalfOpen(_), end: Some(hi), .. }) = &unparen {
            let hi_id = format_ident!("hi{}", nm);
            let bind: Stmt = parse_quote!(let #pat = #ix;);
            return parse_quote!({
                let #hi_id = #hi;
                let mut #ix = #lo;
                #(#before)*
                #label while #ix < #hi_id { #(#invs)* #bind #ix = #ix + 1; #(#head)* #(#stmts)* #(#tail)* }
                #(#after)*
            });
        }
        let val: Expr = if mode == "pull" { parse_quote!(#it.pull()) } else { parse_quote!(#it.at(#ix)) };
        let binds = bind_pat(&pat, val);
        if mode == "pull" {
            let full = format_ident!("full{}", nm);
            let g = self.gh.add(&format!("let ghost {full} = {it}@;"));
            let gs = ghost_stmt(g);
            return parse_quote!({
                let mut #it = (#expr).into_it();
                #gs
                #(#before)*
                #label while #it.len() > 0 { #(#invs)* #(#init)* #(#binds)* #(#head)* #(#stmts)* #(#tail)* }
                #(#after)*
            });
        }
        parse_quote!({
            let #it = (#expr).into_it();
            let mut #ix: usize = 0;
            #(#before)*
            #label while #ix < #it.len() { #(#invs)* #(#init)* #(#binds)* #ix = #ix + 1; #(#head)* #(#stmts)* #(#tail)* }
            #(#after)*
        })
    }

    fn do_macro(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args: Vec<Expr> = match m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            Ok(p) => p.into_iter().collect(),
            Err(_) => vec![],
        };
        let mut cond: Option<Expr> = None;
        match name.as_str() {
            "assert" | "debug_assert" => cond = args.get(0).cloned(),
            "assert_eq" | "debug_assert_eq" => {
                let (a, b) = (args.get(0)?, args.get(1)?);
                cond = Some(parse_quote!((#a) == (#b)));
            }
            "assert_ne" | "debug_assert_ne" => {
                let (a, b) = (args.get(0)?, args.get(1)?);
                cond = Some(parse_quote!((#a) != (#b)));
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                let k = self.asserts;
                self.asserts += 1;
                self.event(&format!("assert {k}"));
                let d = self.sec.all("assert").find(|d| d.args == format!("{k} reject")).cloned();
                if let Some(d) = d {
                    let g = self.gh.add(&format!("Ghost({})", d.text.trim()));
                    let lit = syn::LitInt::new(&g.to_string(), proc_macro2::Span::call_site());
                    return Some(parse_quote!(vpanic_reject(__gx!(#lit))));
                }
                return Some(parse_quote!(vpanic()));
            }
            "format" => return Some(parse_quote!(vstring())),
            "println" => return Some(parse_quote!(())),
            "matches" => {
                // matches!(e, pat) keeps its meaning as a match expression
                let ts = m.tokens.clone();
                struct M(Expr, Pat);
                impl parse::Parse for M {
                    fn parse(input: parse::ParseStream) -> Result<Self> {
                        let e = input.parse()?;
                        let _: Token![,] = input.parse()?;
                        let p = Pat::parse_multi_with_leading_vert(input)?;
                        let _: Option<Token![,]> = input.parse()?;
                        Ok(M(e, p))
                    }
                }
                if let Ok(M(e, p)) = parse2::<M>(ts) {
                    let mut e: Expr = parse_quote!(match #e { #p => { true } _ => { false } });
                    self.visit_expr_mut(&mut e);
                    return Some(e);
                }
                return None;
            }
            "vec" => {
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                struct R(Expr, Expr);
                impl parse::Parse for R {
                    fn parse(input: parse::ParseStream) -> Result<Self> {
                        let a = input.parse()?;
                        let _: Token![;] = input.parse()?;
                        Ok(R(a, input.parse()?))
                    }
                }
                if let Ok(R(mut a, mut b)) = parse2::<R>(m.tokens.clone()) {
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    return Some(parse_quote!(vec_rep(#a, #b)));
                }
                return None;
            }
            _ => return None,
        }
        let k = self.asserts;
        self.asserts += 1;
        self.event(&format!("assert {k}"));
        let mut cond = cond?;
        self.visit_expr_mut(&mut cond);
        let d = self.sec.all("assert").find(|d| d.args == format!("{k} reject")).cloned();
        if let Some(d) = d {
            let g = self.gh.add(&format!("Ghost({})", d.text.trim()));
            let lit = syn::LitInt::new(&g.to_string(), proc_macro2::Span::call_site());
            Some(parse_quote!(exec_reject(#cond, __gx!(#lit))))
        } else {
            Some(parse_quote!(exec_assert(#cond)))
        }
    }

    fn try_subst(&mut self, s: &str) -> Option<String> {
        for (a, b, n) in self.substs.iter_mut() {
            if *a == s {
                *n += 1;
                return Some(b.clone());
            }
        }
        None
    }
}

thread_local! {
    /// fn name -> positions of its parameters of type `&[T]` (without self), over all functions of the source.
    /// number of the next reachability probe, or -1
    pub static VACUITY: std::cell::Cell<i64> = const { std::cell::Cell::new(-1) };
    /// T -> U for each `impl Deref for T { type Target = U; .. }`
    pub static DEREFS: std::cell::RefCell<BTreeMap<String, String>> = Default::default();
    /// "T::m" for every inherent method
    pub static INHERENT: std::cell::RefCell<std::collections::BTreeSet<String>> = Default::default();
    pub static STATICS: std::cell::RefCell<std::collections::BTreeSet<String>> = Default::default();
    pub static SLICE_PARAMS: std::cell::RefCell<std::collections::BTreeMap<String, Vec<usize>>> = Default::default();
}

/// `f(&x)` where the parameter is a slice: the deref coercion of `&Vec`/`&ArrayVec`/`&[T; N]` is written out.
fn coerce_slices(name: &str, args: &mut punctuated::Punctuated<Expr, Token![,]>) {
    let pos = SLICE_PARAMS.with(|m| m.borrow().get(name).cloned().unwrap_or_default());
    for i in pos {
        if let Some(Expr::Reference(r)) = args.iter().nth(i) {
            if r.mutability.is_none() && matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)) {
                let inner = &r.expr;
                let x: Expr = parse_quote!(#inner.v_slice());
                args[i] = x;
            }
        }
    }
}

/// `let PAT = VAL;` where PAT may be a reference pattern (Verus has no reference patterns).
pub fn bind_pat(pat: &Pat, val: Expr) -> Vec<Stmt> {
    match pat {
        Pat::Reference(r) => {
            let inner = &r.pat;
            bind_pat(inner, parse_quote!(*#val))
        }
        Pat::Paren(p) => bind_pat(&p.pat, val),
        Pat::Type(t) => bind_pat(&t.pat, val),
        Pat::Wild(_) => vec![parse_quote!(let _unused = #val;)],
        Pat::Tuple(t) if t.elems.iter().any(|e| matches!(e, Pat::Reference(_))) => {
            let mut binds: Vec<Stmt> = vec![];
            let mut names: Vec<Pat> = vec![];
            for (i, e) in t.elems.iter().enumerate() {
                if let Pat::Reference(r) = e {
                    let id = format_ident!("__ref{}", i);
                    let inner = &r.pat;
                    binds.extend(bind_pat(inner, parse_quote!(*#id)));
                    names.push(parse_quote!(#id));
                } else {
                    names.push(e.clone());
                }
            }
            let mut v: Vec<Stmt> = vec![parse_quote!(let (#(#names),*) = #val;)];
            v.extend(binds);
            v
        }
        p => vec![parse_quote!(let #p = #val;)],
    }
}

/// Structural desugaring that happens before anchors are numbered.
struct Desugar {
    n: usize,
}

impl Desugar {
    fn for_each(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::MethodCall(mc) = e {
            if mc.method == "for_each" && mc.args.len() == 1 {
                if let Expr::Closure(c) = &mc.args[0] {
                    if c.inputs.len() != 1 {
                        return None;
                    }
                    let pat = c.inputs[0].clone();
                    let body = match &*c.body {
                        Expr::Block(b) => {
                            let mut b = b.block.clone();
                            if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                                *semi = Some(Default::default());
                            }
                            b
                        }
                        e => parse_quote!({ #e; }),
                    };
                    let recv = &mc.receiver;
                    // A.iter_mut().zip(B).for_each(|(x, y)| ..)
                    if let Expr::MethodCall(z) = &**recv {
                        if z.method == "zip" {
                            if let Expr::MethodCall(im) = &*z.receiver {
                                if im.method == "iter_mut" {
                                    if let Pat::Tuple(t) = &pat {
                                        let a = &im.receiver;
                                        let b = &z.args[0];
                                        let (x, y) = (&t.elems[0], &t.elems[1]);
                                        let stmts = &body.stmts;
                                        return Some(parse_quote!({
                                            let zip_other = #b;
                                            let mut zip_ix: usize = 0;
                                            while zip_ix < #a.len() && zip_ix < zip_other.len() {
                                                let mut zip_cell = #a[zip_ix];
                                                {
                                                    let #x = &mut zip_cell;
                                                    let #y = &zip_other[zip_ix];
                                                    #(#stmts)*
                                                }
                                                #a[zip_ix] = zip_cell;
                                                zip_ix = zip_ix + 1;
                                            }
                                        }));
                                    }
                                }
                            }
                        }
                    }
                    return Some(parse_quote!(for #pat in #recv #body));
                }
            }
        }
        None
    }
}

impl VisitMut for Desugar {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            if let Stmt::Expr(e, _) = s {
                if let Some(f) = self.for_each(e) {
                    let _ = (i, n);
                    *s = Stmt::Expr(f, None);
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if !matches!(&*a.body, Expr::Block(_)) {
            let e = &a.body;
            a.body = Box::new(parse_quote!({ #e }));
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // X.map(|p| B).unwrap_or(())  ==>  match X { Some(p) => B, None => {} }
        let mut new = None;
        if let Expr::MethodCall(u) = e {
            if u.method == "unwrap_or" && u.args.len() == 1 && toks(&u.args[0]) == "()" {
                if let Expr::MethodCall(m) = &*u.receiver {
                    if m.method == "map" && m.args.len() == 1 {
                        if let Expr::Closure(c) = &m.args[0] {
                            if c.inputs.len() == 1 {
                                let (recv, pat, body) = (&m.receiver, &c.inputs[0], &c.body);
                                new = Some(parse_quote!(match #recv { Some(#pat) => #body, None => () }));
                            }
                        }
                    }
                }
            }
        }
        if let Some(n) = new {
            *e = n;
        }
        visit_mut::visit_expr_mut(self, e);
        self.n += 1;
    }
}

fn is_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg"))
}

impl VisitMut for Xf<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        for (i, mut s) in old.into_iter().enumerate() {
            let saved = std::mem::take(&mut self.pending);
            self.visit_stmt_mut(&mut s);
            let pend = std::mem::replace(&mut self.pending, saved);
            for (before, g) in &pend {
                if *before {
                    out.push(ghost_stmt(*g));
                }
            }
            let has_after = pend.iter().any(|(b, _)| !*b);
            if has_after && i + 1 == n && matches!(s, Stmt::Expr(_, None)) {
                if let Stmt::Expr(e, None) = s {
                    let id = format_ident!("tail_{}", self.closure_bodies);
                    self.closure_bodies += 1;
                    out.push(parse_quote!(let #id = #e;));
                    for (before, g) in &pend {
                        if !*before {
                            out.push(ghost_stmt(*g));
                        }
                    }
                    out.push(Stmt::Expr(parse_quote!(#id), None));
                }
            } else {
                out.push(s);
                for (before, g) in &pend {
                    if !*before {
                        out.push(ghost_stmt(*g));
                    }
                }
            }
        }
        b.stmts = out;
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Some(r) = { let t = toks(s); self.try_subst(&t) } {
            let b: Block = match parse_str(&format!("{{ {r} }}")) {
                Ok(b) => b,
                Err(e) => {
                    self.errors.push(format!("bad subst: {e}"));
                    return;
                }
            };
            if b.stmts.len() == 1 {
                *s = b.stmts.into_iter().next().unwrap();
            } else {
                *s = Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b }), None);
            }
            return;
        }
        match s {
            Stmt::Local(l) => {
                l.attrs.clear();
                let mut p = &l.pat;
                if let Pat::Type(t) = p {
                    p = &t.pat;
                }
                let name = match p {
                    Pat::Ident(i) => i.ident.to_string(),
                    other => toks(other),
                };
                // a type the verifier cannot infer is written out
                if let Some(d) = self.sec.all("lettype").find(|d| d.args.split_whitespace().next() == Some(name.as_str())).cloned() {
                    if !matches!(l.pat, Pat::Type(_)) {
                        let ty: Type = parse_str(d.args.split_once(' ').unwrap().1).unwrap();
                        let p = &l.pat;
                        let q: Stmt = parse_quote!(let #p: #ty = 0;);
                        if let Stmt::Local(q) = q {
                            l.pat = q.pat;
                        }
                    }
                }
                visit_mut::visit_local_mut(self, l);
                let k = *self.lets.get(&name).unwrap_or(&0);
                self.lets.insert(name.clone(), k + 1);
                self.event(&format!("let {name} {k}"));
            }
            Stmt::Macro(m) => {
                if let Some(e) = self.do_macro(&m.mac) {
                    let semi = m.semi_token;
                    *s = Stmt::Expr(e, semi.or(Some(Default::default())));
                    if let Stmt::Expr(e, semi) = s {
                        // a diverging or value macro in tail position keeps its position
                        if m_tail(e) {
                            *semi = None;
                        }
                    }
                }
            }
            Stmt::Expr(e, _) => {
                if let Expr::If(i) = e {
                    i.attrs.retain(|a| !a.path().is_ident("cfg"));
                }
                if let Expr::MethodCall(i) = e {
                    if is_cfg(&i.attrs) {
                        i.attrs.clear();
                    }
                }
                self.visit_expr_mut(e);
            }
            Stmt::Item(_) => {}
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(r) = { let t = toks(e); self.try_subst(&t) } {
            match parse_str::<Expr>(&r) {
                Ok(x) => *e = x,
                Err(err) => self.errors.push(format!("bad subst {r}: {err}")),
            }
            return;
        }
        match e {
            Expr::ForLoop(_) => {
                let f = match std::mem::replace(e, Expr::Verbatim(quote!())) {
                    Expr::ForLoop(f) => f,
                    _ => unreachable!(),
                };
                *e = self.do_for(f);
                return;
            }
            Expr::While(_) | Expr::Loop(_) => {
                let k = self.loops;
                self.loops += 1;
                let (_m, _nm, inv) = self.loop_dir(k);
                let head = self.hint_at(&format!("loop {k} head"));
                let tail = self.hint_at(&format!("loop {k} tail"));
                let before = self.hint_at(&format!("loop {k} before"));
                let after = self.hint_at(&format!("loop {k} after"));
                let wrap = !(before.is_empty() && after.is_empty());
                let saved = std::mem::take(&mut self.pending);
                // while let PAT = E { B }  ==>  loop { let PAT = E else { break }; B }
                let mut replaced = None;
                if let Expr::While(w) = e {
                    if let Expr::Let(l) = &*w.cond {
                        let (pat, ex, label, body) = (&l.pat, &l.expr, &w.label, &w.body);
                        replaced = Some(parse_quote!(#label loop { match #ex { #pat => #body, _ => { break; } } }));
                    }
                }
                if let Some(r) = replaced {
                    *e = r;
                }
                let body = match e {
                    Expr::While(w) => {
                        self.visit_expr_mut(&mut w.cond);
                        &mut w.body
                    }
                    Expr::Loop(l) => &mut l.body,
                    _ => unreachable!(),
                };
                let mut b = body.clone();
                self.visit_block_mut(&mut b);
                let mut st = Self::inv_stmt(inv);
                st.extend(head);
                st.append(&mut b.stmts);
                st.extend(tail);
                body.stmts = st;
                self.pending = saved;
                if wrap {
                    let inner = e.clone();
                    *e = parse_quote!({ #(#before)* #inner #(#after)* });
                }
                return;
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                let d = self
                    .sec
                    .all("closure")
                    .find(|d| d.args.split_whitespace().next() == Some(&k.to_string()))
                    .cloned();
                let saved = std::mem::take(&mut self.pending);
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                self.pending = saved;
                if let Some(d) = d {
                    self.used_closures.push(k);
                    let header = d.args.split_once(' ').map(|x| x.1).unwrap_or("").trim().to_string();
                    // |p: T, q: U| -> (r: V)
                    let close = header[1..].find('|').unwrap() + 1;
                    let params = &header[1..close];
                    let ret = header[close + 1..].trim();
                    let newc: ExprClosure = parse_str(&format!("|{params}| {{ }}")).unwrap();
                    if newc.inputs.len() != c.inputs.len() {
                        self.errors.push(format!("lost anchor: closure {k} arity"));
                        return;
                    }
                    let mut stmts: Vec<Stmt> = vec![];
                    let g = self.gh.add(&format!("{ret}\n{}", d.text));
                    let lit = syn::LitInt::new(&g.to_string(), proc_macro2::Span::call_site());
                    stmts.push(parse_quote!(__clo!(#lit);));
                    for (p, q) in c.inputs.iter().zip(newc.inputs.iter()) {
                        let qn = match q {
                            Pat::Type(t) => (*t.pat).clone(),
                            o => o.clone(),
                        };
                        if toks(p) != toks(&qn) {
                            stmts.extend(bind_pat(p, { let q2 = &qn; parse_quote!(#q2) }));
                        }
                    }
                    stmts.extend(self.hint_at(&format!("closure {k} start")));
                    match body {
                        Expr::Block(b) if b.attrs.is_empty() && b.label.is_none() => stmts.extend(b.block.stmts),
                        e => stmts.push(Stmt::Expr(e, None)),
                    }
                    c.inputs = newc.inputs;
                    c.body = Box::new(parse_quote!({ #(#stmts)* }));
                    c.output = ReturnType::Default;
                    c.capture = None;
                } else {
                    c.body = Box::new(body);
                }
                return;
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                if let Some(x) = self.do_macro(&mac) {
                    *e = x;
                }
                return;
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (is_str(&b.left) || is_str(&b.right)) => {
                let ne = matches!(b.op, BinOp::Ne(_));
                let (mut x, l) = if is_str(&b.right) { ((*b.left).clone(), (*b.right).clone()) } else { ((*b.right).clone(), (*b.left).clone()) };
                self.visit_expr_mut(&mut x);
                *e = if ne { parse_quote!(!str_is(#x, #l)) } else { parse_quote!(str_is(#x, #l)) };
                return;
            }
            Expr::Match(m) if m.arms.iter().any(|a| str_pat(&a.pat).is_some()) => {
                // a match on string literals becomes the chain of comparisons it abbreviates
                let k = self.strmatch;
                self.strmatch += 1;
                let s = format_ident!("str{}", k);
                let mut chain: Option<Expr> = None;
                let mut ok = true;
                for a in m.arms.iter().rev() {
                    let body = &a.body;
                    if a.guard.is_some() {
                        ok = false;
                    }
                    chain = Some(match (str_pat(&a.pat), &a.pat, chain) {
                        (Some(ls), _, Some(rest)) => parse_quote!(if #(str_is(#s, #ls))||* { #body } else { #rest }),
                        (None, Pat::Wild(_), None) => parse_quote!({ #body }),
                        (None, Pat::Ident(i), None) => { let i = &i.ident; parse_quote!({ let #i = #s; #body }) }
                        (_, _, c) => { ok = false; c.unwrap_or(parse_quote!(())) }
                    });
                }
                match chain {
                    Some(c) if ok => {
                        let x = &m.expr;
                        let mut n: Expr = parse_quote!({ let #s = #x; #c });
                        self.visit_expr_mut(&mut n);
                        *e = n;
                    }
                    _ => self.errors.push("unsupported match on strings".into()),
                }
                return;
            }
            Expr::MethodCall(mc) if mc.method == "contains" && mc.args.len() == 1 && incl_range(&mc.receiver).is_some() => {
                let (mut a, mut b) = incl_range(&mc.receiver).unwrap();
                let mut x = mc.args[0].clone();
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                self.visit_expr_mut(&mut x);
                *e = parse_quote!((#x).in_incl(#a, #b));
                return;
            }
            Expr::MethodCall(mc) if count_idiom(mc).is_some() => {
                // M.entry(K).and_modify(|v| *v += A).or_insert(B)
                let (mut m, mut k, mut a, mut b) = count_idiom(mc).unwrap();
                for x in [&mut m, &mut k, &mut a, &mut b] {
                    self.visit_expr_mut(x);
                }
                *e = parse_quote!(#m.v_count(#k, #a, #b));
                let k = *self.calls.get("v_count").unwrap_or(&0);
                self.calls.insert("v_count".into(), k + 1);
                self.event(&format!("call v_count {k}"));
                return;
            }
            Expr::MethodCall(mc) => {
                // `self.m()` where m is a method of the type self dereferences to
                if let (true, Some(t)) = (toks(&mc.receiver) == "self", &self.self_ty) {
                    let has = |t: &str| INHERENT.with(|x| x.borrow().contains(&format!("{t}::{}", mc.method)));
                    if let Some(u) = DEREFS.with(|d| d.borrow().get(t).cloned()) {
                        if !has(t) && has(&u) {
                            mc.receiver = parse_quote!(self.deref());
                        }
                    }
                }
                let name = mc.method.to_string();
                self.visit_expr_mut(&mut mc.receiver);
                for a in mc.args.iter_mut() {
                    if let Expr::Path(p) = a {
                        let s = &p.path.segments;
                        if p.qself.is_none() && s.len() >= 2 && s[s.len() - 1].ident == "from" {
                            let t = s[s.len() - 2].ident.clone();
                            *a = parse_quote!(<#t as VFrom<_>>::from);
                            continue;
                        }
                    }
                    self.visit_expr_mut(a);
                }
                if let Some(t) = mc.turbofish.as_mut() {
                    self.visit_angle_bracketed_generic_arguments_mut(t);
                }
                let k = *self.calls.get(&name).unwrap_or(&0);
                self.calls.insert(name.clone(), k + 1);
                self.event(&format!("call {name} {k}"));
                coerce_slices(&name, &mut mc.args);
                let keep = self.sec.all("keep").any(|d| d.args == name || d.args == format!("{name} {k}"));
                if !keep {
                    for (f, n, t) in METHOD_RENAMES {
                        if name == *f && mc.args.len() == *n {
                            mc.method = format_ident!("{}", t);
                        }
                    }
                }
                return;
            }
            Expr::Call(c) if toks(&c.func) == "Default::default" && c.args.is_empty() => {
                *e = parse_quote!(VDefault::v_default());
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let name = p.path.segments.last().unwrap().ident.to_string();
                    for a in c.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    self.visit_expr_mut(&mut c.func);
                    let k = *self.calls.get(&name).unwrap_or(&0);
                    self.calls.insert(name.clone(), k + 1);
                    self.event(&format!("call {name} {k}"));
                    coerce_slices(&name, &mut c.args);
                    return;
                }
            }
            Expr::Cast(c) if toks(&c.ty) == "f32" => {
                self.visit_expr_mut(&mut c.expr);
                let x = &c.expr;
                *e = parse_quote!((#x).v_f32());
                return;
            }
            Expr::Cast(c) if float_call(&c.expr) => {
                self.visit_expr_mut(&mut c.expr);
                let x = &c.expr;
                let f = format_ident!("v_to_{}", toks(&c.ty));
                *e = parse_quote!(#x.#f());
                return;
            }
            Expr::Lit(l) => {
                if let Lit::Float(f) = &l.lit {
                    if f.suffix() != "f64" {
                        if let Some((p, q)) = decimal(f.base10_digits()) {
                            let (p, q) = (LitInt::new(&p.to_string(), f.span()), LitInt::new(&q.to_string(), f.span()));
                            *e = parse_quote!(f32_lit(#p, #q));
                        }
                    } else {
                        *e = parse_quote!(f64_any());
                    }
                }
                return;
            }
            Expr::Path(p) => {
                if toks(&p.path) == "f32::EPSILON" {
                    *e = parse_quote!(f32_epsilon());
                    return;
                }
                if p.path.is_ident("EMPTY") {
                    *e = parse_quote!(None);
                    return;
                }
                flatten_path(&mut p.path);
                if let Some(id) = p.path.get_ident() {
                    if STATICS.with(|s| s.borrow().contains(&id.to_string())) {
                        let f = format_ident!("static_{}", id);
                        *e = parse_quote!(#f());
                    }
                    return;
                }
            }
            Expr::Reference(r) => {
                if let Expr::Index(ix) = &*r.expr {
                    if matches!(&*ix.index, Expr::Range(_)) && r.mutability.is_none() {
                        let mut inner = (*r.expr).clone();
                        self.visit_expr_mut(&mut inner);
                        *e = inner;
                        return;
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = &*ix.index {
                    let mut x = (*ix.expr).clone();
                    self.visit_expr_mut(&mut x);
                    if let (None, Some(hi)) = (&r.start, &r.end) {
                        let mut hi = (**hi).clone();
                        self.visit_expr_mut(&mut hi);
                        *e = parse_quote!(v_prefix(#x.as_slice(), #hi));
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(_) = e {
            let k = *self.calls.get("return").unwrap_or(&0);
            self.calls.insert("return".into(), k + 1);
            self.event(&format!("return {k}"));
        }
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if i.ident == "EMPTY" {
                *p = parse_quote!(None);
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Some(r) = { let s = toks(t); self.try_subst(&s) } {
            if let Ok(x) = parse_str::<Type>(&r) {
                *t = x;
                return;
            }
        }
        rewrite_type(t);
    }

    fn visit_path_mut(&mut self, p: &mut Path) {
        flatten_path(p);
        visit_mut::visit_path_mut(self, p);
    }
}

fn is_str(e: &Expr) -> bool {
    matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)))
}

/// "a" | "b" as a pattern
fn str_pat(p: &Pat) -> Option<Vec<Expr>> {
    match p {
        Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => { let l = &l.lit; Some(vec![parse_quote!(#l)]) }
        Pat::Or(o) => {
            let mut v = vec![];
            for c in &o.cases {
                v.extend(str_pat(c)?);
            }
            Some(v)
        }
        Pat::Paren(p) => str_pat(&p.pat),
        _ => None,
    }
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

fn incl_range(e: &Expr) -> Option<(Expr, Expr)> {
    match unparen(e) {
        Expr::Range(r) if matches!(r.limits, RangeLimits::Closed(_)) => Some(((**r.start.as_ref()?).clone(), (**r.end.as_ref()?).clone())),
        _ => None,
    }
}

fn count_idiom(oi: &ExprMethodCall) -> Option<(Expr, Expr, Expr, Expr)> {
    if oi.method != "or_insert" || oi.args.len() != 1 {
        return None;
    }
    let am = match &*oi.receiver { Expr::MethodCall(m) if m.method == "and_modify" && m.args.len() == 1 => m, _ => return None };
    let en = match &*am.receiver { Expr::MethodCall(m) if m.method == "entry" && m.args.len() == 1 => m, _ => return None };
    let c = match &am.args[0] { Expr::Closure(c) if c.inputs.len() == 1 => c, _ => return None };
    let v = match &c.inputs[0] { Pat::Ident(i) => i.ident.to_string(), _ => return None };
    let body = match &*c.body { Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(e, _) => e, _ => return None }, x => x };
    let b = match unparen(body) { Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && toks(&b.left) == format!("*{v}") => b, _ => return None };
    Some(((*en.receiver).clone(), en.args[0].clone(), (*b.right).clone(), oi.args[0].clone()))
}

fn m_tail(e: &Expr) -> bool {
    // vpanic() has type `!`-like generic result: keep as the tail value
    if let Expr::Call(c) = e {
        let t = toks(&c.func);
        return t == "vpanic" || t == "vstring" || t == "vec_rep" || t == "vpanic_reject";
    }
    matches!(e, Expr::Match(_))
}

/// crate::a::b::X / super::X / std::a::X  ==>  X   (the output is one flat module)
pub fn flatten_path(p: &mut Path) {
    let first = match p.segments.first() {
        Some(s) => s.ident.to_string(),
        None => return,
    };
    if p.segments.len() > 1 && first == "sgf_parser" {
        // the dependency's items, under names of their own
        let mut segs: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(1).cloned().collect();
        let id = segs[0].ident.to_string();
        segs[0].ident = match id.as_str() {
            "Color" | "Game" => format_ident!("Sgf{}", id),
            "parse" => format_ident!("sgf_parse"),
            _ => format_ident!("{}", id),
        };
        p.segments = segs;
        p.leading_colon = None;
        return;
    }
    if p.segments.len() > 1 && ["crate", "super", "std", "core"].contains(&first.as_str()) {
        let keep_from = p
            .segments
            .iter()
            .position(|s| s.ident.to_string().chars().next().unwrap().is_uppercase())
            .unwrap_or(p.segments.len() - 1);
        let segs: punctuated::Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(keep_from).cloned().collect();
        p.segments = segs;
        p.leading_colon = None;
    }
}

/// `impl Iterator<Item = T> + 'a` in return position ==> It<T>; strips nothing else.
pub fn rewrite_type(t: &mut Type) {
    struct V;
    impl VisitMut for V {
        fn visit_type_mut(&mut self, t: &mut Type) {
            if let Type::ImplTrait(it) = t {
                for b in &it.bounds {
                    if let TypeParamBound::Trait(tb) = b {
                        let seg = tb.path.segments.last().unwrap();
                        if seg.ident == "Iterator" {
                            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                                for g in &a.args {
                                    if let GenericArgument::AssocType(at) = g {
                                        let ty = at.ty.clone();
                                        *t = parse_quote!(It<#ty>);
                                        break;
                                    }
                                }
                            }
                            break;
                        }
                    }
                }
            }
            if toks(t) == "f32" {
                *t = parse_quote!(F32);
                return;
            }
            visit_mut::visit_type_mut(self, t);
        }
        fn visit_path_mut(&mut self, p: &mut Path) {
            flatten_path(p);
            visit_mut::visit_path_mut(self, p);
        }
    }
    V.visit_type_mut(t);
}

/// A call that only floats have.
fn float_call(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => float_call(&p.expr),
        Expr::MethodCall(m) => ["sqrt", "floor", "ceil", "round", "trunc"].contains(&m.method.to_string().as_str()),
        _ => false,
    }
}

/// 6.5 ==> (65, 10)
fn decimal(s: &str) -> Option<(u64, u64)> {
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    let b = b.trim_end_matches('0');
    let p: u64 = format!("{a}{b}").parse().ok()?;
    Some((p, 10u64.checked_pow(b.len() as u32)?))
}

/// The shape of a function, used to tell an edit of a value from an edit of the structure.
pub fn shape(body: &Block) -> Shape {
    #[derive(Default)]
    struct V(Shape);
    impl<'ast> visit::Visit<'ast> for V {
        fn visit_expr(&mut self, e: &'ast Expr) {
            match e {
                Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => self.0.loops += 1,
                Expr::Closure(_) => self.0.closures += 1,
                Expr::If(_) | Expr::Match(_) => self.0.branches += 1,
                Expr::Return(_) | Expr::Try(_) | Expr::Break(_) | Expr::Continue(_) => self.0.exits += 1,
                Expr::MethodCall(m) => self.0.calls.push(m.method.to_string()),
                Expr::Call(c) => self.0.calls.push(toks(&c.func)),
                _ => {}
            }
            visit::visit_expr(self, e);
        }
        fn visit_macro(&mut self, m: &'ast Macro) {
            self.0.asserts += 1;
            self.0.calls.push(format!("{}!", toks(&m.path)));
        }
        fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
            self.0.bindings.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V::default();
    visit::Visit::visit_block(&mut v, body);
    v.0
}
