//! Mechanical extraction of /repo/src into a Verus crate.
//!
//! usage: vx <repo/src dir> <spec dir> <out dir> [--stub KEY]...
//!
//! The text of every function is kept verbatim except for the edits listed in
//! DESIGN.md ("What the extraction drops and rewrites"); contracts, loop
//! invariants and proof hints are inserted at byte offsets obtained from a
//! `syn` parse.
mod bits;
mod fmtx;
mod inline;
mod spec;

use spec::{FnSpec, Specs};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;
use syn::visit::Visit;

#[derive(Clone, Debug)]
pub struct Edit {
    start: usize,
    end: usize,
    text: String,
    seq: usize,
}

#[derive(Default)]
pub struct Edits {
    v: Vec<Edit>,
}

impl Edits {
    pub fn insert(&mut self, at: usize, text: impl Into<String>) {
        self.replace(at, at, text)
    }
    pub fn replace(&mut self, start: usize, end: usize, text: impl Into<String>) {
        let seq = self.v.len();
        self.v.push(Edit { start, end, text: text.into(), seq });
    }
    pub fn delete(&mut self, start: usize, end: usize) {
        self.replace(start, end, "")
    }
    /// The text of a range with the edits inside it applied.
    pub fn apply_range(&self, src: &str, start: usize, end: usize) -> String {
        let v = self.v.iter().filter(|e| e.start >= start && e.end <= end)
            .map(|e| Edit { start: e.start - start, end: e.end - start, text: e.text.clone(), seq: e.seq }).collect();
        Edits { v }.apply(&src[start..end])
    }
    /// Apply the edits; an edit strictly inside a replaced range is dropped.
    pub fn apply(&self, src: &str) -> String {
        let mut v = self.v.clone();
        // Larger replacement first at the same start; insertions before replacements.
        v.sort_by_key(|e| (e.start, e.start != e.end, e.seq));
        let mut out = String::new();
        let mut pos = 0;
        for e in &v {
            if e.start < pos {
                continue;
            }
            out.push_str(&src[pos..e.start]);
            out.push_str(&e.text);
            pos = e.end.max(e.start);
        }
        out.push_str(&src[pos..]);
        out
    }
}

pub fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

pub fn norm(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join("")
}

pub fn tok<T: quote::ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}

/// Information gathered about each extracted function.
#[derive(Default, Clone)]
pub struct FnInfo {
    key: String,
    full_key: String,
    file: String,
    status: String,
    loops: usize,
    lost: Vec<String>,
    skeleton: String,
    hash: String,
    /// A loop of this function has no measure for its termination.
    nodec: bool,
    props: Vec<String>,
    rewrites: Vec<String>,
}

pub struct Ctx {
    specs: Specs,
    stubs: BTreeSet<String>,
    /// Assert `false` on entry to every verified function.
    canary: bool,
    infos: Vec<FnInfo>,
    used_specs: BTreeSet<String>,
    result_iter_body: Option<(String, String, String)>,
    own_iters: BTreeSet<String>,
    lifted: Vec<(String, String, String)>,
}

fn has_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && {
            let t = tok(&a.meta);
            t.contains("(test") || t.contains(",test") || t.contains("not(unix)")
                || t.contains("not(feature=\"std\")")
        }
    })
}

const DROP_TRAITS: &[&str] = &[
    "Debug", "Display", "Error", "Hash", "Ord",
];
const DROP_DERIVES: &[&str] = &["Debug", "Hash", "Ord", "PartialOrd", "Default"];

/// Text-level macro expansion done before parsing.
fn preprocess(cx: &Ctx, src: &str, modpath: &str) -> String {
    let file = match syn::parse_file(src) {
        Ok(f) => f,
        Err(_) => return src.to_string(),
    };
    let mut ed = Edits::default();
    for item in &file.items {
        if let syn::Item::Impl(im) = item {
            if let Some((_, tr, _)) = &im.trait_ {
                let k = match tr.segments.last().unwrap().ident.to_string().as_str() {
                    "Debug" => "vx_debug",
                    "Display" => "vx_display",
                    _ => continue,
                };
                if cx.specs.get(&format!("{modpath}::{}::{k}", self_ty_name(&im.self_ty))).is_some() {
                    fmtx::impl_fmt(src, &mut ed, im);
                }
            }
        }
        if let syn::Item::Fn(f) = item {
            fmtx::free_fn(src, &mut ed, f);
        }
        if let syn::Item::Macro(m) = item {
            let name = tok(&m.mac.path);
            let (s, e) = rng(m);
            if name == "bitflags" {
                ed.replace(s, e, bits::expand(&m.mac.tokens));
            } else if name == "macro_rules" {
                ed.delete(s, e);
            } else if name == "impl_result_iter" {
                if let Some((p0, p1, body)) = &cx.result_iter_body {
                    let args: Vec<String> =
                        m.mac.tokens.to_string().split(',').map(|x| x.trim().to_string()).collect();
                    if args.len() == 2 {
                        let b = body
                            .replace(&format!("${p0}"), &args[0])
                            .replace(&format!("${p1}"), &args[1])
                            .replace("$crate", "crate");
                        ed.replace(s, e, b);
                    }
                }
            }
        }
    }
    ed.apply(src)
}

/// Find the definition of `impl_result_iter!` and return (param0, param1, body text).
fn find_result_iter(src: &str) -> Option<(String, String, String)> {
    let file = syn::parse_file(src).ok()?;
    for item in &file.items {
        if let syn::Item::Macro(m) = item {
            if tok(&m.mac.path) == "macro_rules"
                && m.ident.as_ref().map(|i| i == "impl_result_iter").unwrap_or(false)
            {
                let groups: Vec<proc_macro2::Group> = m
                    .mac
                    .tokens
                    .clone()
                    .into_iter()
                    .filter_map(|t| if let proc_macro2::TokenTree::Group(g) = t { Some(g) } else { None })
                    .collect();
                if groups.len() != 2 {
                    return None;
                }
                let params: Vec<String> = tok(&groups[0].stream())
                    .split(',')
                    .map(|p| p.split(':').next().unwrap().trim_start_matches('$').to_string())
                    .collect();
                let r = groups[1].span().byte_range();
                let body = &src[r.start + 1..r.end - 1];
                return Some((params[0].clone(), params.get(1)?.clone(), body.to_string()));
            }
        }
    }
    None
}

fn self_ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => self_ty_name(&r.elem),
        _ => tok(t),
    }
}

/// Counts of `* / % << >> & | ^`.
struct HardOps([usize; 8]);
impl<'a> syn::visit::Visit<'a> for HardOps {
    fn visit_bin_op(&mut self, o: &'a syn::BinOp) {
        use syn::BinOp::*;
        let k = match o {
            Mul(_) | MulAssign(_) => 0,
            Div(_) | DivAssign(_) => 1,
            Rem(_) | RemAssign(_) => 2,
            Shl(_) | ShlAssign(_) => 3,
            Shr(_) | ShrAssign(_) => 4,
            BitAnd(_) | BitAndAssign(_) => 5,
            BitOr(_) | BitOrAssign(_) => 6,
            BitXor(_) | BitXorAssign(_) => 7,
            _ => return,
        };
        self.0[k] += 1;
    }
}

/// Loop finder (preorder), including loops in closures, not nested fns.
struct Loops<'a> {
    v: Vec<&'a syn::Expr>,
}
impl<'a> Visit<'a> for Loops<'a> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        match e {
            syn::Expr::While(_) | syn::Expr::Loop(_) | syn::Expr::ForLoop(_) => self.v.push(e),
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
}

struct Stmts<'a> {
    v: Vec<&'a syn::Stmt>,
}
impl<'a> Visit<'a> for Stmts<'a> {
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        self.v.push(s);
        syn::visit::visit_stmt(self, s);
    }
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
}

/// Generic rewrites applied inside every function body.
struct BodyRewrites<'a> {
    src: &'a str,
    ed: &'a mut Edits,
    notes: Vec<String>,
    calls: BTreeSet<String>,
    nested: Vec<(String, usize, usize)>,
    closures: usize,
    closure_heads: BTreeMap<usize, String>,
    wrapping: bool,
}

impl<'a, 'b> Visit<'b> for BodyRewrites<'a> {
    fn visit_item_fn(&mut self, f: &'b syn::ItemFn) {
        let (s, e) = rng(f);
        self.nested.push((f.sig.ident.to_string(), s, e));
    }
    fn visit_expr_lit(&mut self, l: &'b syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &l.lit {
            let (s, e) = rng(l);
            let v: Vec<String> = b.value().iter().map(|x| format!("{x}u8")).collect();
            self.ed.replace(s, e, format!("(&[{}])", v.join(", ")));
            self.notes.push("byte string -> array".into());
        }
    }
    fn visit_expr_closure(&mut self, c: &'b syn::ExprClosure) {
        let idx = self.closures;
        self.closures += 1;
        let mut deref = String::new();
        for p in &c.inputs {
            if let syn::Pat::Wild(w) = p {
                let (s, e) = rng(w);
                self.ed.replace(s, e, "_vx_ignored");
            }
            if let syn::Pat::Reference(r) = p {
                // |&i| body  ->  |vx_i| { let i = *vx_i; body }
                let id = tok(&r.pat);
                let (s, e) = rng(r);
                self.ed.replace(s, e, format!("vx_{id}"));
                deref.push_str(&format!("let {id} = *vx_{id}; "));
            }
        }
        // |_| Enum::Variant(..)  ->  contract from the body
        if !self.closure_heads.contains_key(&idx) {
            let mut body = &*c.body;
            if let syn::Expr::Block(b) = body {
                if let [syn::Stmt::Expr(x, None)] = &b.block.stmts[..] {
                    body = x;
                }
            }
            let t = match body {
                syn::Expr::Path(p) => Some(&p.path),
                syn::Expr::Struct(p) if p.rest.is_none() => Some(&p.path),
                syn::Expr::Call(k) => match &*k.func {
                    syn::Expr::Path(p) => Some(&p.path),
                    _ => None,
                },
                _ => None,
            };
            if let Some(p) = t {
                if p.segments.len() == 2
                    && p.segments.iter().all(|s| s.ident.to_string().starts_with(|c: char| c.is_uppercase()))
                    && p.segments[0].ident != "Self" && p.segments[0].ident != "Box"
                {
                    let (bs, be) = rng(&*c.body);
                    let b = { let (x, y) = rng(body); &self.src[x..y] };
                    let ty = p.segments[0].ident.to_string();
                    self.ed.insert(bs, format!("-> (vx_r: {ty}) ensures vx_r == ({b}) {{ "));
                    self.ed.insert(be, " }");
                    self.notes.push("closure building a value -> contract stated from its body".into());
                }
            }
        }
        if !deref.is_empty() && !self.closure_heads.contains_key(&idx) {
            let (bs, be) = rng(&*c.body);
            self.ed.insert(bs, format!("{{ {deref}"));
            self.ed.insert(be, " }");
        }
        if let Some(h) = self.closure_heads.get(&idx) {
            let (cs, _) = rng(c);
            let (bs, be) = rng(&*c.body);
            let mv = if c.capture.is_some() && !h.trim_start().starts_with("move") { "move " } else { "" };
            self.ed.replace(cs, bs, format!("{mv}{} ", h.trim()));
            if !matches!(&*c.body, syn::Expr::Block(_)) || !deref.is_empty() {
                self.ed.insert(bs, format!("{{ {deref}"));
                self.ed.insert(be, " }");
            }
        }
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_binary(&mut self, b: &'b syn::ExprBinary) {
        let f = match &b.op {
            syn::BinOp::Div(o) => Some(("vx_div", rng(o))),
            syn::BinOp::Rem(o) => Some(("vx_rem", rng(o))),
            _ => None,
        };
        if self.wrapping {
            if let syn::BinOp::AddAssign(o) = &b.op {
                let (ls, le) = rng(&*b.left);
                let (os, oe) = rng(o);
                let (_, re) = rng(&*b.right);
                let l = self.src[ls..le].to_string();
                self.ed.replace(os, oe, format!("= ({l}) + ("));
                self.ed.insert(re, ")");
                self.notes.push("`a += b` -> `a = (a) + (b)`".into());
            }
        }
        if let Some((name, (os, oe))) = f {
            if !matches!(&*b.right, syn::Expr::Lit(_)) {
                let (ls, le) = rng(&*b.left);
                let (rs, re) = rng(&*b.right);
                let _ = (le, rs);
                self.ed.insert(ls, format!("crate::vx::VxDiv::{name}("));
                self.ed.replace(os, oe, ",");
                self.ed.insert(re, ")");
                self.notes.push("`/`, `%` -> VxDiv (same semantics, panics required unreachable)".into());
            }
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
        self.calls.insert(format!(".{}", m.method));
        let name = m.method.to_string();
        let (ms, me) = rng(&m.method);
        if name == "try_into"
            || name == "to_le_bytes"
            || name == "to_be_bytes"
        {
            self.ed.replace(ms, me, format!("vx_{name}"));
            self.notes.push(format!(".{name}() -> .vx_{name}()"));
        }
        if name == "map_err" && m.args.len() == 1 {
            if let syn::Expr::Path(p) = &m.args[0] {
                let t = tok(p);
                if t.starts_with("Ext4Error::") {
                    let (a, b) = rng(p);
                    self.ed.replace(a, b, format!("|vx_e: crate::vx::BoxedError| -> (vx_r: Ext4Error) ensures vx_r == {t}(vx_e) {{ {t}(vx_e) }}"));
                    self.notes.push(format!("constructor `{t}` as a function -> closure"));
                }
            }
        }
        // (a..b).m(..) -> VxRange { lo: a, hi: b }.m(..)
        if let syn::Expr::Paren(pr) = &*m.receiver {
            if let syn::Expr::Range(r) = &*pr.expr {
                if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                    let (ps, pe) = rng(pr);
                    let (ls, le) = rng(&**lo);
                    let (hs, he) = rng(&**hi);
                    let incl = matches!(r.limits, syn::RangeLimits::Closed(_));
                    self.ed.replace(ps, ls, if incl { "crate::vx::vx_range_incl(" } else { "crate::vx::vx_range(" });
                    self.ed.replace(le, hs, ", ");
                    self.ed.replace(he, pe, ")");
                    self.notes.push("range adaptor -> VxRange".into());
                }
            }
        }
        if matches!(name.as_str(), "chunks" | "split" | "drain" | "splice" | "extend" | "get_mut_vx") {
            self.ed.replace(ms, me, format!("vx_{name}"));
            self.notes.push(format!(".{name}() -> .vx_{name}()"));
        }
        if matches!(name.as_str(), "position" | "any" | "all" | "find" | "cloned" | "skip" | "copied") {
            if let syn::Expr::MethodCall(inner) = &*m.receiver {
                if inner.method == "iter" {
                    let (a, b) = rng(&inner.method);
                    self.ed.replace(a, b, "vx_iter");
                    self.notes.push(format!(".iter().{name}() -> .vx_iter().{name}()"));
                }
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        let f = tok(&c.func);
        self.calls.insert(f.clone());
        // u32::from_le_bytes(x) etc: Verus cannot name these (const-generic length).
        for t in ["u16", "u32", "u64"] {
            for d in ["le", "be"] {
                if f == format!("{t}::from_{d}_bytes") {
                    let (s, e) = rng(&*c.func);
                    self.ed.replace(s, e, format!("crate::vx::{t}_from_{d}_bytes"));
                    self.notes.push(format!("{f} -> trusted wrapper"));
                }
            }
        }
        // u32::try_from(x): same semantics, usable contract for every integer pair.
        for t in ["u8", "u16", "u32", "u64", "usize", "i32", "i64"] {
            if f == format!("{t}::try_from") {
                let (s, e) = rng(&*c.func);
                self.ed.replace(s, e, format!("crate::vx::VxTryInto::<{t}>::vx_try_into"));
                self.notes.push(format!("{f} -> trusted wrapper"));
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        let name = tok(&m.path);
        let (s, e) = rng(m);
        self.calls.insert(format!("{name}!"));
        if name == "assert_eq" {
            // assert_eq!(a, b) -> assert!(a == b)
            if let Ok(args) = m.parse_body_with(
                syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            ) {
                if args.len() >= 2 {
                    let (a0, a1) = rng(&args[0]);
                    let (b0, b1) = rng(&args[1]);
                    self.ed.replace(
                        s,
                        e,
                        format!("assert!(({}) == ({}))", &self.src[a0..a1], &self.src[b0..b1]),
                    );
                    self.notes.push("assert_eq! -> assert!(==)".into());
                }
            }
        } else if name == "todo" || name == "unimplemented" {
            self.ed.replace(s, e, "crate::vx::vx_panic()");
            self.notes.push("todo! -> panic with requires false".into());
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn process_fn(
    cx: &mut Ctx,
    src: &str,
    ed: &mut Edits,
    file: &str,
    key: String,
    full_key: String,
    attrs: &[syn::Attribute],
    sig: &syn::Signature,
    block: &syn::Block,
    whole: (usize, usize),
    make_pub: bool,
    prefix_for_hoist: &str,
) {
    let mut info = FnInfo {
        key: key.clone(),
        full_key: full_key.clone(),
        file: file.to_string(),
        ..Default::default()
    };
    let spec: FnSpec = match cx.specs.get(&full_key).or_else(|| cx.specs.get(&key)) {
        Some(s) => {
            cx.used_specs.insert(s.key.clone());
            s.clone()
        }
        None => FnSpec::default(),
    };
    if spec.remove {
        ed.delete(whole.0, whole.1);
        info.status = "removed".into();
        cx.infos.push(info);
        return;
    }
    let has_spec = !spec.key.is_empty();
    info.props = spec.props.clone();
    let stub = cx.stubs.contains(&key) || cx.stubs.contains(&full_key);
    let external = spec.external || stub;
    for a in attrs {
        let (s, e) = rng(a);
        if !a.path().is_ident("allow") {
            ed.delete(s, e);
        }
    }
    let mut pre = String::new();
    for a in &spec.attrs {
        pre.push_str(a);
        pre.push('\n');
    }
    if external {
        pre.push_str("#[verifier::external_body]\n");
    }
    let sig_start = rng(sig).0;
    let vis_insert = if make_pub { "pub(crate) " } else { "" };
    // attributes go before visibility: find start of item after attributes
    let item_start = attrs.iter().map(|a| rng(a).1).max().unwrap_or(whole.0);
    ed.insert(item_start, format!("\n/*VXB {full_key}*/\n{pre}"));
    ed.insert(whole.1, format!("/*VXE {full_key}*/"));
    if make_pub {
        ed.insert(sig_start, vis_insert);
    }
    // const fn -> fn
    if let Some(c) = &sig.constness {
        if !spec.keep_const {
            let (s, e) = rng(c);
            ed.delete(s, e);
        }
    }
    // `x: impl Trait` -> named type parameter
    let mut anon = Vec::new();
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            if let syn::Type::ImplTrait(it) = &*t.ty {
                let n = format!("VxT{}", anon.len());
                let (s, e) = rng(it);
                let b = rng(&it.bounds);
                anon.push(format!("{n}: {}", &src[b.0..b.1]));
                ed.replace(s, e, n);
            }
        }
    }
    if !anon.is_empty() {
        if let Some(last) = sig.generics.params.last() {
            ed.insert(rng(last).1, format!(", {}", anon.join(", ")));
        } else {
            ed.insert(rng(&sig.ident).1, format!("<{}>", anon.join(", ")));
        }
    }
    // named return value
    if let (Some(r), syn::ReturnType::Type(_, ty)) = (&spec.ret, &sig.output) {
        let (s, e) = rng(&**ty);
        ed.insert(s, format!("({r}: "));
        // text end: an insertion directly after
        ed.insert(e, ")");
    }
    let (bs, be) = rng(block);
    if !spec.contract.is_empty() {
        ed.insert(bs, format!("\n{}\n", spec.contract));
    } else if !has_spec {
        // function without a specification: still verified for safety
    }
    let mut lp = Loops { v: vec![] };
    lp.visit_block(block);
    info.loops = lp.v.len();
    if external {
        info.status = if stub { "stubbed".into() } else { "external".into() };
    } else {
        info.status = if has_spec { "verified".into() } else { "safety-only".into() };
    }
    // `P: TryInto<X>` bounds
    {
        struct TB(Vec<(usize, usize)>);
        impl<'a> syn::visit::Visit<'a> for TB {
            fn visit_trait_bound(&mut self, b: &'a syn::TraitBound) {
                if let Some(l) = b.path.segments.last() {
                    if l.ident == "TryInto" {
                        let st = rng(&b.path).0;
                        self.0.push((st, rng(&l.ident).1));
                    }
                }
            }
        }
        let mut tb = TB(vec![]);
        tb.visit_generics(&sig.generics);
        for (a, b) in tb.0 {
            ed.replace(a, b, "crate::vx::VxTryInto");
        }
    }
    // body rewrites
    let mut br = BodyRewrites { src, ed, notes: vec![], calls: Default::default(), nested: vec![],
        closures: 0,
        closure_heads: if external { Default::default() } else { spec.closures.clone() },
        wrapping: src.contains("num::Wrapping"),
    };
    br.visit_block(block);
    for k in br.closure_heads.keys() {
        if *k >= br.closures {
            info.lost.push(format!("closure {k}"));
        }
    }
    let notes = br.notes;
    let closures = br.closures;
    let calls = br.calls;
    let nested = br.nested;
    info.rewrites = notes;
    if calls.iter().any(|c| c.contains("vx_unmodelled_fmt")) {
        info.lost.push("format string".into());
    }
    for (i, l) in lp.v.iter().enumerate() {
        let inv = spec.loops.get(&i).cloned().unwrap_or_default();
        let native = matches!(l, syn::Expr::ForLoop(f) if matches!(&*f.expr, syn::Expr::Range(r)
                    if matches!(r.limits, syn::RangeLimits::HalfOpen(_)))
                    && spec.for_desugar.get(&i).is_none());
        if !native && !inv.contains("decreases") && !spec.attrs.iter().any(|a| a.contains("no_decreases")) {
            info.nodec = true;
        }
    }
    let mut kinds = String::new();
    for l in &lp.v {
        kinds.push(match l {
            syn::Expr::While(_) => 'W',
            syn::Expr::Loop(_) => 'L',
            _ => 'F',
        });
    }
    // Multiplication, division and bit operators: what the solver may not see through.
    let mut hard = HardOps([0; 8]);
    hard.visit_block(block);
    let hard = hard.0.map(|n| n.to_string()).join(".");
    info.skeleton = format!("{kinds}|{closures}|{hard}|{}", calls.iter().cloned().collect::<Vec<_>>().join(","));
    info.hash = fnv(&tok(block));

    if external {
        // Stubs still need to compile: keep the body as is unless told otherwise.
        if stub || spec.stub_body {
            ed.replace(bs, be, "{ unimplemented!() }");
        }
        for (_, s, e) in &nested {
            let _ = (s, e);
        }
        if !spec.hoist {
            cx.infos.push(info);
            return;
        }
    }

    // nested fns are hoisted to module level
    if spec.hoist || !nested.is_empty() && !external {
        hoist(cx, src, ed, file, &key, prefix_for_hoist, block, &spec);
        if external {
            cx.infos.push(info);
            return;
        }
    }

    // loops
    for (i, l) in lp.v.iter().enumerate() {
        let inv = spec.loops.get(&i).cloned().unwrap_or_default();
        let lstart = spec.loop_start.get(&i).cloned().unwrap_or_default();
        let lend = spec.loop_end.get(&i).cloned().unwrap_or_default();
        let lbefore = spec.loop_before.get(&i).cloned().unwrap_or_default();
        let (ls, le) = rng(*l);
        match l {
            syn::Expr::While(w) => {
                let (s, e) = rng(&w.body);
                let is_let = matches!(&*w.cond, syn::Expr::Let(_));
                if is_let || spec.desugar_while.contains(&i) {
                    // while let P = E B  ->  loop { if let P = E B else { break } }
                    let (cs, ce) = rng(&*w.cond);
                    let ws = rng(&w.while_token).0;
                    ed.insert(ls, lbefore);
                    ed.replace(ws, cs, format!("loop\n{inv}\n{{ {lstart}\n if "));
                    let _ = ce;
                    ed.insert(e - 1, lend);
                    ed.insert(e, " else { break; } }");
                } else {
                    ed.insert(ls, lbefore);
                    ed.insert(s, format!("\n{inv}\n"));
                    ed.insert(s + 1, lstart);
                    ed.insert(e - 1, lend);
                }
            }
            syn::Expr::Loop(w) => {
                let (s, e) = rng(&w.body);
                ed.insert(ls, lbefore);
                ed.insert(s, format!("\n{inv}\n"));
                ed.insert(s + 1, lstart);
                ed.insert(e - 1, lend);
            }
            syn::Expr::ForLoop(f) => {
                let (s, e) = rng(&f.body);
                let (es, ee) = rng(&*f.expr);
                let (ps, pe) = rng(&*f.pat);
                let native = matches!(&*f.expr, syn::Expr::Range(r)
                    if matches!(r.limits, syn::RangeLimits::HalfOpen(_)))
                    && spec.for_desugar.get(&i).is_none();
                if native {
                    ed.insert(ls, lbefore);
                    let name = format!("vx_it{i}: ");
                    ed.insert(es, name);
                    ed.insert(s, format!("\n{inv}\n"));
                    ed.insert(s + 1, lstart);
                    ed.insert(e - 1, lend);
                } else {
                    // for P in E B -> { let mut it = E'; loop { match it.next() { None => break, Some(P) => B } } }
                    let label = f.label.as_ref().map(|l| {
                        let (a, b) = rng(l);
                        src[a..b].to_string()
                    }).unwrap_or_default();
                    let expr_text = src[es..ee].to_string();
                    let conv = match spec.for_desugar.get(&i) {
                        Some(c) if !c.trim().is_empty() => c.trim().replace("$E", &expr_text),
                        _ => match &*f.expr {
                            syn::Expr::Array(_) => format!("crate::vx::vx_val_iter(&{expr_text})"),
                            syn::Expr::MethodCall(mc) if mc.method == "rev" => {
                                let t = expr_text.trim();
                                if let (Some(a), Some(b)) = (t.find('('), t.find(").rev")) {
                                    let inner = &t[a + 1..b];
                                    if let Some((lo, hi)) = inner.split_once("..=") {
                                        format!("crate::vx::vx_range_incl({lo}, {hi}).rev()")
                                    } else if let Some((lo, hi)) = inner.split_once("..") {
                                        format!("crate::vx::vx_range({lo}, {hi}).rev()")
                                    } else { expr_text.clone() }
                                } else { expr_text.clone() }
                            }
                            syn::Expr::Reference(_) => format!("crate::vx::vx_ref_iter({expr_text})"),
                            syn::Expr::Range(r) if matches!(r.limits, syn::RangeLimits::Closed(_)) && expr_text.contains("..=") => {
                                let (lo, hi) = expr_text.split_once("..=").unwrap();
                                format!("crate::vx::vx_incl({lo}, {hi})")
                            }
                            _ => ed.apply_range(src, es, ee)
                                .replace(".split(", ".vx_split(")
                                .replace(".chunks(", ".vx_chunks("),
                        },
                    };
                    // for P in X.iter_mut()[.enumerate()]
                    let im = {
                        let t = norm(&expr_text);
                        if let Some(x) = t.strip_suffix(".iter_mut().enumerate()") { Some((x.to_string(), true)) }
                        else { t.strip_suffix(".iter_mut()").map(|x| (x.to_string(), false)) }
                    };
                    if let (Some((x, en)), None) = (im, spec.for_desugar.get(&i)) {
                        let p = &src[ps..pe];
                        let bind = if en { format!("let {p} = (vx_i{i}, &mut {x}[vx_i{i}]);") } else { format!("let {p} = &mut {x}[vx_i{i}];") };
                        ed.replace(ls, s, format!(
                            "{{ let mut vx_i{i}: usize = 0;\n{lbefore}\n{label}loop\n{inv}\n{{\n if vx_i{i} >= {x}.len() {{ break; }}\n "));
                        ed.insert(s + 1, format!("{bind} vx_i{i} = vx_i{i} + 1;\n{lstart}"));
                        ed.insert(e - 1, lend);
                        ed.insert(e, " } }");
                        info.rewrites.push("for over iter_mut() -> index loop".into());
                        continue;
                    }
                    // replace from loop start to the body by new header, keep the expr text edits out
                    let mut pat_text = src[ps..pe].to_string();
                    let mut lstart = lstart;
                    if let syn::Pat::Reference(r) = &*f.pat {
                        let id = tok(&r.pat);
                        pat_text = format!("vx_p{i}");
                        lstart = format!("let {id} = *vx_p{i};\n{lstart}");
                    }
                    ed.replace(
                        ls,
                        s,
                        format!(
                            "{{ let mut vx_it{i} = {conv};\n{lbefore}\n{label}loop\n{inv}\n{{\n let ghost vx_prev{i} = vx_it{i};\n match vx_it{i}.next() {{ None => {{ break; }}\nSome({pat_text}) => "
                        ),
                    );
                    ed.insert(s + 1, lstart);
                    ed.insert(e - 1, lend);
                    ed.insert(e, " } } }");
                    info.rewrites.push("for -> loop/match next()".into());
                }
                let _ = le;
            }
            _ => {}
        }
    }
    for i in spec.loops.keys() {
        if *i >= lp.v.len() {
            info.lost.push(format!("loop {i}"));
        }
    }
    // start / end
    if cx.canary {
        ed.insert(bs + 1, "\nassert(false);\n");
    }
    if !spec.start.is_empty() {
        ed.insert(bs + 1, format!("\n{}\n", spec.start));
    }
    if !spec.tail.is_empty() {
        // before the tail expression if any, else at the end
        match block.stmts.last() {
            Some(syn::Stmt::Expr(x, None)) if !matches!(x, syn::Expr::While(_) | syn::Expr::ForLoop(_)) => {
                let (s, _) = rng(x);
                ed.insert(s, format!("\n{}\n", spec.tail));
            }
            _ => ed.insert(be - 1, format!("\n{}\n", spec.tail)),
        }
    }
    // a local constant computed from others: a variable, so that its value is known
    for s in &block.stmts {
        if let syn::Stmt::Item(syn::Item::Const(c)) = s {
            if matches!(&*c.expr, syn::Expr::Binary(_)) {
                let (a, b) = rng(&c.const_token);
                ed.replace(a, b, "let".to_string());
            }
        }
    }
    // statement anchors
    let mut st = Stmts { v: vec![] };
    st.visit_block(block);
    let texts: Vec<(usize, usize, String)> = st
        .v
        .iter()
        .map(|s| {
            let (a, b) = rng(*s);
            (a, b, norm(&src[a..b]))
        })
        .collect();
    for ins in &spec.inserts {
        let pat = norm(&ins.pat);
        // choose the smallest statement whose text contains the pattern (starts with, when prefixed by ^)
        let mut best: Option<(usize, usize)> = None;
        for (a, b, t) in &texts {
            let hit = if let Some(p) = pat.strip_prefix('^') { t.starts_with(p) } else { t.contains(&pat) };
            if hit {
                let better = match best {
                    None => true,
                    Some((x, y)) => (b - a) < (y - x),
                };
                if better {
                    best = Some((*a, *b));
                }
            }
        }
        match best {
            Some((a, b)) => {
                if ins.after {
                    ed.insert(b, format!("\n{}\n", ins.text));
                } else {
                    ed.insert(a, format!("\n{}\n", ins.text));
                }
            }
            None => info.lost.push(format!("anchor {}", ins.pat)),
        }
    }
    // literal replacements inside the body (documented per function)
    for (a, b) in &spec.replaces {
        let body = &src[whole.0..whole.1];
        let mut found = false;
        let mut from = 0;
        while let Some(i) = find_norm(&body[from..], a) {
            let (x, y) = i;
            ed.replace(whole.0 + from + x, whole.0 + from + y, b.clone());
            info.rewrites.push(format!("`{a}` -> `{b}`"));
            from += y;
            found = true;
        }
        if !found {
            info.lost.push(format!("rewrite {a}"));
        }
    }
    cx.infos.push(info);
}

/// Find `pat` in `s` ignoring whitespace; returns the byte range in `s`.
pub fn find_norm(s: &str, pat: &str) -> Option<(usize, usize)> {
    let p: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    if p.is_empty() {
        return None;
    }
    let chars: Vec<(usize, char)> = s.char_indices().filter(|(_, c)| !c.is_whitespace()).collect();
    for i in 0..chars.len() {
        if i + p.len() > chars.len() {
            return None;
        }
        if (0..p.len()).all(|k| chars[i + k].1 == p[k]) {
            let a = chars[i].0;
            let (lb, lc) = chars[i + p.len() - 1];
            return Some((a, lb + lc.len_utf8()));
        }
    }
    None
}

fn fnv(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{h:016x}")
}

#[allow(clippy::too_many_arguments)]
fn hoist(
    cx: &mut Ctx,
    src: &str,
    ed: &mut Edits,
    file: &str,
    key: &str,
    prefix: &str,
    block: &syn::Block,
    _spec: &FnSpec,
) {
    let mut extra = String::new();
    let mut names = vec![];
    for s in &block.stmts {
        if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
            let (a, b) = rng(f);
            let new = format!("{}_{}", prefix, f.sig.ident);
            let mut sub = Edits::default();
            let nk = format!("{key}::{}", f.sig.ident);
            process_fn(
                cx, src, &mut sub, file, nk.clone(), nk, &f.attrs, &f.sig, &f.block, (a, b), false, &new,
            );
            let (ia, ib) = rng(&f.sig.ident);
            sub.replace(ia, ib, new.clone());
            sub.insert(rng(&f.sig).0, "pub ".to_string());
            // restrict to the fn text
            let mut shifted = Edits::default();
            for e in &sub.v {
                if e.start >= a && e.end <= b {
                    shifted.replace(e.start - a, e.end - a, e.text.clone());
                }
            }
            writeln!(extra, "\n{}", shifted.apply(&src[a..b]).trim_start()).unwrap();
            ed.delete(a, b);
            names.push((f.sig.ident.to_string(), new));
        }
    }
    // rename calls
    struct R<'a> {
        names: &'a [(String, String)],
        ed: &'a mut Edits,
    }
    impl<'b> Visit<'b> for R<'_> {
        fn visit_expr_path(&mut self, p: &'b syn::ExprPath) {
            if let Some(i) = p.path.get_ident() {
                if let Some((_, n)) = self.names.iter().find(|(a, _)| i == a) {
                    let (s, e) = rng(i);
                    self.ed.replace(s, e, n.clone());
                }
            }
        }
        fn visit_item_fn(&mut self, _: &'b syn::ItemFn) {}
    }
    let mut r = R { names: &names, ed };
    for s in &block.stmts {
        r.visit_stmt(s);
    }
    cx.specs.hoisted.entry(file.to_string()).or_default().push_str(&extra);
}

/// Derive clean-up.
fn fix_attrs(ed: &mut Edits, attrs: &[syn::Attribute], extra: &[String], keep: bool, structural: bool) -> bool {
    let mut clone_dropped = false;
    for a in attrs {
        let (s, e) = rng(a);
        if a.path().is_ident("derive") {
            let t = tok(&a.meta);
            let inner = t.trim_start_matches("derive(").trim_end_matches(')');
            let kept: Vec<&str> = inner
                .split(',')
                .filter(|d| !d.is_empty() && !DROP_DERIVES.contains(d) && !extra.iter().any(|x| x == d))
                .filter(|d| keep || (*d == "Clone" || *d == "Copy"))
                .collect();
            let mut kept = kept;
            // The derived `Clone` of a type that is not `Copy` gets its contract stated by hand.
            if kept.contains(&"Clone") && !kept.contains(&"Copy") {
                kept.retain(|d| *d != "Clone");
                clone_dropped = true;
            }
            if structural && kept.contains(&"PartialEq") && kept.contains(&"Eq") {
                kept.push("Structural");
            }
            if kept.is_empty() {
                ed.delete(s, e);
            } else {
                ed.replace(s, e, format!("#[derive({})]", kept.join(", ")));
            }
        } else if a.path().is_ident("doc") {
        } else {
            ed.delete(s, e);
        }
    }
    clone_dropped
}

fn clone_impl(ed: &mut Edits, at: usize, ident: &syn::Ident, generics: &syn::Generics) {
    let g = if generics.params.is_empty() { String::new() } else { format!("<{}>", generics.params.iter().map(|p| tok(p)).collect::<Vec<_>>().join(", ")) };
    ed.insert(at, format!("\nimpl{g} Clone for {ident}{g} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"));
}

fn process_items(cx: &mut Ctx, src: &str, ed: &mut Edits, file: &str, items: &[syn::Item], modpath: &str) {
    for item in items {
        let (s, e) = rng(item);
        match item {
            syn::Item::Mod(m) => {
                if has_cfg_test(&m.attrs) {
                    ed.delete(s, e);
                }
            }
            syn::Item::Macro(m) => {
                if tok(&m.mac.path) == "vx_verbatim" {
                    let txt = &src[s..e];
                    let a = txt.find('{').unwrap() + 1;
                    let b = txt.rfind('}').unwrap();
                    ed.replace(s, e, txt[a..b].to_string());
                } else {
                    ed.delete(s, e)
                }
            }
            syn::Item::ExternCrate(_) => {}
            syn::Item::Use(u) => {
                for a in &u.attrs {
                    let _ = a;
                }
                let t = tok(&u.tree);
                if t.starts_with("bitflags") || has_cfg_test(&u.attrs) {
                    ed.delete(s, e);
                }
                for (a, b) in &cx.specs.use_replace {
                    if t == norm(a) {
                        ed.replace(s, e, format!("{b};"));
                    }
                }
            }
            syn::Item::Fn(f) => {
                if has_cfg_test(&f.attrs) {
                    ed.delete(s, e);
                    continue;
                }
                let key = format!("{modpath}::{}", f.sig.ident);
                let pfx = f.sig.ident.to_string();
                process_fn(
                    cx, src, ed, file, key.clone(), key, &f.attrs, &f.sig, &f.block, (s, e), false, &pfx,
                );
            }
            syn::Item::Struct(st) => {
                if let Some(r) = cx.specs.items.get(&format!("{modpath}::{}", st.ident)) {
                    ed.replace(s, e, r.clone());
                } else {
                    let nd = cx.specs.no_derive.get(&format!("{modpath}::{}", st.ident)).cloned().unwrap_or_default();
                    let prim = st.fields.iter().all(|f| matches!(tok(&f.ty).as_str(), "u8" | "u16" | "u32" | "u64" | "usize" | "bool"));
                    if fix_attrs(ed, &st.attrs, &nd, true, prim) { clone_impl(ed, e, &st.ident, &st.generics); }
                    // all fields visible inside the crate so that contracts may mention them
                    let start = st.attrs.iter().map(|a| rng(a).1).max().unwrap_or(s);
                    if let Some(x) = cx.specs.item_attrs.get(&format!("{modpath}::{}", st.ident)) {
                        ed.insert(start, format!("\n{x}\n"));
                    }
                    for f in st.fields.iter() {
                        let (fs, fe) = rng(&f.vis);
                        match &f.vis {
                            syn::Visibility::Inherited => {
                                let at = match &f.ident {
                                    Some(i) => rng(i).0,
                                    None => rng(&f.ty).0,
                                };
                                ed.insert(at, "pub ");
                            }
                            _ => ed.replace(fs, fe, "pub"),
                        }
                    }
                    pubify(ed, &st.vis, rng(&st.struct_token).0);
                }
            }
            syn::Item::Enum(st) => {
                if let Some(r) = cx.specs.items.get(&format!("{modpath}::{}", st.ident)) {
                    ed.replace(s, e, r.clone());
                } else {
                    let nd = cx.specs.no_derive.get(&format!("{modpath}::{}", st.ident)).cloned().unwrap_or_default();
                    let plain = st.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit));
                    if fix_attrs(ed, &st.attrs, &nd, true, plain) { clone_impl(ed, e, &st.ident, &st.generics); }
                    let start = st.attrs.iter().map(|a| rng(a).1).max().unwrap_or(s);
                    if let Some(x) = cx.specs.item_attrs.get(&format!("{modpath}::{}", st.ident)) {
                        ed.insert(start, format!("\n{x}\n"));
                    }
                    pubify(ed, &st.vis, rng(&st.enum_token).0);
                }
            }
            syn::Item::Const(c) => {
                if let Some(r) = cx.specs.items.get(&format!("{modpath}::{}", c.ident)) {
                    ed.replace(s, e, r.replace("$E", &{
                        let (a, b) = rng(&*c.expr);
                        src[a..b].to_string()
                    }));
                } else {
                    // A.union(B) in a constant -> T(A.0 | B.0)
                    if let syn::Expr::MethodCall(m) = &*c.expr {
                        if m.method == "union" && m.args.len() == 1 {
                            let (a, b) = rng(&*m.receiver);
                            let (x, y) = rng(&m.args[0]);
                            let (p, q) = rng(&*c.expr);
                            ed.replace(p, q, format!("{}({}.0 | {}.0)", tok(&c.ty), &src[a..b], &src[x..y]));
                        }
                    }
                    pubify(ed, &c.vis, rng(&c.const_token).0);
                }
            }
            syn::Item::Type(t) if cx.specs.items.contains_key(&format!("{modpath}::{}", t.ident)) => {
                ed.replace(s, e, cx.specs.items[&format!("{modpath}::{}", t.ident)].clone());
            }
            syn::Item::Type(t) => {
                pubify(ed, &t.vis, rng(&t.type_token).0);
            }
            syn::Item::Trait(t) => {
                if let Some(r) = cx.specs.items.get(&format!("{modpath}::{}", t.ident)) {
                    ed.replace(s, e, r.clone());
                }
            }
            syn::Item::Impl(im) => {
                if has_cfg_test(&im.attrs) {
                    ed.delete(s, e);
                    continue;
                }
                let ty = self_ty_name(&im.self_ty);
                let mut full_prefix = format!("{modpath}::{ty}");
                let mut is_iter = false;
                if let Some((_, tr, _)) = &im.trait_ {
                    let trn = tr.segments.last().unwrap().ident.to_string();
                    let trk = tok(tr);
                    full_prefix = format!("{modpath}::{}@{}", tok(&im.self_ty), trk);
                    if DROP_TRAITS.contains(&trn.as_str()) || cx.specs.remove_impls.contains(&norm(&full_prefix))
                    {
                        ed.delete(s, e);
                        continue;
                    }
                    if trn == "Iterator" || ((trn == "Read" || trn == "Seek") && ty == "File") {
                        is_iter = true;
                    }
                }
                for a in &im.attrs {
                    let (a, b) = rng(a);
                    ed.delete(a, b);
                }
                if let Some(x) = auto_spec_impl(cx, src, modpath, im) {
                    ed.insert(e, format!("\n{x}\n"));
                }
                if let Some(x) = cx.specs.impl_after.get(&norm(&full_prefix)) {
                    ed.insert(e, format!("\n{x}\n"));
                }
                if let Some(x) = cx.specs.impl_in.get(&norm(&full_prefix)) {
                    ed.insert(rng(&im.brace_token.span.join()).0 + 1, format!("\n{x}\n"));
                }
                let mut item_ty = String::new();
                if is_iter {
                    // impl Iterator for T -> impl T (inherent next)
                    let (_, tr, f) = im.trait_.as_ref().unwrap();
                    let (a, _) = rng(tr);
                    let (_, b) = rng(f);
                    ed.delete(a, b);
                    for it in &im.items {
                        if let syn::ImplItem::Type(t) = it {
                            let (a, b) = rng(t);
                            item_ty = {
                                let (x, y) = rng(&t.ty);
                                src[x..y].to_string()
                            };
                            ed.delete(a, b);
                        }
                    }
                }
                for it in &im.items {
                    match it {
                        syn::ImplItem::Fn(f) => {
                            let (a, b) = rng(f);
                            if has_cfg_test(&f.attrs) {
                                ed.delete(a, b);
                                continue;
                            }
                            let key = format!("{modpath}::{ty}::{}", f.sig.ident);
                            let full = format!("{full_prefix}::{}", f.sig.ident);
                            let pfx = format!("{ty}_{}", f.sig.ident);
                            let mp = is_iter;
                            process_fn(
                                cx, src, ed, file, key, norm(&full), &f.attrs, &f.sig, &f.block, (a, b), mp, &pfx,
                            );
                            if is_iter && !item_ty.is_empty() {
                                if let syn::ReturnType::Type(_, t) = &f.sig.output {
                                    let (x, y) = rng(&**t);
                                    let txt = &src[x..y];
                                    if let Some(i) = txt.find("Self::Item") {
                                        ed.replace(x + i, x + i + "Self::Item".len(), item_ty.clone());
                                    }
                                }
                            }
                        }
                        syn::ImplItem::Const(c) => {
                            let k = format!("{modpath}::{ty}::{}", c.ident);
                            let (a, b) = rng(c);
                            let lifted = im.trait_.is_none() && !im.generics.params.is_empty()
                                || im.trait_.is_none() && tok(&im.self_ty).contains("'_");
                            let cty = tok(&c.ty);
                            if lifted && !cx.specs.items.contains_key(&k) && !cty.contains('<') && !cty.contains("Self") {
                                // Verus does not accept constants in an impl with lifetime parameters
                                let (x, y) = rng(&c.expr);
                                let (tx, ty2) = rng(&c.ty);
                                ed.delete(a, b);
                                ed.insert(e, format!("\npub const {ty}_{}: {} = {};\n", c.ident, &src[tx..ty2], &src[x..y]));
                                cx.lifted.push((modpath.to_string(), ty.clone(), c.ident.to_string()));
                                continue;
                            }
                            if let Some(r) = cx.specs.items.get(&k) {
                                ed.replace(a, b, r.replace("$E", &{
                                    let (a, b) = rng(&c.expr);
                                    src[a..b].to_string()
                                }));
                            } else {
                                pubify(ed, &c.vis, rng(&c.const_token).0);
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
}

/// Conversions and comparisons without a functional model get the empty model.
fn auto_spec_impl(cx: &Ctx, src: &str, modpath: &str, im: &syn::ItemImpl) -> Option<String> {
    let (_, tr, _) = im.trait_.as_ref()?;
    let seg = tr.segments.last()?;
    let name = seg.ident.to_string();
    let (module, body) = match name.as_str() {
        "TryFrom" => ("convert", "open spec fn obeys_try_from_spec() -> bool { false } open spec fn try_from_spec(v: $A) -> Result<Self, <Self as TryFrom<$A>>::Error> { arbitrary() }"),
        "From" => ("convert", "open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: $A) -> Self { arbitrary() }"),
        "PartialEq" => ("cmp", "open spec fn obeys_eq_spec() -> bool { false } open spec fn eq_spec(&self, o: &$A) -> bool { arbitrary() }"),
        "PartialOrd" => ("cmp", "open spec fn obeys_partial_cmp_spec() -> bool { false } open spec fn partial_cmp_spec(&self, o: &$A) -> Option<core::cmp::Ordering> { arbitrary() }"),
        _ => return None,
    };
    let arg = match &seg.arguments {
        syn::PathArguments::AngleBracketed(a) => {
            let t = a.args.first()?;
            let (x, y) = rng(t);
            src[x..y].to_string()
        }
        _ => { let (x, y) = rng(&im.self_ty); src[x..y].to_string() }
    };
    let (x, y) = rng(&im.self_ty);
    let selfty = src[x..y].to_string();
    // `crate::vx::io::Error` etc. keep their path
    let hand = norm(&format!("{name}SpecImpl<{arg}> for {selfty}"));
    let have = norm(cx.specs.modules.get(modpath).map(|s| s.as_str()).unwrap_or(""));
    if have.contains(&hand) {
        return None;
    }
    let mut anon = false;
    let mut life = |t: &str| -> String {
        let mut out = String::new();
        let cs: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '&' && cs.get(i + 1) != Some(&'\'') {
                out.push_str("&'vx0 ");
                anon = true;
            } else if cs[i] == '\'' && cs.get(i + 1) == Some(&'_') {
                out.push_str("'vx0");
                anon = true;
                i += 1;
            } else {
                out.push(cs[i]);
            }
            i += 1;
        }
        out
    };
    let arg = life(&if arg == "Self" { selfty.clone() } else { arg });
    let selfty = life(&selfty);
    let mut gens: Vec<String> = im.generics.params.iter().map(|g| { let (a, b) = rng(g); src[a..b].to_string() }).collect();
    if anon {
        gens.insert(0, "'vx0".into());
    }
    let g = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
    let w = im.generics.where_clause.as_ref().map(|w| { let (a, b) = rng(w); src[a..b].to_string() }).unwrap_or_default();
    Some(format!("impl{g} vstd::std_specs::{module}::{name}SpecImpl<{arg}> for {selfty} {w} {{ {} }}", body.replace("$A", &arg)))
}

fn word_replace(text: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    let id = |c: char| c.is_alphanumeric() || c == '_';
    while let Some(i) = rest.find(from) {
        let before = rest[..i].chars().last().or(out.chars().last());
        let after = rest[i + from.len()..].chars().next();
        out.push_str(&rest[..i]);
        let ok = !before.is_some_and(|c| id(c) || c == ':') && !after.is_some_and(id);
        out.push_str(if ok { to } else { from });
        rest = &rest[i + from.len()..];
    }
    out.push_str(rest);
    out
}

fn pubify(ed: &mut Edits, vis: &syn::Visibility, kw: usize) {
    match vis {
        syn::Visibility::Inherited => ed.insert(kw, "pub "),
        v => {
            let (a, b) = rng(v);
            ed.replace(a, b, "pub");
        }
    }
}

/// Byte offset just after the leading `use`/`mod`/`extern crate` items.
fn split_uses(src: &str, ed: &Edits, items: &[syn::Item]) -> (String, String) {
    // Produce text of uses/mods (outside verus!) and the rest (inside verus!).
    let mut outside = Edits { v: ed.v.clone() };
    let mut inside = Edits { v: ed.v.clone() };
    // whole-file: in `outside` delete all non-use items; in `inside` delete uses.
    let mut out_ranges = vec![];
    let mut in_ranges = vec![];
    for it in items {
        let (s, e) = rng(it);
        match it {
            syn::Item::Use(_) | syn::Item::Mod(_) | syn::Item::ExternCrate(_) => out_ranges.push((s, e)),
            _ => in_ranges.push((s, e)),
        }
    }
    let cut = |text: &str, eds: &Edits, keep: &[(usize, usize)]| -> String {
        let mut o = String::new();
        for (s, e) in keep {
            let mut sub = Edits::default();
            for x in &eds.v {
                if x.start >= *s && x.end <= *e {
                    sub.replace(x.start - s, x.end - s, x.text.clone());
                }
            }
            o.push_str(&sub.apply(&text[*s..*e]));
            o.push_str("\n\n");
        }
        o
    };
    let a = cut(src, &outside, &out_ranges);
    let b = cut(src, &inside, &in_ranges);
    outside.v.clear();
    inside.v.clear();
    (a, b)
}

fn modpath_of(rel: &Path) -> String {
    let mut p: Vec<String> = rel.iter().map(|x| x.to_string_lossy().to_string()).collect();
    let last = p.pop().unwrap();
    let stem = last.trim_end_matches(".rs").to_string();
    p.push(stem);
    p.join("::")
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().map(|e| e == "rs").unwrap_or(false) {
            out.push(p);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let srcdir = PathBuf::from(&args[1]);
    let specdir = PathBuf::from(&args[2]);
    let outdir = PathBuf::from(&args[3]);
    let mut stubs = BTreeSet::new();
    let mut canary = false;
    let mut i = 4;
    while i < args.len() {
        match args[i].as_str() {
            "--stub" => {
                stubs.insert(args[i + 1].clone());
                i += 2;
            }
            "--canary" => {
                canary = true;
                i += 1;
            }
            x => panic!("bad arg {x}"),
        }
    }
    let specs = Specs::load(&specdir);
    let mut cx = Ctx {
        specs,
        stubs,
        canary,
        infos: vec![],
        used_specs: Default::default(),
        result_iter_body: None,
        own_iters: Default::default(),
        lifted: vec![],
    };
    let _ = &cx.own_iters;
    let mut files = vec![];
    walk(&srcdir, &mut files);
    if let Ok(s) = std::fs::read_to_string(srcdir.join("iters.rs")) {
        cx.result_iter_body = find_result_iter(&s);
    }
    let mut texts: BTreeMap<PathBuf, String> = BTreeMap::new();
    let mut known: BTreeSet<String> = BTreeSet::new();
    for k in cx.specs.keys() {
        known.insert(k);
    }
    for f in &files {
        let rel = f.strip_prefix(&srcdir).unwrap().to_path_buf();
        let raw = std::fs::read_to_string(f).unwrap();
        // std::io and other operating system parts of std are modelled by modules of crate::vx
        let mut raw = raw.replace("std::io::", "crate::vx::io::");
        for m in ["fs", "path", "ffi", "os"] {
            raw = raw.replace(&format!("std::{m}::"), &format!("crate::vx::{m}::"));
        }
        texts.insert(rel, preprocess(&cx, &raw, &modpath_of(f.strip_prefix(&srcdir).unwrap())));
    }
    // inline new private helper functions that have no contract
    let mut inline_notes = vec![];
    for (rel, t) in texts.iter_mut() {
        let mp = modpath_of(rel);
        let (nt, notes) = inline::inline_helpers(t, &mp, &known, &cx.specs.known_fns);
        *t = nt;
        inline_notes.extend(notes);
    }
    let mut outs = vec![];
    for (rel, src) in &texts {
        let mp = modpath_of(rel);
        if cx.specs.skip_files.contains(&mp) || mp == "test_util" {
            continue;
        }
        let file = match syn::parse_file(src) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("PARSE ERROR {}: {e}", rel.display());
                std::process::exit(3);
            }
        };
        let mut ed = Edits::default();
        process_items(&mut cx, src, &mut ed, &mp, &file.items, &mp);
        let (outside, inside) = split_uses(src, &ed, &file.items);
        let hoisted = cx.specs.hoisted.get(&mp).cloned().unwrap_or_default();
        let module_text = cx.specs.modules.get(&mp).cloned().unwrap_or_default();
        let outside_extra = cx.specs.outside.get(&mp).cloned().unwrap_or_default();
        let mut text = String::new();
        if mp == "lib" {
            text.push_str(&cx.specs.crate_attrs);
            text.push_str("\n#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, unreachable_code, unused_assignments, private_interfaces, non_snake_case)]\npub mod vx;\n");
        }
        text.push_str("use vstd::prelude::*;\n");
        text.push_str("#[allow(unused_imports)] use crate::vx::*;\n");
        text.push_str(&outside_extra);
        text.push_str(&outside);
        text.push_str("\nverus! {\nbroadcast use {crate::vx::vx_axioms, vstd::layout::layout_of_primitives};\n");
        text.push_str(&module_text);
        text.push('\n');
        text.push_str(&inside);
        text.push_str(&hoisted);
        text.push_str("\n} // verus!\n");
        let o = outdir.join(rel);
        std::fs::create_dir_all(o.parent().unwrap()).unwrap();
        outs.push((o, mp, text));
    }
    let mut idents = BTreeSet::new();
    for (_, _, text) in &outs {
        for (i, _) in text.match_indices('(') {
            let w = text[..i].rsplit(|c: char| !(c.is_alphanumeric() || c == '_')).next().unwrap();
            idents.insert(w.to_string());
        }
    }
    for (o, mp, mut text) in outs {
        for (m, t, n) in &cx.lifted {
            let full = if m == "lib" { format!("crate::{t}_{n}") } else { format!("crate::{m}::{t}_{n}") };
            text = word_replace(&text, &format!("{t}::{n}"), &full);
            if *m == mp {
                text = word_replace(&text, &format!("Self::{n}"), &full);
            }
        }
        std::fs::write(&o, &text).unwrap();
    }
    // Contracts of std functions are only assumed if the source mentions the function.
    let mut pre = String::new();
    let mut keep = true;
    for l in std::fs::read_to_string(specdir.join("vx.rs")).unwrap().lines() {
        if let Some(n) = l.strip_prefix("//@if ") {
            keep = idents.contains(n.trim());
        } else if l == "//@end" {
            keep = true;
        } else if keep {
            pre.push_str(l);
            pre.push('\n');
        }
    }
    std::fs::write(outdir.join("vx.rs"), pre).unwrap();
    // report
    let mut fns = vec![];
    for f in &cx.infos {
        fns.push(serde_json::json!({
            "key": f.key, "full_key": f.full_key, "file": f.file, "status": f.status,
            "loops": f.loops, "nodec": f.nodec, "lost": f.lost, "skeleton": f.skeleton, "hash": f.hash,
            "props": f.props, "rewrites": f.rewrites,
        }));
    }
    let unused: Vec<String> =
        known.iter().filter(|k| !cx.used_specs.contains(*k)).cloned().collect();
    let rep = serde_json::json!({"functions": fns, "unused_specs": unused, "inlined": inline_notes});
    std::fs::write(outdir.join("report.json"), serde_json::to_string_pretty(&rep).unwrap()).unwrap();
}
