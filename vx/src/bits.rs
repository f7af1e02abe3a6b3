//! Expansion of `bitflags!` into a plain struct; names, types and values of
//! the flags are taken from the source text.
use proc_macro2::TokenStream;
use std::fmt::Write as _;
use syn::parse::{Parse, ParseStream};
use syn::{braced, Attribute, Expr, Ident, Token, Type, Visibility};

struct Flag {
    name: Ident,
    val: Expr,
}
struct One {
    vis: Visibility,
    name: Ident,
    ty: Type,
    flags: Vec<Flag>,
}
struct All(Vec<One>);

impl Parse for All {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !input.is_empty() {
            let _ = input.call(Attribute::parse_outer)?;
            let vis: Visibility = input.parse()?;
            input.parse::<Token![struct]>()?;
            let name: Ident = input.parse()?;
            input.parse::<Token![:]>()?;
            let ty: Type = input.parse()?;
            let c;
            braced!(c in input);
            let mut flags = vec![];
            while !c.is_empty() {
                let _ = c.call(Attribute::parse_outer)?;
                c.parse::<Token![const]>()?;
                let name: Ident = c.parse()?;
                c.parse::<Token![=]>()?;
                let val: Expr = c.parse()?;
                c.parse::<Token![;]>()?;
                flags.push(Flag { name, val });
            }
            v.push(One { vis, name, ty, flags });
        }
        Ok(All(v))
    }
}

pub fn expand(tokens: &TokenStream) -> String {
    let all: All = match syn::parse2(tokens.clone()) {
        Ok(a) => a,
        Err(e) => return format!("compile_error!(\"bitflags: {e}\");"),
    };
    let mut o = String::new();
    for one in all.0 {
        let n = one.name.to_string();
        let t = crate::tok(&one.ty);
        let _ = &one.vis;
        let vals: Vec<String> = one.flags.iter().map(|f| format!("({})", crate::tok(&f.val))).collect();
        let mut allv: String = format!("0{t}");
        for v in &vals {
            allv = format!("({allv} | {v})");
        }
        // emitted as plain items
        let mut s = String::new();
        writeln!(s, "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\npub struct {n}(pub {t});").unwrap();
        writeln!(s, "impl {n} {{").unwrap();
        for (f, v) in one.flags.iter().zip(&vals) {
            writeln!(s, "pub const {}: {n} = {n}({v});", f.name).unwrap();
        }
        writeln!(s, "pub open spec fn vx_all() -> {t} {{ ({allv}) as {t} }}").unwrap();
        writeln!(s, "pub const fn bits(&self) -> (r: {t}) ensures r == self.0 {{ self.0 }}").unwrap();
        writeln!(s, "pub const fn from_bits_retain(b: {t}) -> (r: Self) ensures r.0 == b {{ {n}(b) }}").unwrap();
        writeln!(s, "pub fn from_bits_truncate(b: {t}) -> (r: Self) ensures r.0 == b & Self::vx_all() {{ {n}(b & ({allv})) }}").unwrap();
        writeln!(s, "pub const fn contains(&self, o: Self) -> (r: bool) ensures r == (self.0 & o.0 == o.0) {{ self.0 & o.0 == o.0 }}").unwrap();
        writeln!(s, "pub const fn intersects(&self, o: Self) -> (r: bool) ensures r == (self.0 & o.0 != 0) {{ self.0 & o.0 != 0 }}").unwrap();
        writeln!(s, "pub open spec fn union_spec(self, o: Self) -> Self {{ {n}(self.0 | o.0) }}").unwrap();
        writeln!(s, "#[verifier::when_used_as_spec(union_spec)] pub const fn union(self, o: Self) -> (r: Self) ensures r.0 == self.0 | o.0 {{ {n}(self.0 | o.0) }}").unwrap();
        writeln!(s, "pub const fn difference(self, o: Self) -> (r: Self) ensures r.0 == self.0 & !o.0 {{ {n}(self.0 & !o.0) }}").unwrap();
        writeln!(s, "pub const fn is_empty(&self) -> (r: bool) ensures r == (self.0 == 0) {{ self.0 == 0 }}").unwrap();
        writeln!(s, "}}").unwrap();
        for (tr, m, sp, op) in [("BitOr", "bitor", "BitOrSpecImpl", "|"), ("BitAnd", "bitand", "BitAndSpecImpl", "&")] {
            writeln!(s, "impl core::ops::{tr} for {n} {{ type Output = {n}; fn {m}(self, o: {n}) -> (r: {n}) ensures r.0 == self.0 {op} o.0 {{ {n}(self.0 {op} o.0) }} }}").unwrap();
            writeln!(s, "impl vstd::std_specs::ops::{sp}<{n}> for {n} {{ open spec fn obeys_{m}_spec() -> bool {{ true }} open spec fn {m}_req(self, rhs: {n}) -> bool {{ true }} open spec fn {m}_spec(self, rhs: {n}) -> {n} {{ {n}(self.0 {op} rhs.0) }} }}").unwrap();
        }
        // hide from syn: this text contains Verus syntax, so it is passed through verbatim
        o.push_str(&format!("\nvx_verbatim!{{ {} }}\n", s));
    }
    o
}
