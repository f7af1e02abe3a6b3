//! `Debug`/`Display` implementations under contract: `fmt` becomes the inherent `vx_debug`/`vx_display` with the same
//! body over the formatter of the model, and `write!` the sequence of writes its format string stands for.
use crate::{rng, tok, Edits};
use syn::parse::Parser;
use syn::visit::Visit;

pub enum Piece {
    Lit(String),
    /// (argument source, method)
    Arg(String, &'static str),
}

fn parse_fmt(lit: &str, args: &[String]) -> Option<Vec<Piece>> {
    let mut out = Vec::new();
    let mut cur = String::new();
    let mut it = lit.chars().peekable();
    let mut next = 0;
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                cur.push('{');
            }
            '}' if it.peek() == Some(&'}') => {
                it.next();
                cur.push('}');
            }
            '{' => {
                let mut s = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        x => s.push(x),
                    }
                }
                if !cur.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut cur)));
                }
                let (name, how) = match s.split_once(':') {
                    Some((a, b)) => (a.trim(), b.trim()),
                    None => (s.trim(), ""),
                };
                let how = match how {
                    "" => "vx_display",
                    "?" => "vx_debug",
                    "02x" => "vx_hex02",
                    _ => return None,
                };
                let a = if name.is_empty() {
                    next += 1;
                    args.get(next - 1)?.clone()
                } else if let Ok(i) = name.parse::<usize>() {
                    args.get(i)?.clone()
                } else {
                    name.to_string()
                };
                out.push(Piece::Arg(a, how));
            }
            '}' => return None,
            x => cur.push(x),
        }
    }
    if !cur.is_empty() {
        out.push(Piece::Lit(cur));
    }
    Some(out)
}

struct V<'a> {
    src: &'a str,
    ed: &'a mut Edits,
    how: &'static str,
}
impl<'a, 'b> Visit<'b> for V<'a> {
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        if tok(&m.path) != "write" {
            return;
        }
        let (s, e) = rng(m);
        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        let txt = |x: &syn::Expr| {
            let (a, b) = rng(x);
            let t = self.src[a..b].to_string();
            t.replace("String::from_utf8_lossy(", "crate::vx::vx_lossy(").replace(".escape_debug()", ".vx_escape_debug()")
                .replace(".escape_ascii()", ".vx_escape_ascii()")
        };
        let mut done = None;
        if let Ok(args) = p.parse2(m.tokens.clone()) {
            let v: Vec<&syn::Expr> = args.iter().collect();
            if v.len() >= 2 {
                if let syn::Expr::Lit(l) = v[1] {
                    if let syn::Lit::Str(l) = &l.lit {
                        let rest: Vec<String> = v[2..].iter().map(|x| txt(x)).collect();
                        if let Some(ps) = parse_fmt(&l.value(), &rest) {
                            let f = txt(v[0]);
                            let mut o = String::from("({ let vx_r: crate::vx::FmtResult = Ok(());");
                            for p in ps {
                                match p {
                                    Piece::Lit(t) => {
                                        let b: Vec<String> = t.bytes().map(|x| format!("{x}u8")).collect();
                                        let w = if b.len() == 1 { format!("vx_byte({})", b[0]) } else { format!("vx_lit(&[{}])", b.join(", ")) };
                                        o += &format!(" let vx_r = match vx_r {{ Ok(()) => {f}.{w}, Err(e) => Err(e) }};");
                                    }
                                    Piece::Arg(a, h) => {
                                        o += &format!(
                                            " let vx_r = match vx_r {{ Ok(()) => ({a}).{h}({f}), Err(e) => Err(e) }};"
                                        );
                                    }
                                }
                            }
                            o += " vx_r })";
                            done = Some(o);
                        }
                    }
                }
            }
        }
        self.ed.replace(s, e, done.unwrap_or_else(|| "crate::vx::vx_unmodelled_fmt(f)".into()));
    }
    fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
        if m.method == "fmt" && m.args.len() == 1 {
            let (s, e) = rng(&m.method);
            self.ed.replace(s, e, self.how);
        }
        if m.method == "escape_debug" || m.method == "escape_ascii" {
            let (s, e) = rng(&m.method);
            self.ed.replace(s, e, format!("vx_{}", m.method));
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        let f = tok(&*c.func);
        let (s, e) = rng(&*c.func);
        if let Some(x) = f.strip_prefix('<').and_then(|x| x.strip_suffix("asDebug>::fmt")) {
            self.ed.replace(s, e, format!("<{x}>::vx_debug"));
        } else if let Some(x) = f.strip_prefix('<').and_then(|x| x.strip_suffix("asDisplay>::fmt")) {
            self.ed.replace(s, e, format!("<{x}>::vx_display"));
        } else if f == "Debug::fmt" || f == "fmt::Debug::fmt" || f == "Display::fmt" || f == "fmt::Display::fmt" {
            if let [a, b] = &c.args.iter().collect::<Vec<_>>()[..] {
                let how = if f.contains("Debug") { "vx_debug" } else { "vx_display" };
                let (cs, ce) = rng(c);
                let t = |x: &syn::Expr| {
                    let (a, b) = rng(x);
                    self.src[a..b].to_string()
                };
                let r = format!("({}).{how}({})", t(a), t(b));
                self.ed.replace(cs, ce, r);
                return;
            }
        } else if f.ends_with("String::from_utf8_lossy") {
            self.ed.replace(s, e, "crate::vx::vx_lossy");
        }
        syn::visit::visit_expr_call(self, c);
    }
}

fn sig(ed: &mut Edits, s: &syn::Signature) -> bool {
    let mut hit = false;
    for i in &s.inputs {
        if let syn::FnArg::Typed(t) = i {
            if let syn::Type::Reference(r) = &*t.ty {
                if let syn::Type::Path(p) = &*r.elem {
                    if p.path.segments.last().is_some_and(|x| x.ident == "Formatter") {
                        let (a, b) = rng(&*r.elem);
                        ed.replace(a, b, "crate::vx::Formatter");
                        hit = true;
                    }
                }
            }
        }
    }
    if hit {
        if let syn::ReturnType::Type(_, t) = &s.output {
            let (a, b) = rng(&**t);
            ed.replace(a, b, "crate::vx::FmtResult");
        }
    }
    hit
}

pub fn free_fn(src: &str, ed: &mut Edits, f: &syn::ItemFn) {
    if sig(ed, &f.sig) {
        V { src, ed, how: "vx_display" }.visit_block(&f.block);
    }
}

/// Returns false if the impl is not one of a formatting trait.
pub fn impl_fmt(src: &str, ed: &mut Edits, im: &syn::ItemImpl) {
    let Some((_, tr, f)) = &im.trait_ else { return };
    let how = if tr.segments.last().unwrap().ident == "Debug" { "vx_debug" } else { "vx_display" };
    let (a, _) = rng(tr);
    let (_, b) = rng(f);
    ed.delete(a, b);
    for it in &im.items {
        if let syn::ImplItem::Fn(f) = it {
            let (a, b) = rng(&f.sig.ident);
            ed.replace(a, b, how);
            ed.insert(rng(&f.sig).0, "pub(crate) ");
            sig(ed, &f.sig);
            V { src, ed, how }.visit_block(&f.block);
        }
    }
}
