//! Parser for the contract files (/verif/specs/*.vs).
//!
//! %% module <modpath>        raw Verus text put at the top of the module (inside verus!)
//! %% outside <modpath>       raw text put in the module outside verus!
//! %% item <modpath::Name>    replacement text for a struct/enum/const/trait item
//! %% attr <modpath::Name>    attribute text for a struct/enum
//! %% use <tree> => <text>    replacement of a use item
//! %% skip <modpath>          file not extracted
//! %% remove <fn key>         function dropped from the extracted text
//! %% removeimpl <key>        impl block dropped
//! %% afterimpl <key>         text after an impl block
//! %% fn <key>                contract of a function
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Default, Debug)]
pub struct Insert {
    pub pat: String,
    pub after: bool,
    pub text: String,
}

#[derive(Clone, Default, Debug)]
pub struct FnSpec {
    pub key: String,
    pub props: Vec<String>,
    pub ret: Option<String>,
    pub contract: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_start: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub for_desugar: BTreeMap<usize, String>,
    pub desugar_while: BTreeSet<usize>,
    pub start: String,
    pub tail: String,
    pub inserts: Vec<Insert>,
    pub replaces: Vec<(String, String)>,
    pub attrs: Vec<String>,
    pub closures: BTreeMap<usize, String>,
    pub external: bool,
    pub stub_body: bool,
    pub remove: bool,
    pub hoist: bool,
    pub keep_const: bool,
}

#[derive(Default)]
pub struct Specs {
    fns: BTreeMap<String, FnSpec>,
    pub modules: BTreeMap<String, String>,
    pub outside: BTreeMap<String, String>,
    pub items: BTreeMap<String, String>,
    pub item_attrs: BTreeMap<String, String>,
    pub use_replace: Vec<(String, String)>,
    pub skip_files: BTreeSet<String>,
    pub remove_impls: BTreeSet<String>,
    pub impl_after: BTreeMap<String, String>,
    pub impl_in: BTreeMap<String, String>,
    pub no_derive: BTreeMap<String, Vec<String>>,
    pub hoisted: BTreeMap<String, String>,
    pub crate_attrs: String,
    pub known_fns: BTreeSet<String>,
}

impl Specs {
    pub fn get(&self, k: &str) -> Option<&FnSpec> {
        self.fns.get(k)
    }
    pub fn keys(&self) -> Vec<String> {
        self.fns.keys().cloned().collect()
    }
    pub fn load(dir: &Path) -> Self {
        let mut s = Specs::default();
        let mut es: Vec<_> = std::fs::read_dir(dir)
            .unwrap()
            .map(|e| e.unwrap().path())
            .filter(|p| p.extension().map(|e| e == "vs").unwrap_or(false))
            .collect();
        es.sort();
        for p in es {
            s.parse(&std::fs::read_to_string(&p).unwrap(), &p);
        }
        if let Ok(t) = std::fs::read_to_string(dir.join("known_fns.txt")) {
            s.known_fns = t.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect();
        }
        s
    }
    fn parse(&mut self, text: &str, path: &Path) {
        let mut cur: Option<(String, String, Vec<String>)> = None;
        for line in text.lines() {
            if let Some(h) = line.strip_prefix("%%") {
                if let Some(c) = cur.take() {
                    self.finish(c, path);
                }
                let h = h.trim();
                if h.starts_with('#') || h.is_empty() {
                    continue;
                }
                let (k, rest) = h.split_once(' ').unwrap_or((h, ""));
                cur = Some((k.to_string(), rest.trim().to_string(), vec![]));
            } else if let Some(c) = &mut cur {
                c.2.push(line.to_string());
            }
        }
        if let Some(c) = cur.take() {
            self.finish(c, path);
        }
    }
    fn finish(&mut self, (kind, arg, lines): (String, String, Vec<String>), path: &Path) {
        let body = lines.join("\n");
        let akey = crate::norm(&arg);
        match kind.as_str() {
            "module" => self.modules.entry(arg).or_default().push_str(&(body + "\n")),
            "outside" => self.outside.entry(arg).or_default().push_str(&(body + "\n")),
            "item" => {
                self.items.insert(arg, body);
            }
            "attr" => {
                self.item_attrs.insert(arg, body);
            }
            "use" => {
                let (a, b) = arg.split_once("=>").unwrap();
                self.use_replace.push((a.trim().to_string(), b.trim().to_string()));
            }
            "skip" => {
                self.skip_files.insert(arg);
            }
            "crateattrs" => self.crate_attrs.push_str(&body),
            "remove" => {
                let f = FnSpec { key: akey.clone(), remove: true, ..Default::default() };
                self.fns.insert(akey, f);
            }
            "removeimpl" => {
                self.remove_impls.insert(akey);
            }
            "afterimpl" => {
                self.impl_after.insert(akey, body);
            }
            "noderive" => {
                let (a, b) = arg.split_once("=>").unwrap();
                self.no_derive.insert(a.trim().to_string(), b.split_whitespace().map(|x| x.to_string()).collect());
            }
            "inimpl" => {
                self.impl_in.insert(akey, body);
            }
            "fn" => {
                let mut f = FnSpec { key: akey.clone(), ..Default::default() };
                let mut sub: Option<(String, String)> = None;
                let mut buf = String::new();
                let mut all: Vec<((String, String), String)> = vec![];
                for l in &lines {
                    if let Some(h) = l.trim_start().strip_prefix('@') {
                        if let Some(s) = sub.take() {
                            all.push((s, std::mem::take(&mut buf)));
                        }
                        buf.clear();
                        let h = h.trim();
                        let (k, r) = h.split_once(' ').unwrap_or((h, ""));
                        sub = Some((k.to_string(), r.trim().to_string()));
                    } else {
                        buf.push_str(l);
                        buf.push('\n');
                    }
                }
                if let Some(s) = sub.take() {
                    all.push((s, buf));
                }
                for ((k, a), b) in all {
                    let n = || a.split_whitespace().next().unwrap().parse::<usize>().unwrap();
                    match k.as_str() {
                        "props" => f.props = a.split_whitespace().map(|x| x.to_string()).collect(),
                        "ret" => f.ret = Some(a),
                        "spec" => f.contract = b,
                        "loop" => {
                            f.loops.insert(n(), b);
                        }
                        "loopstart" => {
                            f.loop_start.insert(n(), format!("\n{b}\n"));
                        }
                        "loopend" => {
                            f.loop_end.insert(n(), format!("\n{b}\n"));
                        }
                        "loopbefore" => {
                            f.loop_before.insert(n(), format!("\n{b}\n"));
                        }
                        "for" => {
                            let i = n();
                            let rest = a.splitn(2, ' ').nth(1).unwrap_or("").to_string();
                            f.for_desugar.insert(i, rest);
                        }
                        "whileloop" => {
                            f.desugar_while.insert(n());
                        }
                        "closure" => {
                            let i = n();
                            let rest = a.splitn(2, ' ').nth(1).unwrap_or("").to_string();
                            f.closures.insert(i, format!("{rest}\n{b}"));
                        }
                        "start" => f.start = b,
                        "tail" => f.tail = b,
                        "before" => f.inserts.push(Insert { pat: a, after: false, text: b }),
                        "after" => f.inserts.push(Insert { pat: a, after: true, text: b }),
                        "replace" => {
                            let (x, y) = a.split_once("==>").unwrap_or_else(|| panic!("bad replace {a}"));
                            f.replaces.push((x.trim().to_string(), y.trim().to_string()));
                        }
                        "attr" => f.attrs.push(a),
                        "external" => f.external = true,
                        "stubbody" => f.stub_body = true,
                        "hoist" => f.hoist = true,
                        "keepconst" => f.keep_const = true,
                        x => panic!("{}: unknown @{x}", path.display()),
                    }
                }
                if self.fns.insert(akey.clone(), f).is_some() {
                    panic!("{}: duplicate fn {akey}", path.display());
                }
            }
            x => panic!("{}: unknown section {x}", path.display()),
        }
    }
}
