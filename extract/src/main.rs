//! Mechanical extraction of fourleaf's source into one Verus file.
//!
//! usage: extract EXPANDED.rs CONTRACT_DIR OUT.rs OUT.json [--assume KEY,..] [--canary] [--skip MODULE,..] [--drop-types MODULE::TYPE,..]
//!
//! --assume leaves the named functions' bodies out and keeps their contracts (used when a changed
//! body is outside what the verifier accepts: the rest is still checked, these are reported as
//! undecided).  --canary puts `assert(false)` at the entry of every function under contract: all
//! of them must then fail, or a precondition is contradictory.  --skip leaves whole modules out,
//! --drop-types the impls (and their specs) of the named types: one run's share of the proof does
//! not need the impls whose obligations another share discharges.
//!
//! EXPANDED.rs is what rustc itself prints for /repo's lib after macro expansion.  The text of
//! every item of the selected modules is copied verbatim; only the edits listed in
//! `EDITS` (see DESIGN.md, "What the extraction changes") are applied, each at the byte span the
//! parser reports.  Contracts from CONTRACT_DIR are spliced in by function key.
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default, Clone, Debug)]
struct FnC {
    file: String,
    props: Vec<String>,
    ret: Option<String>,
    attrs: Vec<String>,
    external: bool,
    drop: bool,
    nocopy: bool,
    needs: Option<String>, // what holds of every type that inherits this default method; the method's text is checked under it
    free: Option<String>, // also write the body as a free function with these generics (contract: KEY::free)
    spec: String,
    entry: String,
    tail: String,
    loops: BTreeMap<usize, [String; 6]>, // inv, head, tail, after, before, arm (start of a while-let's arm)
    nested: BTreeMap<String, String>, // contracts of functions declared inside this one
    blocks: BTreeMap<String, String>, // text for marked places (`arm PAT K`)
    calls: Vec<(String, usize, bool, String)>, // name, k, after?, text
}
#[derive(Default, Debug)]
struct Contracts {
    prelude: String,
    modules: BTreeMap<String, (String, Option<BTreeSet<String>>)>,
    own: BTreeSet<String>,
    order: Vec<String>,
    fns: BTreeMap<String, FnC>,
    extra: BTreeMap<String, String>, // "trait io::X" / "impl io::Cursor::AsExtBytes"
}

/// `a{x,y}b{0..3}` -> every combination, with the chosen values
fn expand_key(k: &str) -> Vec<(String, Vec<String>)> {
    match (k.find('{'), k.find('}')) {
        (Some(i), Some(j)) if i < j => {
            let opts: Vec<String> = k[i + 1..j].split(',').flat_map(|o| match o.split_once("..") {
                Some((a, b)) => (a.parse::<usize>().unwrap()..=b.parse::<usize>().unwrap()).map(|n| n.to_string()).collect::<Vec<_>>(),
                None => vec![o.to_owned()],
            }).collect();
            let mut out = vec![];
            for o in opts {
                for (rest, mut vals) in expand_key(&k[j + 1..]) { vals.insert(0, o.clone()); out.push((format!("{}{}{}", &k[..i], o, rest), vals)); }
            }
            out
        }
        _ => vec![(k.to_owned(), vec![])],
    }
}
/// `@1@`,`@2@`: the values chosen in the key; `@rep{a..b text @i@ }rep@`: text for each i in a..b, where
/// a bound is a number or one of the values, `@i+1@` / `@i-1@` too
fn subst(t: &str, vals: &[String]) -> String {
    let mut t = t.to_owned();
    for (i, v) in vals.iter().enumerate() {
        t = t.replace(&format!("@{}@", i + 1), v);
        if let Ok(n) = v.parse::<usize>() { t = t.replace(&format!("@{}+1@", i + 1), &(n + 1).to_string()); }
    }
    while let Some(j) = t.find("}rep@") {
        let i = t[..j].rfind("@rep{").expect("@rep{ before }rep@");   // the innermost first
        let inner = t[i + 5..j].to_owned();
        let sp = inner.find(char::is_whitespace).unwrap();
        let (a, b) = inner[..sp].split_once("..").expect("range");
        let (a, b): (usize, usize) = (a.parse().unwrap(), b.parse().unwrap());
        let body = &inner[sp + 1..];
        let mut r = String::new();
        for n in a..b { r.push_str(&body.replace("@i@", &n.to_string()).replace("@i+1@", &(n + 1).to_string()).replace("@i-1@", &(n as i64 - 1).to_string())); }
        t.replace_range(i..j + 5, &r);
    }
    t
}
impl FnC {
    fn map(&self, f: &dyn Fn(&str) -> String) -> FnC {
        let mut c = self.clone();
        c.spec = f(&c.spec); c.entry = f(&c.entry); c.tail = f(&c.tail);
        for a in c.attrs.iter_mut() { *a = f(a); }
        for l in c.loops.values_mut() { for x in l.iter_mut() { *x = f(x); } }
        for l in c.calls.iter_mut() { l.3 = f(&l.3); }
        for l in c.nested.values_mut() { *l = f(l); }
        c
    }
}
fn expand_templates(c: &mut Contracts) {
    let fns = std::mem::take(&mut c.fns);
    for (k, f) in fns {
        for (k2, v) in expand_key(&k) { if c.fns.insert(k2.clone(), f.map(&|t| subst(t, &v))).is_some() { panic!("duplicate contract {}", k2); } }
    }
    let extra = std::mem::take(&mut c.extra);
    for (k, t) in extra { for (k2, v) in expand_key(&k) { c.extra.insert(k2, subst(&t, &v)); } }
}

fn replace_word(t: &str, w: &str, by: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut i = 0;
    while let Some(k) = t[i..].find(w) {
        let k = i + k;
        let before = t[..k].chars().next_back().map_or(false, id);
        let after = t[k + w.len()..].chars().next().map_or(false, id);
        out.push_str(&t[i..k]);
        out.push_str(if before || after { w } else { by });
        i = k + w.len();
    }
    out.push_str(&t[i..]);
    out
}

/// a name of the module the text comes from, where it is the first segment of a path
fn qualify(t: &str, w: &str, home: &str) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_' || c == ':' || c == '.';
    let mut out = String::new();
    let mut i = 0;
    while let Some(k) = t[i..].find(w) {
        let k = i + k;
        let before = t[..k].chars().next_back().map_or(false, id);
        let after = t[k + w.len()..].chars().next().map_or(false, |c| c.is_alphanumeric() || c == '_');
        out.push_str(&t[i..k]);
        if !before && !after { out.push_str(&format!("crate::{}::", home)); }
        out.push_str(w);
        i = k + w.len();
    }
    out.push_str(&t[i..]);
    out
}

fn parse_contracts(dir: &str, skip: &BTreeSet<String>) -> Contracts {
    let mut c = Contracts::default();
    let mut names: Vec<_> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let ext = p.extension().and_then(|e| e.to_str()).unwrap_or("").to_owned();
        let text = if ext == "vrs" || ext == "contract" { fs::read_to_string(&p).unwrap() } else { continue };
        if ext == "vrs" && text.lines().next().and_then(|l| l.strip_prefix("// needs module ")).map_or(false, |m| skip.contains(m.trim())) { continue; }
        if ext == "vrs" { c.prelude.push_str(&text); c.prelude.push('\n'); continue; }
        enum S { None, Mod(String), Fn(String, String), Extra(String) }
        let mut s = S::None;
        // `//@@ def NAME` .. is kept aside; `//@ include NAME [A=>B]..` stands for that text, with A replaced by B
        let mut defs: BTreeMap<String, String> = BTreeMap::new();
        let mut lines: Vec<String> = vec![];
        let mut cur: Option<String> = None;
        for line in text.lines() {
            if let Some(r) = line.strip_prefix("//@@ ") {
                cur = None;
                if let Some(n) = r.strip_prefix("def ") { let n = n.trim().to_owned(); defs.insert(n.clone(), String::new()); cur = Some(n); continue; }
            }
            if let Some(r) = line.trim_start().strip_prefix("//@ include ") {
                let mut it = r.splitn(2, ' ');
                let n = it.next().unwrap().trim();
                let mut t = defs.get(n).unwrap_or_else(|| panic!("no definition {}", n)).clone();
                for a in it.next().unwrap_or("").split(";;").map(|a| a.trim()).filter(|a| !a.is_empty()) {
                    let (x, y) = a.split_once("=>").unwrap_or_else(|| panic!("bad include {}", line));
                    t = t.replace(x.trim(), y.trim());
                }
                match &cur { Some(n) => defs.get_mut(n).unwrap().push_str(&t), None => lines.extend(t.lines().map(|l| l.to_owned())) }
                continue;
            }
            if let Some(n) = &cur { let d = defs.get_mut(n).unwrap(); d.push_str(line); d.push('\n'); continue; }
            lines.push(line.to_owned());
        }
        for line in lines.iter().map(|l| l.as_str()) {
            if let Some(r) = line.strip_prefix("//@@ ") {
                let w: Vec<&str> = r.split_whitespace().collect();
                match w[0] {
                    "module" => { if w.get(2) == Some(&"own") { c.own.insert(w[1].into()); } c.order.push(w[1].into()); c.modules.insert(w[1].into(), (String::new(), None)); s = S::Mod(w[1].into()); }
                    "fn" => {
                        let mut f = FnC::default();
                        f.file = p.file_name().unwrap().to_str().unwrap().into();
                        for x in &w[2..] { if let Some(pr) = x.strip_prefix("props=") { f.props = pr.split(',').map(|s| s.to_owned()).collect(); } }
                        if c.fns.insert(w[1].into(), f).is_some() { panic!("duplicate contract {}", w[1]); }
                        s = S::Fn(w[1].into(), "spec".into());
                    }
                    "trait" | "impl" | "text" | "supers" => { s = S::Extra(format!("{} {}", w[0], w[1])); }
                    "end" => s = S::None,
                    x => panic!("bad directive {}", x),
                }
                continue;
            }
            if let Some(r) = line.trim_start().strip_prefix("//@ ") {
                let w: Vec<&str> = r.split_whitespace().collect();
                match &mut s {
                    S::Mod(m) if w[0] == "only" => {
                        let e = c.modules.get_mut(m.as_str()).unwrap();
                        e.1.get_or_insert_with(Default::default).extend(w[1..].iter().map(|s| s.to_string()));
                    }
                    S::Fn(k, mode) => {
                        let f = c.fns.get_mut(k.as_str()).unwrap();
                        match w[0] {
                            "ret" => f.ret = Some(w[1].into()),
                            "attr" => f.attrs.push(r[4..].trim().into()),
                            "external" => f.external = true,
                            "drop" => f.drop = true,
                            "nocopy" => f.nocopy = true,
                            "needs" => { f.nocopy = true; f.needs = Some(r.trim()[5..].trim().into()) }
                            "free" => f.free = Some(r.trim()[4..].trim().into()),
                            _ => *mode = r.trim().to_owned(),
                        }
                    }
                    _ => panic!("bad directive {}", line),
                }
                continue;
            }
            match &mut s {
                S::None => {}
                S::Mod(m) => { let e = c.modules.get_mut(m.as_str()).unwrap(); e.0.push_str(line); e.0.push('\n'); }
                S::Extra(k) => { let e = c.extra.entry(k.clone()).or_default(); e.push_str(line); e.push('\n'); }
                S::Fn(k, mode) => {
                    let f = c.fns.get_mut(k.as_str()).unwrap();
                    let w: Vec<&str> = mode.split_whitespace().collect();
                    let t = match w[0] {
                        "spec" => &mut f.spec,
                        "entry" => &mut f.entry,
                        "nested" => f.nested.entry(w[1].into()).or_default(),
                        "tail" => &mut f.tail,
                        "loop" => {
                            let i: usize = w[1].parse().unwrap();
                            let j = match w.get(2).copied() { None => 0, Some("head") => 1, Some("tail") => 2, Some("after") => 3, Some("before") => 4, Some("arm") => 5, _ => panic!("bad {}", mode) };
                            &mut f.loops.entry(i).or_default()[j]
                        }
                        "after-call" | "before-call" => {
                            let k: usize = if w[2] == "*" { usize::MAX } else { w[2].parse().unwrap() };
                            let a = w[0] == "after-call";
                            if !f.calls.iter().any(|x| x.0 == w[1] && x.1 == k && x.2 == a) { f.calls.push((w[1].into(), k, a, String::new())); }
                            &mut f.calls.iter_mut().find(|x| x.0 == w[1] && x.1 == k && x.2 == a).unwrap().3
                        }
                        x => panic!("bad mode {}", x),
                    };
                    t.push_str(line);
                    t.push('\n');
                }
            }
        }
    }
    c
}

struct Ed { edits: Vec<(usize, usize, i32, String)>, n: i32 }
impl Ed {
    fn rep(&mut self, s: usize, e: usize, t: impl Into<String>) { self.n += 1; self.edits.push((s, e, self.n, t.into())); }
    fn ins(&mut self, at: usize, t: impl Into<String>) { self.rep(at, at, t) }
}
fn br<T: Spanned>(t: &T) -> (usize, usize) { let r = t.span().byte_range(); (r.start, r.end) }

fn ty_key(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => format!("ref{}_{}", if r.mutability.is_some() { "mut" } else { "" }, ty_key(&r.elem)),
        syn::Type::Tuple(t) => format!("tuple{}", t.elems.len()),
        syn::Type::Slice(_) => "slice".into(),
        syn::Type::Array(a) => format!("array{}", toks(&a.len).chars().take_while(|c| c.is_ascii_digit()).collect::<String>()),
        _ => "other".into(),
    }
}
fn toks<T: quote::ToTokens>(t: &T) -> String { t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join(" ") }

const DROP_TRAITS: &[&str] = &["Debug", "Display", "Error", "Hash", "PartialOrd", "Ord", "Eq", "PartialEq", "StructuralPartialEq", "TrivialClone", "Clone", "Copy", "Default"];

struct Ctx<'a> {
    src: &'a str,
    c: &'a Contracts,
    known_fns: BTreeSet<String>,
    report: BTreeMap<String, J>,
    lost: Vec<String>,
    module: String,
    assume: BTreeSet<String>,
    canary: bool,
    drop_types: BTreeSet<String>,
    under: Option<String>, defaults: Vec<(String, &'a syn::TraitItemFn)>,
    trait_fns: std::collections::BTreeMap<String, Vec<String>>,
    home: BTreeMap<String, String>,
}

/// modules whose functions pass the ghost heap (the values of the limit counters' cells) along
const HP_MODULES: &[&str] = &["de", "adapt", "retrofit", "unknown", "msample"];
const HP_CALLS: &[&str] = &["imp", "dv", "top", "finish", "deserialize_body", "deserialize_field", "deserialize_element", "deserialize_vec", "deserialize_slice"];
const HP_METHODS: &[&str] = &["collect", "blob", "get", "set"];
fn hp_call(c: &syn::ExprCall) -> bool {
    if let syn::Expr::Path(p) = &*c.func {
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let l = segs.last().unwrap();
        return HP_CALLS.contains(&l.as_str()) || l.starts_with("deserialize_array_") || (l == "default" && segs.len() == 2 && segs[0] == "ContextStats");
    }
    false
}
struct MentionsContext(bool);
impl<'ast> Visit<'ast> for MentionsContext {
    fn visit_path_segment(&mut self, s: &'ast syn::PathSegment) { if s.ident == "Context" { self.0 = true; } visit::visit_path_segment(self, s) }
}
struct HasHpCall(bool);
impl<'ast> Visit<'ast> for HasHpCall {
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) { if hp_call(c) { self.0 = true; } visit::visit_expr_call(self, c) }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) { if HP_METHODS.contains(&c.method.to_string().as_str()) { self.0 = true; } visit::visit_expr_method_call(self, c) }
}
/// does this function get the ghost heap as a parameter?
fn takes_heap(sig: &syn::Signature) -> bool {
    let mut m = MentionsContext(false);
    for i in &sig.inputs { if let syn::FnArg::Typed(t) = i { m.visit_type(&t.ty); } }
    m.0 || ["collect", "blob", "top"].contains(&sig.ident.to_string().as_str())
}
fn sig_heap(ed: &mut Ed, sig: &syn::Signature) {
    let at = sig.paren_token.span.close().byte_range().start;
    ed.ins(at, format!("{}Tracked(hp): Tracked<&mut crate::vio::Heap>", if sig.inputs.is_empty() { "" } else { ", " }));
}
/// `Context::stats`, the only field holding a `Cow`
fn is_stats(e: &syn::Expr) -> bool { matches!(e, syn::Expr::Field(f) if matches!(&f.member, syn::Member::Named(n) if n == "stats")) }
/// edits inside types / bodies that do not depend on the function
struct BodyV<'a> { ed: &'a mut Ed, known: &'a BTreeSet<String>, src: &'a str, ty: String, hp: bool, nested: BTreeMap<String, String> }
impl<'a, 'ast> Visit<'ast> for BodyV<'a> {
    fn visit_type_bare_fn(&mut self, t: &'ast syn::TypeBareFn) {
        let (s, e) = br(t);
        let x = if t.inputs.len() == 1 { "crate::stream::CommitOp" } else { "crate::stream::SeekOp" };
        self.ed.rep(s, e, x);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let last = p.segments.last().unwrap();
        if last.ident == "AsRef" || last.ident == "AsMut" {
            let t = toks(&last.arguments);
            if t.replace(' ', "") == "<[u8]>" {
                let (s, e) = br(p);
                self.ed.rep(s, e, format!("crate::vio::{}U8", last.ident));
                return;
            }
        }
        if p.leading_colon.is_some() && p.segments.len() == 3 && p.segments[0].ident == "std" && p.segments[1].ident == "io" {
            let (s, e) = br(p);
            self.ed.rep(s, e, format!("crate::vio::{}", last.ident));
            return;
        }
        if self.hp {
            for (i, g) in p.segments.iter().enumerate() {
                let (s, e) = br(&g.ident);
                if g.ident == "Default" { self.ed.rep(s, e, "crate::vio::VDefault"); }
                else if g.ident == "default" && i + 1 == p.segments.len() && i > 0 { self.ed.rep(s, e, "vdefault"); }
            }
        }
        visit::visit_path(self, p)
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        if self.hp {
            if let syn::Type::Path(p) = t {
                let l = p.path.segments.last().unwrap();
                if l.ident == "Box" && toks(&l.arguments).contains("Send + Sync") { let (s, e) = br(t); self.ed.rep(s, e, "crate::vio::BoxErr"); return; }
            }
        }
        visit::visit_type(self, t)
    }
    // what a `Cow` field derefs to, spelled out
    fn visit_expr_field(&mut self, f: &'ast syn::ExprField) {
        if self.hp { if is_stats(&f.base) { let (s, e) = br(&*f.base); self.ed.ins(s, "crate::dspec::cow_deref(&"); self.ed.ins(e, ")"); } }
        visit::visit_expr_field(self, f)
    }
    fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
        // `&*self` of a `Cow` is its `Deref`
        if self.ty == "Cow" && r.mutability.is_none() && toks(&r.expr) == "* self" { let (s, e) = br(r); self.ed.rep(s, e, "crate::vio::cow_borrow(self)"); return; }
        visit::visit_expr_reference(self, r)
    }
    fn visit_expr_unary(&mut self, u: &'ast syn::ExprUnary) {
        if self.hp && matches!(u.op, syn::UnOp::Deref(_)) && is_stats(&u.expr) { let (s, e) = br(&*u.expr); self.ed.ins(s, "crate::dspec::cow_deref(&"); self.ed.ins(e, ")"); }
        visit::visit_expr_unary(self, u)
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        if self.hp && takes_heap(&f.sig) { sig_heap(self.ed, &f.sig); }
        if let syn::ReturnType::Type(_, t) = &f.sig.output { let (s, e) = br(t); self.ed.ins(s, "(ret: "); self.ed.ins(e, ")"); }
        if let Some(t) = self.nested.get(&f.sig.ident.to_string()) { let (s, _) = br(&*f.block); self.ed.ins(s, format!("\n{} ", t)); }
        visit::visit_item_fn(self, f)
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        // the pattern of a while-let is copied by do_fn
        if let syn::Expr::Let(l) = &*w.cond { self.visit_expr(&l.expr); self.visit_block(&w.body); }
        else { visit::visit_expr_while(self, w) }
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if self.hp {
            if hp_call(c) {
                let at = c.paren_token.span.close().byte_range().start;
                self.ed.ins(at, if c.args.is_empty() { "Tracked(&mut *hp)" } else { ", Tracked(&mut *hp)" });
            }
            if let syn::Expr::Path(p) = &*c.func {
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs.len() >= 2 && segs[segs.len() - 2] == "ResultExt" && segs[segs.len() - 1] == "context" {
                    let (s, e) = br(&*c.func);
                    self.ed.rep(s, e, "crate::dspec::ctx");
                    for a in &c.args { self.visit_expr(a); }
                    return;
                }
                if segs.last().unwrap() == "InvalidValue" {
                    for a in &c.args {
                        if let syn::Expr::Call(b) = a { if toks(&b.func) == "Box :: new" { let (s, e) = br(&*b.func); self.ed.rep(s, e, "crate::vio::box_err"); self.visit_expr(&b.args[0]); continue; } }
                        self.visit_expr(a);
                    }
                    return;
                }
            }
        }
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.iter().any(|s| s == "panicking" || s == "panic_fmt") {
                let (s, e) = br(c);
                self.ed.rep(s, e, "crate::vio::vpanic()");
                return;
            }
            if segs.len() == 2 && segs[0] == "String" && segs[1] == "from_utf8_lossy" {
                let (s, e) = br(&*c.func);
                self.ed.rep(s, e, "crate::vio::lossy_owned");
            }
            // a call through a local variable of fn-pointer type
            if segs.len() == 1 && p.qself.is_none() && !self.known.contains(&segs[0]) && segs[0].chars().next().unwrap().is_lowercase() {
                let (_, e) = br(&*c.func);
                self.ed.ins(e, ".call");
            }
        }
        // fields holding a fn pointer:  (x.0)(..)
        if let syn::Expr::Paren(p) = &*c.func {
            if let syn::Expr::Field(_) = &*p.expr { let (_, e) = br(&*c.func); self.ed.ins(e, ".call"); }
        }
        for a in &c.args {
            if let syn::Expr::Path(p) = a {
                let (s, e) = br(p);
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if p.qself.is_some() && segs.last().unwrap() == "seek" { self.ed.rep(s, e, "crate::stream::SeekOp::seek"); }
                else if segs.len() == 2 && (segs[0] == "Self" || segs[0] == "Stream") && segs[1].chars().next().unwrap().is_lowercase() {
                    self.ed.rep(s, e, format!("crate::stream::CommitOp::{}", segs[1]));
                }
            }
        }
        visit::visit_expr_call(self, c)
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if self.hp {
            let n = m.method.to_string();
            let (ms, me) = br(m);
            let (_, re) = br(&*m.receiver);
            if HP_METHODS.contains(&n.as_str()) {
                let at = m.paren_token.span.close().byte_range().start;
                self.ed.ins(at, if m.args.is_empty() { "Tracked(&mut *hp)" } else { ", Tracked(&mut *hp)" });
            }
            if n == "context" && m.args.len() == 1 {
                let (as_, _) = br(&m.args[0]);
                self.ed.ins(ms, "crate::dspec::ctx(");
                self.ed.rep(re, as_, ", ");
                self.visit_expr(&m.receiver);
                self.visit_expr(&m.args[0]);
                return;
            }
            // conversions from an error to itself
            if (n == "into" && m.args.is_empty()) || (n == "map_err" && m.args.len() == 1 && toks(&m.args[0]) == "Error :: from") {
                self.ed.rep(re, me, "");
                self.visit_expr(&m.receiver);
                return;
            }
        }
        if m.method == "into_owned" {
            if let syn::Expr::Call(c) = &*m.receiver {
                if toks(&c.func).ends_with("from_utf8_lossy") {
                    let (_, e) = br(&*m.receiver); let (_, e2) = br(m);
                    self.ed.rep(e, e2, "");
                }
            }
        }
        if m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                let name = m.method.to_string();
                let simple = { let mut f = Esc(false); f.visit_expr(&c.body); !f.0 };
                let pat = c.inputs.first().map(|p| { let (s, e) = br(p); self.src[s..e].to_owned() });
                // std's own definition of the combinator, inlined
                let arms = match (name.as_str(), &pat, simple) {
                    ("ok_or_else", None, true) => Some(("Some(v__) => Ok(v__), None => Err(".to_owned(), ")")),
                    ("map_err", Some(p), true) => Some((format!("Ok(v__) => Ok(v__), Err({}) => Err(", p), ")")),
                    ("map", Some(p), true) => Some((format!("Err(e__) => Err(e__), Ok({}) => Ok(", p), ")")),
                    ("and_then", Some(p), true) => Some((format!("Err(e__) => Err(e__), Ok({}) => (", p), ")")),
                    _ => None,
                };
                if let Some((pre, post)) = arms {
                    let (ms, me) = br(m);
                    let (_, re) = br(&*m.receiver);
                    let (bs, be) = br(&*c.body);
                    self.ed.ins(ms, "(match ");
                    self.ed.rep(re, bs, format!(" {{ {}", pre));
                    self.ed.rep(be, me, format!("{} }})", post));
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        if m.method == "map_err" && m.args.len() == 1 {
            if let syn::Expr::Path(p) = &m.args[0] {
                let (s, e) = br(p);
                let (ms, me) = br(m);
                let (_, re) = br(&*m.receiver);
                let f = self.src[s..e].to_owned();
                self.ed.ins(ms, "(match ");
                self.ed.rep(re, me, format!(" {{ Ok(v__) => Ok(v__), Err(e__) => Err({}(e__)) }})", f));
                self.visit_expr(&m.receiver);
                return;
            }
        }
        if m.method == "map" && m.args.len() == 1 {
            if let syn::Expr::Path(p) = &m.args[0] {
                let (s, e) = br(p);
                let (ms, me) = br(m);
                let (_, re) = br(&*m.receiver);
                let ctor = self.src[s..e].to_owned();
                self.ed.ins(ms, "(match ");
                self.ed.rep(re, me, format!(" {{ Ok(v__) => Ok({}(v__)), Err(e__) => Err(e__) }})", ctor));
                self.visit_expr(&m.receiver);
                return;
            }
        }
        visit::visit_expr_method_call(self, m)
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let (s, e) = br(&*l.expr);
        let t = self.src[s..e].to_owned();
        if t == "self" || t == "self.iter()" || t.starts_with('&') {
            if self.ty == "slice" || t.starts_with('&') { self.ed.ins(s, "it__: "); }
            else { self.ed.rep(s, e, "it__: crate::vio::viter(self)"); }
        }
        // a reference pattern over a tuple of names (Verus has none): the same names, bound in the body
        if let syn::Pat::Reference(r) = &*l.pat { if let syn::Pat::Tuple(tp) = &*r.pat {
            let ids: Option<Vec<_>> = tp.elems.iter().map(|p| match p { syn::Pat::Ident(i) if i.subpat.is_none() && i.mutability.is_none() => Some((i.ident.to_string(), i.by_ref.is_some())), _ => None }).collect();
            if let Some(ids) = ids {
                let (ps, pe) = br(&*l.pat);
                self.ed.rep(ps, pe, "e__");
                let (bs, _) = br(&l.body);
                let lets: String = ids.iter().enumerate().map(|(n, (i, r))| format!(" let {} = {}e__.{};", i, if *r { "&" } else { "" }, n)).collect();
                self.ed.ins(bs + 1, lets);
            }
        } }
        visit::visit_expr_for_loop(self, l)
    }
    fn visit_item_const(&mut self, i: &'ast syn::ItemConst) {
        let (s, e) = br(&i.const_token);
        self.ed.rep(s, e, "let");
        visit::visit_item_const(self, i)
    }
    fn visit_item_use(&mut self, i: &'ast syn::ItemUse) {
        if let syn::UseTree::Path(p) = &i.tree {
            if p.ident == "wire" || p.ident == "stream" || p.ident == "io" { let (s, _) = br(p); self.ed.ins(s, "crate::"); }
        }
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = br(a);
        if !self.src[s..e].starts_with("//") && !self.src[s..e].starts_with("/*") { self.ed.rep(s, e, ""); }
    }
}

/// does an expression leave the closure it is in?
struct Esc(bool);
impl<'ast> Visit<'ast> for Esc {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) { self.0 = true; }
    fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

#[derive(Default)]
struct Shape { stack: Vec<(usize, String)>, conts: Vec<(usize, usize, usize)>, wl: BTreeMap<usize, (usize, usize, usize, usize)>, loops: Vec<(usize, usize, usize, String)>, calls: Vec<(String, usize, usize, bool)>, callees: BTreeSet<String>, stmts: Vec<(usize, usize, bool)>, closures: usize }
impl Shape { fn enter(&mut self, l: &Option<syn::Label>) { let n = l.as_ref().map_or(String::new(), |l| l.name.ident.to_string()); self.stack.push((self.loops.len(), n)); } }
impl<'ast> Visit<'ast> for Shape {
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let (s, e) = br(&l.body); self.enter(&l.label); self.loops.push((s, e, br(l).1, "loop".into())); visit::visit_expr_loop(self, l); self.stack.pop();
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let (s, e) = br(&l.body);
        if let syn::Expr::Let(c) = &*l.cond { let (ps, pe) = br(&*c.pat); self.wl.insert(self.loops.len(), (br(l).0, br(&*c.expr).0, ps, pe)); }
        self.enter(&l.label); self.loops.push((s, e, br(l).1, format!("while {}", toks(&l.cond)))); visit::visit_expr_while(self, l); self.stack.pop();
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let (s, e) = br(&l.body); self.enter(&l.label); self.loops.push((s, e, br(l).1, format!("for {} in {}", toks(&l.pat), toks(&l.expr)))); visit::visit_expr_for_loop(self, l); self.stack.pop();
    }
    // (`continue` ends an iteration of its loop as the end of the body does)
    fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) {
        let t = c.label.as_ref().map(|l| l.ident.to_string());
        if let Some((i, _)) = self.stack.iter().rev().find(|(_, n)| t.as_ref().map_or(true, |t| t == n)) { let (s, e) = br(c); self.conts.push((*i, s, e)); }
    }
    fn visit_expr_closure(&mut self, l: &'ast syn::ExprClosure) { self.closures += 1; let st = std::mem::take(&mut self.stack); visit::visit_expr_closure(self, l); self.stack = st; }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for (i, st) in b.stmts.iter().enumerate() {
            let (s, e) = br(st);
            let tail = i + 1 == b.stmts.len() && matches!(st, syn::Stmt::Expr(_, None));
            self.stmts.push((s, e, tail));
        }
        visit::visit_block(self, b)
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        visit::visit_expr_call(self, c);
        if let syn::Expr::Path(p) = &*c.func {
            let n = p.path.segments.last().unwrap().ident.to_string();
            self.callees.insert(n.clone());
            let (s, e) = br(c); self.calls.push((n, s, e, false));
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        let n = m.method.to_string();
        self.callees.insert(n.clone());
        let (s, e) = br(m); self.calls.push((n, s, e, false));
    }
}

impl<'a> Ctx<'a> {
    fn vis(&self, ed: &mut Ed, v: &syn::Visibility, at: usize) {
        match v {
            syn::Visibility::Inherited => ed.ins(at, "pub "),
            syn::Visibility::Public(_) => {}
            v => { let (s, e) = br(v); ed.rep(s, e, "pub"); }
        }
    }
    fn attrs(&self, ed: &mut Ed, attrs: &[syn::Attribute], keep_repr: bool) {
        for a in attrs {
            if keep_repr && a.path().is_ident("repr") { continue; }
            let (s, e) = br(a);
            if self.src[s..e].starts_with("//") || self.src[s..e].starts_with("/*") { continue; }
            ed.rep(s, e, "");
        }
    }
    fn generics(&self, ed: &mut Ed, g: &syn::Generics) {
        for p in &g.params {
            if let syn::GenericParam::Type(t) = p {
                let n = t.ident.to_string();
                if !["R", "W", "I"].contains(&n.as_str()) { continue; }
                if t.bounds.is_empty() { let (_, e) = br(&t.ident); ed.ins(e, " : crate::vio::Dev"); }
                else if t.bounds.iter().all(|b| matches!(b, syn::TypeParamBound::Lifetime(_))) {
                    let (s, _) = br(&t.bounds); ed.ins(s, "crate::vio::Dev + ");
                }
            }
        }
    }
    fn do_fn(&mut self, ed: &mut Ed, key: &str, sig: &syn::Signature, vis: Option<&syn::Visibility>, attrs: &[syn::Attribute], block: Option<&syn::Block>, whole: (usize, usize)) {
        let fc = self.c.fns.get(key).cloned();
        let covered = fc.is_some();
        let mut fc = fc.unwrap_or_default();
        let assumed = block.is_some() && self.assume.contains(key);
        // a function nobody wrote a contract for (a helper added since) is opaque to its callers
        if assumed || (!covered && block.is_some()) { fc.external = true; }
        if self.canary && covered && !fc.external { fc.entry = format!("proof {{ assert(false); }}\n{}", fc.entry); }
        if fc.drop {
            ed.rep(whole.0, whole.1, "");
            self.report.insert(key.into(), json!({"status": "dropped", "props": fc.props, "text": toks_hash(&self.src[whole.0..whole.1])}));
            return;
        }
        self.attrs(ed, attrs, false);
        if let Some(p) = self.under.take() { fc.entry = format!("proof {{ assume({}); /* proved for every impl that inherits this method (::inherits) */ }}\n{}", p, fc.entry); }
        let sig_start = br(sig).0;
        let first = match vis { Some(syn::Visibility::Inherited) | None => sig_start, Some(v) => br(v).0 };
        ed.ins(first, format!("/*@begin {}*/ ", key));
        for a in &fc.attrs { ed.ins(first, format!("{} ", a)); }
        if fc.external { ed.ins(first, "#[verifier::external_body] "); }
        if let Some(v) = vis { self.vis(ed, v, sig_start); }
        self.generics(ed, &sig.generics);
        let hp = HP_MODULES.contains(&self.module.as_str());
        if hp {
            if takes_heap(sig) { sig_heap(ed, sig); }
            else if let Some(b) = block {
                let mut h = HasHpCall(false);
                h.visit_block(b);
                if h.0 { fc.entry = format!("let tracked mut hp__ = crate::vio::Heap::fresh(); let tracked hp = &mut hp__;\n{}", fc.entry); }
            }
            if sig.ident == "default" { let (s, e) = br(&sig.ident); ed.rep(s, e, "vdefault"); }
        }
        for (i, a) in sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(t) = a { if let syn::Pat::Wild(w) = &*t.pat { let (s, e) = br(w); ed.rep(s, e, format!("arg{}__", i)); } }
        }
        let has_ret = match &sig.output {
            syn::ReturnType::Type(_, t) => { let (s, e) = br(t); ed.ins(s, format!("({}: ", fc.ret.clone().unwrap_or("ret".into()))); ed.ins(e, ")"); true }
            _ => false,
        };
        let _ = has_ret;
        let mut sh = Shape::default();
        let known = self.known_fns.clone();
        {
            let mut v = BodyV { ed, known: &known, src: self.src, ty: key.split("::").nth(1).unwrap_or("").into(), hp, nested: fc.nested.clone() };
            v.visit_signature(sig);
            if !fc.external { if let Some(b) = block { v.visit_block(b); } }
        }
        let mut anchors_lost = vec![];
        if let Some(b) = block {
            sh.visit_block(b);
            let (bs, be) = br(b);
            ed.ins(bs, format!("\n{} ", fc.spec));
            if fc.external {
                ed.rep(bs + 1, be - 1, " unimplemented!() ");
            } else {
                if !fc.entry.is_empty() { ed.ins(bs + 1, format!("\n{}", fc.entry)); }
                if !fc.tail.is_empty() {
                    match b.stmts.last() { Some(st) => { let (s, _) = br(st); ed.ins(s, format!("\n{}", fc.tail)); } None => ed.ins(be - 1, format!("\n{}", fc.tail)) }
                }
                for (i, w) in &sh.wl {
                    // `while let P = E { .. }` is `loop { match E { P => { .. }, _ => break } }`
                    let l = &sh.loops[*i];
                    let t = fc.loops.get(i).cloned().unwrap_or_default();
                    ed.rep(w.0, w.1, format!("loop\n{} {{\n{}match ", t[0], t[1]));
                    ed.ins(l.0, format!(" {{ {} => ", &self.src[w.2..w.3]));
                    if !t[5].is_empty() { ed.ins(l.0 + 1, format!("\n{}", t[5])); }
                    if !t[2].is_empty() { ed.ins(l.1 - 1, format!("\n{}", t[2])); }
                    ed.ins(l.1, " _ => break } }");
                    if !t[3].is_empty() { ed.ins(l.1, format!("\n{}", t[3])); }
                    if !t[4].is_empty() {
                        if let Some(s) = sh.stmts.iter().filter(|s| s.0 <= w.0 && l.1 <= s.1).min_by_key(|s| s.1 - s.0) { ed.ins(s.0, format!("\n{}", t[4])); }
                    }
                }
                for (i, s, e) in &sh.conts {
                    if let Some(t) = fc.loops.get(i) { if !t[2].is_empty() { ed.ins(*s, format!("{{ {}\n", t[2])); ed.ins(*e, " }"); } }
                }
                for (i, t) in &fc.loops {
                    if sh.wl.contains_key(i) { continue; }
                    match sh.loops.get(*i) {
                        None => anchors_lost.push(format!("loop {}", i)),
                        Some(l) => {
                            if !t[0].is_empty() { ed.ins(l.0, format!("\n{} ", t[0])); }
                            if !t[1].is_empty() { ed.ins(l.0 + 1, format!("\n{}", t[1])); }
                            if !t[2].is_empty() { ed.ins(l.1 - 1, format!("\n{}", t[2])); }
                            if !t[3].is_empty() { ed.ins(l.2, format!("\n{}", t[3])); }
                            if !t[4].is_empty() {
                                if let Some(s) = sh.stmts.iter().filter(|s| s.0 < l.0 && l.1 <= s.1).min_by_key(|s| s.1 - s.0) { ed.ins(s.0, format!("\n{}", t[4])); }
                                else { anchors_lost.push(format!("before loop {}", i)); }
                            }
                        }
                    }
                }
                for (n, k, after, text) in &fc.calls {
                    let cs: Vec<_> = sh.calls.iter().filter(|c| &c.0 == n).collect();
                    let which: Vec<_> = if *k == usize::MAX { cs.iter().map(|c| Some(*c)).collect() } else { vec![cs.get(*k).copied()] };
                    for c in which { match c {
                        None => anchors_lost.push(format!("call {} {}", n, k)),
                        Some(c) => {
                            // innermost statement containing the call
                            let st = sh.stmts.iter().filter(|s| s.0 <= c.1 && c.2 <= s.1).min_by_key(|s| s.1 - s.0);
                            match st {
                                Some(s) if *after && !s.2 => ed.ins(s.1, format!("\n{}", text)),
                                Some(s) if !*after => ed.ins(s.0, format!("\n{}", text)),
                                _ => anchors_lost.push(format!("call {} {}", n, k)),
                            }
                        }
                    } }
                }
            }
            ed.ins(be, format!("/*@end {}*/", key));
        } else {
            // trait method declaration without a body: contract goes before the `;`
            let e = whole.1 - 1;
            ed.ins(e, format!("\n{} ", fc.spec));
            ed.ins(whole.1, format!("/*@end {}*/", key));
        }
        self.report.insert(key.into(), json!({
            "status": if !covered { "uncontracted" } else if assumed { "assumed" } else if fc.external { "external" } else { "contract" },
            "props": fc.props, "sig": toks(sig), "loops": sh.loops.iter().map(|l| l.3.clone()).collect::<Vec<_>>(),
            "callees": sh.callees, "anchors_lost": anchors_lost, "closures": sh.closures, "file": fc.file,
            "text": toks_hash(&block.map(|b| toks(b)).unwrap_or_default()),
            "spec": toks_hash(&fc.spec),
        }));
    }

    fn module(&mut self, m: &'a syn::ItemMod, out: &mut String) {
        let name = m.ident.to_string();
        let (header, only) = { let h = &self.c.modules[&name]; (h.0.clone(), h.1.clone()) };
        self.module = name.clone();
        out.push_str(&format!("pub mod {} {{\n{}\n", name, header));
        for (k, t) in &self.c.extra { if let Some(r) = k.strip_prefix("text ") { if r.split("::").next() == Some(name.as_str()) && !self.drop_types.contains(r.rsplit_once("::").map_or(r, |x| x.0)) { out.push_str(t); out.push('\n'); } } }
        let items = &m.content.as_ref().unwrap().1;
        // which derives to re-add
        let mut derives: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for it in items {
            if let syn::Item::Impl(i) = it {
                if let Some((_, p, _)) = &i.trait_ {
                    let t = p.segments.last().unwrap().ident.to_string();
                    if i.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) && (t == "Copy" || t == "Clone")
                        && !self.c.extra.get(&format!("impl {}::{}::{}", name, ty_key(&i.self_ty), t)).map_or(false, |x| x.trim() == "drop") {
                        derives.entry(ty_key(&i.self_ty)).or_default().push(t);
                    }
                }
            }
        }
        let sel = |n: &str| only.as_ref().map_or(true, |o| o.contains(n));
        for it in items {
            let (s, e) = br(it);
            let mut ed = Ed { edits: vec![], n: 0 };
            let mut free = String::new();
            match it {
                syn::Item::Use(_) | syn::Item::Macro(_) | syn::Item::Mod(_) => continue,
                syn::Item::Fn(f) => {
                    let n = f.sig.ident.to_string();
                    if !sel(&n) { continue; }
                    let key = format!("{}::{}", name, n);
                    self.do_fn(&mut ed, &key, &f.sig, Some(&f.vis), &f.attrs, Some(&f.block), (s, e));
                }
                syn::Item::Struct(st) => {
                    if !sel(&st.ident.to_string()) { continue; }
                    self.attrs(&mut ed, &st.attrs, true);
                    let at = br(&st.struct_token).0;
                    if let Some(d) = derives.get(&st.ident.to_string()) {
                        let f = if matches!(st.vis, syn::Visibility::Inherited) { at } else { br(&st.vis).0 };
                        ed.ins(f, format!("#[derive({})] ", d.join(", ")));
                    }
                    self.vis(&mut ed, &st.vis, at);
                    for f in &st.fields {
                        self.attrs(&mut ed, &f.attrs, false);
                        let at = f.ident.as_ref().map(|i| br(i).0).unwrap_or(br(&f.ty).0);
                        self.vis(&mut ed, &f.vis, at);
                        BodyV { ed: &mut ed, known: &self.known_fns, src: self.src, ty: String::new(), hp: HP_MODULES.contains(&self.module.as_str()), nested: Default::default() }.visit_type(&f.ty);
                    }
                }
                syn::Item::Enum(en) => {
                    if !sel(&en.ident.to_string()) { continue; }
                    self.attrs(&mut ed, &en.attrs, true);
                    let at = br(&en.enum_token).0;
                    if let Some(d) = derives.get(&en.ident.to_string()) {
                        let f = if matches!(en.vis, syn::Visibility::Inherited) { at } else { br(&en.vis).0 };
                        ed.ins(f, format!("#[derive({})] ", d.join(", ")));
                    }
                    self.vis(&mut ed, &en.vis, at);
                    for v in &en.variants { self.attrs(&mut ed, &v.attrs, false);
                        for f in &v.fields { BodyV { ed: &mut ed, known: &self.known_fns, src: self.src, ty: String::new(), hp: HP_MODULES.contains(&name.as_str()), nested: Default::default() }.visit_type(&f.ty); } }
                    BodyV { ed: &mut ed, known: &self.known_fns, src: self.src, ty: String::new(), hp: HP_MODULES.contains(&name.as_str()), nested: Default::default() }.visit_generics(&en.generics);
                }
                syn::Item::Impl(im) => {
                    if self.drop_types.contains(&format!("{}::{}", name, ty_key(&im.self_ty))) { continue; }
                    let tk = ty_key(&im.self_ty);
                    if !sel(&tk) { continue; }
                    let tn = im.trait_.as_ref().map(|(_, p, _)| {
                        let l = p.segments.last().unwrap();
                        let mut n = l.ident.to_string();
                        if let syn::PathArguments::AngleBracketed(a) = &l.arguments {
                            if let Some(syn::GenericArgument::Type(syn::Type::Path(q))) = a.args.iter().nth(1) {
                                if q.path.segments.len() == 2 && q.path.segments[0].ident == "style" { n = format!("{}@{}", n, q.path.segments[1].ident); }
                            }
                        }
                        n
                    });
                    if let Some(t) = &tn {
                        let derived = im.attrs.iter().any(|a| a.path().is_ident("automatically_derived"));
                        let keep = t == "Default" && !derived && HP_MODULES.contains(&name.as_str());
                        if DROP_TRAITS.contains(&t.as_str()) && !keep { continue; }
                        if t == "From" {
                            // only conversions between extracted types
                            let a = toks(&im.trait_.as_ref().unwrap().1);
                            if a.contains("&") { continue; }
                        }
                    }
                    let ik = match &tn { Some(t) => format!("{}::{}::{}", name, tk, t), None => format!("{}::{}", name, tk) };
                    if self.c.extra.get(&format!("impl {}", ik)).map_or(false, |t| t.trim() == "drop") { continue; }
                    let fns: Vec<_> = im.items.iter().filter_map(|i| match i { syn::ImplItem::Fn(f) => Some(f), _ => None }).collect();
                    if !fns.is_empty() && fns.iter().all(|f| self.c.fns.get(&format!("{}::{}", ik, f.sig.ident)).map_or(false, |c| c.drop)) {
                        for f in fns { let k = format!("{}::{}", ik, f.sig.ident); let p = self.c.fns[&k].props.clone(); let r = br(f);
                            self.report.insert(k, json!({"status": "dropped", "props": p, "text": toks_hash(&self.src[r.0..r.1])})); }
                        continue;
                    }
                    self.attrs(&mut ed, &im.attrs, false);
                    self.generics(&mut ed, &im.generics);
                    let inherent = self.c.extra.get(&format!("impl {}", ik)).map_or(false, |t| t.trim() == "inherent");
                    if inherent {
                        let (s, _) = br(&im.trait_.as_ref().unwrap().1);
                        let (_, e) = br(&im.trait_.as_ref().unwrap().2);
                        ed.rep(s, e, "");
                    }
                    {
                        let mut v = BodyV { ed: &mut ed, known: &self.known_fns, src: self.src, ty: String::new(), hp: HP_MODULES.contains(&self.module.as_str()), nested: Default::default() };
                        v.visit_generics(&im.generics);
                        if let Some((_, p, _)) = &im.trait_ { v.visit_path(p); }
                        v.visit_type(&im.self_ty);
                    }
                    let brace = im.brace_token.span.open().byte_range().end;
                    if let (false, Some(t)) = (inherent, self.c.extra.get(&format!("impl {}", ik))) { ed.ins(brace, format!("\n{}", t)); }
                    if let (false, Some(t)) = (inherent, tn.as_ref()) {
                        // a default method the impl inherits, written out in the impl
                        let end = im.brace_token.span.close().byte_range().start;
                        let base = t.split('@').next().unwrap().to_owned();
                        let mut inherits: BTreeSet<String> = Default::default();
                        let defs: Vec<&syn::TraitItemFn> = self.defaults.iter().filter(|d| d.0 == base).map(|d| d.1).collect();
                        for d in defs {
                            let n = d.sig.ident.to_string();
                            if fns.iter().any(|f| f.sig.ident == n) { continue; }
                            if self.c.fns.get(&format!("{}::{}::{}", self.home.get(&base).cloned().unwrap_or_default(), base, n)).map_or(false, |c| c.nocopy) {
                                if let Some(p) = self.c.fns.get(&format!("{}::{}::{}", self.home.get(&base).cloned().unwrap_or_default(), base, n)).and_then(|c| c.needs.clone()) { inherits.insert(p); }
                                continue;
                            }
                            let key = format!("{}::{}", ik, n);
                            if self.c.fns.get(&key).map_or(false, |c| c.drop) { self.report.insert(key, json!({"status": "dropped"})); continue; }
                            let (ds, de) = br(d);
                            let mut ed2 = Ed { edits: vec![], n: 0 };
                            self.do_fn(&mut ed2, &key, &d.sig, None, &d.attrs, d.default.as_ref(), (ds, de));
                            let mut t = apply(self.src, ds, de, ed2);
                            // the trait's own parameter, as this impl instantiates it
                            if let Some((_, tp, _)) = &im.trait_ {
                                if let Some(syn::PathArguments::AngleBracketed(ab)) = tp.segments.last().map(|s| &s.arguments) {
                                    if let (2, Some(a)) = (ab.args.len(), ab.args.iter().nth(1)) {
                                        let a = toks(a);
                                        if a != "STYLE" { t = replace_word(&t, "STYLE", &a); }
                                    }
                                }
                            }
                            // names imported where the trait is declared
                            if let Some(h) = self.home.get(&base) { if *h != name { for w in ["Result", "Context", "Error", "Stream"] { t = qualify(&t, w, h); } } }
                            // `Self::method` names a method of this very instance of the trait
                            if let Some((_, tp, _)) = &im.trait_ {
                                let q = toks(tp);
                                if q.contains('<') {
                                    for m in self.trait_fns.get(&base).cloned().unwrap_or_default() {
                                        t = t.replace(&format!("Self::{}(", m), &format!("<Self as {}>::{}(", q, m));
                                    }
                                }
                            }
                            ed.ins(end, format!("{}\n", t));
                        }
                        for (i, p) in inherits.iter().enumerate() {
                            // what the texts of the inherited methods were checked under
                            let key = format!("{}::inherits{}", ik, i);
                            let mut g = |a: usize, b: usize| { let mut ed2 = Ed { edits: vec![], n: 0 };
                                self.generics(&mut ed2, &im.generics);
                                let mut v = BodyV { ed: &mut ed2, known: &self.known_fns, src: self.src, ty: String::new(), hp: HP_MODULES.contains(&self.module.as_str()), nested: Default::default() };
                                v.visit_generics(&im.generics); if a == br(&*im.self_ty).0 { v.visit_type(&im.self_ty); }
                                ed2.edits.retain(|e| e.0 >= a && e.1 <= b);
                                apply(self.src, a, b, ed2) };
                            let ps = match (&im.generics.lt_token, &im.generics.gt_token) { (Some(l), Some(r)) => g(br(l).0, br(r).1), _ => String::new() };
                            let wh = im.generics.where_clause.as_ref().map_or(String::new(), |w| g(br(w).0, br(w).1));
                            let (ts, te) = br(&*im.self_ty);
                            let st = g(ts, te);
                            let mut q = p.clone();
                            if let Some((_, tp, _)) = &im.trait_ {
                                if let Some(syn::PathArguments::AngleBracketed(ab)) = tp.segments.last().map(|s| &s.arguments) {
                                    for (w, a) in ["R", "STYLE"].iter().zip(ab.args.iter()) { q = replace_word(&q, w, &toks(a)); }
                                }
                            }
                            q = replace_word(&q, "Self", &st);
                            let ext = if self.assume.contains(&key) { "#[verifier::external_body] " } else { "" };
                            free.push_str(&format!("/*@begin {}*/ {}proof fn inherits_{}_{}{}(_x: Option<{}>) {} ensures {} {{ }}/*@end {}*/\n", key, ext, br(im).0, i, ps, st, wh, q, key));
                            self.report.insert(key, json!({"status": if ext.is_empty() { "contract" } else { "assumed" }, "props": ["C16", "C19"], "loops": [], "callees": []}));
                        }
                    }
                    for ii in &im.items {
                        match ii {
                            syn::ImplItem::Fn(f) => {
                                let key = format!("{}::{}", ik, f.sig.ident);
                                let vis = if tn.is_some() && !inherent { None } else { Some(&f.vis) };
                                self.do_fn(&mut ed, &key, &f.sig, vis, &f.attrs, Some(&f.block), br(f));
                                if let Some(g) = self.c.fns.get(&key).and_then(|c| c.free.clone()) {
                                    // the same text once more, outside the impl (whose methods cannot use instances built on the impl itself)
                                    let mut ed2 = Ed { edits: vec![], n: 0 };
                                    let (fs, fe) = br(f);
                                    self.do_fn(&mut ed2, &format!("{}::free", key), &f.sig, None, &f.attrs, Some(&f.block), (fs, fe));
                                    let t = apply(self.src, fs, fe, ed2);
                                    let n = f.sig.ident.to_string();
                                    let t = t.replacen(&format!("fn {}", n), &format!("pub fn {}_{}{}", ty_key(&im.self_ty), n, g), 1);
                                    free.push_str(&replace_word(&t, "Self", &toks(&im.self_ty)));
                                    free.push('\n');
                                }
                            }
                            _ => {}
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    if !sel(&t.ident.to_string()) { continue; }
                    self.attrs(&mut ed, &t.attrs, false);
                    let brace = t.brace_token.span.open().byte_range().end;
                    let tk = format!("{}::{}", name, t.ident);
                    if let Some(x) = self.c.extra.get(&format!("trait {}", tk)) { ed.ins(brace, format!("\n{}", x)); }
                    if let Some(x) = self.c.extra.get(&format!("supers {}", tk)) {
                        match t.supertraits.last() {
                            Some(l) => { use syn::spanned::Spanned; ed.ins(l.span().byte_range().end, format!(" + {}", x.trim())) }
                            None => ed.ins(brace - 1, format!(": {} ", x.trim())),
                        }
                    }
                    for ti in &t.items {
                        if let syn::TraitItem::Type(a) = ti { self.attrs(&mut ed, &a.attrs, false);
                            let mut v = BodyV { ed: &mut ed, known: &self.known_fns, src: self.src, ty: String::new(), hp: HP_MODULES.contains(&name.as_str()), nested: Default::default() };
                            for b in &a.bounds { v.visit_type_param_bound(b); } }
                        if let syn::TraitItem::Fn(f) = ti {
                            let key = format!("{}::{}", tk, f.sig.ident);
                            let keep = self.c.fns.get(&key).map_or(false, |c| c.nocopy);
                            if f.default.is_some() { if let Some(p) = self.c.fns.get(&key).and_then(|c| c.needs.clone()) { self.under = Some(p); } }
                            match &f.default {
                                Some(b) if !keep => {
                                    // the body is checked in every impl that inherits it
                                    let (bs, be) = br(b);
                                    let (fs, _) = br(f);
                                    self.do_fn(&mut ed, &key, &f.sig, None, &f.attrs, None, (fs, bs + 1));
                                    ed.rep(bs, be, format!(";/*@end {}*/", key));
                                }
                                _ => self.do_fn(&mut ed, &key, &f.sig, None, &f.attrs, f.default.as_ref(), br(f)),
                            }
                        }
                    }
                }
                syn::Item::Type(t) => {
                    if !sel(&t.ident.to_string()) { continue; }
                    let txt = &self.src[s..e];
                    if t.ident == "Result" { out.push_str("pub type Result<T> = core::result::Result<T, Error>;\n"); continue; }
                    out.push_str(txt); out.push('\n'); continue;
                }
                syn::Item::Const(_) | syn::Item::Static(_) => {}
                _ => continue,
            }
            out.push_str(&apply(self.src, s, e, ed));
            out.push_str(&free);
            out.push('\n');
        }
        out.push_str("}\n");
    }
}

fn toks_hash(s: &str) -> String {
    use std::hash::{Hash, Hasher};
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    s.split_whitespace().collect::<Vec<_>>().join(" ").hash(&mut h);
    format!("{:016x}", h.finish())
}

fn apply(src: &str, s: usize, e: usize, ed: Ed) -> String {
    let mut v = ed.edits;
    v.sort_by_key(|x| (x.0, if x.1 > x.0 { 1 } else { 0 }, x.2));
    let mut out = String::new();
    let mut at = s;
    for (a, b, _, t) in v {
        if a < at { continue; } // inside something already replaced
        out.push_str(&src[at..a]);
        out.push_str(&t);
        at = b;
    }
    out.push_str(&src[at..e]);
    out
}

/// `match s { .. P if g => A, _ => B }` as `match s { .. P => { if g { A } else { B } } _ => B }` (the same code, as long
/// as B mentions nothing P binds): Verus does not know, after a match with a guarded arm, what the other arms left alone.
fn unguard(mut src: String) -> String {
    struct G<'b> { src: &'b str, hit: Option<(usize, usize, String)> }
    struct Binds(BTreeSet<String>);
    impl<'ast> Visit<'ast> for Binds { fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
    struct Uses<'b>(&'b BTreeSet<String>, bool);
    impl<'b, 'ast> Visit<'ast> for Uses<'b> {
        fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) { if self.0.contains(&i.to_string()) { self.1 = true; } }
        fn visit_macro(&mut self, _: &'ast syn::Macro) { self.1 = true; }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) { self.1 = true; }
        fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) { self.1 = true; }
        fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) { self.1 = true; }
        fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) { self.1 = true; }
    }
    impl<'b, 'ast> Visit<'ast> for G<'b> {
        fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
            let n = m.arms.len();
            if self.hit.is_none() && n >= 2 {
                let (p, q) = (&m.arms[n - 2], &m.arms[n - 1]);
                if let (Some((_, g)), None, syn::Pat::Wild(_)) = (&p.guard, &q.guard, &q.pat) {
                    let mut b = Binds(Default::default()); b.visit_pat(&p.pat);
                    let mut u = Uses(&b.0, false); u.visit_expr(&q.body);
                    if !u.1 && p.attrs.is_empty() && !matches!(**g, syn::Expr::Let(_)) {
                        let t = |x: (usize, usize)| self.src[x.0..x.1].to_owned();
                        self.hit = Some((br(p).0, br(q).0, format!("{} => {{ if {} {{ {} }} else {{ {} }} }}\n", t(br(&p.pat)), t(br(&**g)), t(br(&*p.body)), t(br(&*q.body)))));
                    }
                }
            }
            visit::visit_expr_match(self, m)
        }
    }
    loop {
        let file = match syn::parse_file(&src) { Ok(f) => f, Err(_) => return src };
        let mut g = G { src: &src, hit: None };
        g.visit_file(&file);
        match g.hit { None => return src, Some((s, e, t)) => src = format!("{}{}{}", &src[..s], t, &src[e..]) }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let src = unguard(fs::read_to_string(&a[1]).unwrap());
    let list = |k: &str| -> BTreeSet<String> { opt(k).map(|s| s.split(',').map(|x| x.to_owned()).collect()).unwrap_or_default() };
    let skip = list("--skip");
    let drop_types = list("--drop-types");
    let mut c = parse_contracts(&a[2], &skip);
    expand_templates(&mut c);
    let file = match syn::parse_file(&src) { Ok(f) => f, Err(e) => { eprintln!("PARSE {}", e); std::process::exit(3) } };
    let mut known = BTreeSet::new();
    struct K<'b>(&'b mut BTreeSet<String>);
    impl<'b, 'ast> Visit<'ast> for K<'b> {
        fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) { self.0.insert(f.sig.ident.to_string()); visit::visit_item_fn(self, f) }
        fn visit_use_name(&mut self, u: &'ast syn::UseName) { self.0.insert(u.ident.to_string()); }
    }
    K(&mut known).visit_file(&file);
    for n in ["drop", "min", "max"] { known.insert(n.into()); }
    let mut cx = Ctx { src: &src, c: &c, known_fns: known, report: Default::default(), lost: vec![], module: String::new(), assume: opt("--assume").map(|s| s.split(',').map(|x| x.to_owned()).collect()).unwrap_or_default(), canary: a.iter().any(|x| x == "--canary"), drop_types, under: None, defaults: vec![], trait_fns: Default::default(), home: Default::default() };
    for i in &file.items {
        if let syn::Item::Mod(m) = i {
            if let Some((_, items)) = &m.content {
                for it in items {
                    if let syn::Item::Trait(t) = it {
                        cx.home.insert(t.ident.to_string(), m.ident.to_string());
                        for ti in &t.items { if let syn::TraitItem::Fn(f) = ti { cx.trait_fns.entry(t.ident.to_string()).or_default().push(f.sig.ident.to_string()); if f.default.is_some() { cx.defaults.push((t.ident.to_string(), f)); } } }
                    }
                }
            }
        }
    }
    let mut out = String::from("#![feature(allocator_api)]\n#![allow(unused, non_camel_case_types, bindings_with_variant_name, mismatched_lifetime_syntaxes)]\n#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\nverus! {\nglobal size_of usize == 8;\n");
    out.push_str(&c.prelude);
    for name in &c.order {
        if skip.contains(name) { continue; }
        let m = file.items.iter().find_map(|i| match i { syn::Item::Mod(m) if m.ident == name.as_str() => Some(m), _ => None });
        match m {
            Some(m) => cx.module(m, &mut out),
            // a module of the contracts' own (lemmas): its `text`s, but for those about the types left out
            None if c.own.contains(name) => {
                out.push_str(&format!("pub mod {} {{\n{}\n", name, c.modules[name].0));
                for (k, t) in &c.extra { if let Some(r) = k.strip_prefix("text ") {
                    if let Some(r) = r.strip_prefix(&format!("{}::", name)) { if !cx.drop_types.contains(&format!("de::{}", r.rsplit_once("::").map_or(r, |x| x.0))) { out.push_str(t); out.push('\n'); } }
                } }
                out.push_str("}\n");
            }
            None => cx.lost.push(format!("module {}", name)),
        }
    }
    out.push_str("}\nfn main() {}\n");
    for k in c.fns.keys() { if skip.contains(k.split("::").next().unwrap_or("")) { continue; } if !cx.report.contains_key(k) { cx.lost.push(k.clone()); } }
    // line ranges
    let mut ranges: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (i, l) in out.lines().enumerate() {
        let mut r = l;
        while let Some(p) = r.find("/*@") {
            r = &r[p + 3..];
            let q = r.find("*/").unwrap_or(r.len());
            if let Some(k) = r[..q].strip_prefix("begin ") { ranges.entry(k.into()).or_insert((i + 1, i + 1)); }
            if let Some(k) = r[..q].strip_prefix("end ") { if let Some(x) = ranges.get_mut(k) { x.1 = i + 1; } }
        }
    }
    for (k, v) in cx.report.iter_mut() { if let Some(r) = ranges.get(k) { v["lines"] = json!([r.0, r.1]); } }
    fs::write(&a[3], &out).unwrap();
    fs::write(&a[4], serde_json::to_string_pretty(&json!({"fns": cx.report, "lost": cx.lost})).unwrap()).unwrap();
}
