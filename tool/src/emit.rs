//! Writes the rewritten crates as one Verus file with the contracts woven in.
use crate::infer::{head, Env, Info};
use crate::rewrite::{Instance, Rw};
use crate::spec::{Clause, FnSpec, Specs};
use crate::{FnInfo, Krate, Report};
use proc_macro2::{Delimiter, Ident, Spacing, Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ---------------------------------------------------------------- paths

pub struct PathRw {
    pub krate: String,
}

impl PathRw {
    fn fix(&self, segs: &[String]) -> Option<(usize, Vec<&'static str>, Vec<String>)> {
        // (number of leading segments replaced, static prefix, dynamic prefix)
        let s: Vec<&str> = segs.iter().map(|s| s.as_str()).collect();
        match s.as_slice() {
            ["crate", "vx", ..] => None,
            ["crate", x, ..] if x.starts_with("fajt_x") => None,
            ["crate", ..] => Some((1, vec!["crate"], vec![self.krate.clone()])),
            [x, ..] if x.starts_with("fajt_") => Some((0, vec!["crate"], vec![])),
            ["std", "io", ..] => Some((1, vec!["crate", "vx"], vec![])),
            ["std", "str", "FromStr"] => Some((3, vec!["crate", "vx", "VxFromStr"], vec![])),
            ["std", "string", "ToString"] => Some((3, vec!["crate", "vx", "VxToString"], vec![])),
            ["alloc", "__export", ..] => None,
            ["alloc", ..] => Some((1, vec!["std"], vec![])),
            ["bitflags", "_core", ..] => Some((2, vec!["core"], vec![])),
            _ => None,
        }
    }
    fn use_tree(&self, t: &mut UseTree) {
        let mut segs = Vec::new();
        let mut cur: &UseTree = t;
        while let UseTree::Path(p) = cur {
            segs.push(p.ident.to_string());
            cur = &p.tree;
        }
        if let UseTree::Name(n) = cur {
            segs.push(n.ident.to_string());
        }
        if let Some((n, st, dy)) = self.fix(&segs) {
            let mut rest = t.clone();
            for i in 0..n {
                if i + 1 == segs.len() && !matches!(rest, UseTree::Path(_)) {
                    // whole path replaced
                    let mut all: Vec<String> = st.iter().map(|s| s.to_string()).collect();
                    all.extend(dy.clone());
                    let s = all.join("::");
                    let u: ItemUse = parse_str(&format!("use {s};")).unwrap();
                    *t = u.tree;
                    return;
                }
                if let UseTree::Path(p) = rest {
                    rest = *p.tree;
                }
            }
            let mut out = rest;
            for d in dy.iter().rev() {
                out = UseTree::Path(UsePath { ident: Ident::new(d, Span::call_site()), colon2_token: Default::default(), tree: Box::new(out) });
            }
            for d in st.iter().rev() {
                out = UseTree::Path(UsePath { ident: Ident::new(d, Span::call_site()), colon2_token: Default::default(), tree: Box::new(out) });
            }
            *t = out;
        }
    }
}

impl VisitMut for PathRw {
    fn visit_path_mut(&mut self, p: &mut Path) {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if let Some((n, st, dy)) = self.fix(&segs) {
            p.leading_colon = None;
            let rest: Vec<PathSegment> = p.segments.iter().skip(n).cloned().collect();
            let last_args = if rest.is_empty() { p.segments.last().map(|s| s.arguments.clone()) } else { None };
            let mut np = punctuated::Punctuated::new();
            for s in st {
                np.push(PathSegment::from(Ident::new(s, Span::call_site())));
            }
            for s in dy {
                np.push(PathSegment::from(Ident::new(&s, Span::call_site())));
            }
            for s in rest {
                np.push(s);
            }
            if let (Some(a), Some(l)) = (last_args, np.last_mut()) {
                l.arguments = a;
            }
            p.segments = np;
        }
        visit_mut::visit_path_mut(self, p)
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        u.leading_colon = None;
        self.use_tree(&mut u.tree);
    }
}

// ---------------------------------------------------------------- printing

pub fn print(ts: TokenStream, texts: &[String]) -> String {
    let mut s = String::new();
    pr(ts, texts, &mut s);
    s
}

fn pr(ts: TokenStream, texts: &[String], s: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(a);
                pr(g.stream(), texts, s);
                s.push_str(b);
                if !b.ends_with('\n') {
                    s.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                let n = i.to_string();
                if let Some(k) = n.strip_prefix("__VXT_") {
                    s.push('\n');
                    s.push_str(&texts[k.parse::<usize>().unwrap()]);
                    s.push('\n');
                } else {
                    s.push_str(&n);
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    s.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    s.push(' ');
                }
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
    }
}

fn flat(ts: TokenStream) -> String {
    ts.to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

// ---------------------------------------------------------------- emitter

pub struct Emitter {
    pub specs: Specs,
    pub tags: BTreeSet<String>,
    pub info: Rc<Info>,
    pub report: Report,
    pub used: HashSet<String>,
    macros: HashSet<String>,
    types: HashMap<String, Item>,
    cur: String,
    debug_types: HashSet<String>,
    ghost_fields: HashMap<String, String>,
    inst_count: usize,
    mods: Vec<String>,
    pub pending: Vec<Instance>,
    pub forced_external: BTreeSet<String>,
}

struct FnCtx<'a> {
    krate: &'a str,
    key: String,
    self_ty: Option<String>,
    trait_impl: bool,
    trait_decl: bool,
    env: Env,
    vis: bool,
    generic_key: Option<String>,
}

/// Expression made of constructors, fields, variables and literals only.
fn is_ctor(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Paren(p) => is_ctor(&p.expr),
        Expr::Tuple(t) => t.elems.iter().all(is_ctor),
        Expr::Field(f) => is_ctor(&f.base),
        Expr::Struct(s) => s.rest.is_none() && s.fields.iter().all(|f| is_ctor(&f.expr)),
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                let l = p.path.segments.last().unwrap().ident.to_string();
                l.starts_with(|c: char| c.is_uppercase()) && c.args.iter().all(is_ctor)
            } else {
                false
            }
        }
        _ => false,
    }
}

fn is_derived(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
}

const DROP_TRAITS: &[&str] = &[
    "Display", "Serialize", "Deserialize", "Debug", "Binary", "Octal", "LowerHex", "UpperHex", "Extend", "FromIterator", "Hash", "StructuralPartialEq", "Eq", "PartialOrd", "Ord",
    "TrivialClone", "UseCloned", "BitXor", "BitXorAssign", "BitAnd", "BitAndAssign", "Sub", "SubAssign", "Not", "Visitor",
];
const INHERENT_TRAITS: &[&str] = &["BitOr", "BitOrAssign"];
const DROP_USE: &[&str] = &["serde", "unicode_id"];

impl Emitter {
    pub fn new(specs: Specs, tags: BTreeSet<String>, info: Rc<Info>) -> Self {
        let ghost_fields = specs.fields.iter().map(|(k, v)| (k.clone(), v.1.clone())).collect();
        Emitter {
            specs,
            tags,
            info,
            report: Report::default(),
            used: HashSet::new(),
            macros: HashSet::new(),
            types: HashMap::new(),
            cur: String::new(),
            debug_types: HashSet::new(),
            ghost_fields,
            inst_count: 0,
            mods: Vec::new(),
            pending: Vec::new(),
            forced_external: BTreeSet::new(),
        }
    }

    pub fn prescan(&mut self, ks: &[Krate]) {
        struct P<'a>(&'a mut Emitter);
        impl<'a, 'b> Visit<'b> for P<'a> {
            fn visit_item_macro(&mut self, m: &'b ItemMacro) {
                if let Some(i) = &m.ident {
                    self.0.macros.insert(i.to_string());
                }
            }
            fn visit_item_struct(&mut self, s: &'b ItemStruct) {
                let key = format!("{}::{}", self.0.cur, s.ident);
                self.0.types.insert(key, Item::Struct(s.clone()));
            }
            fn visit_item_enum(&mut self, s: &'b ItemEnum) {
                let key = format!("{}::{}", self.0.cur, s.ident);
                self.0.types.insert(key, Item::Enum(s.clone()));
            }
            fn visit_item_impl(&mut self, i: &'b ItemImpl) {
                if is_derived(&i.attrs) {
                    if let Some((_, p, _)) = &i.trait_ {
                        if p.segments.last().unwrap().ident == "Debug" {
                            if let Some(h) = head(&i.self_ty) {
                                self.0.debug_types.insert(h);
                            }
                        }
                    }
                }
            }
            fn visit_expr(&mut self, _: &'b Expr) {}
        }
        for k in ks {
            self.cur = k.short.clone();
            P(self).visit_file(&k.file);
        }
    }

    fn on(&self, c: &Clause) -> bool {
        if c.tag.is_empty() {
            return true;
        }
        let mut pos = false;
        let mut any_pos = false;
        for t in c.tag.split_whitespace() {
            if t.starts_with('.') {
                continue; // a label for `untag`
            }
            if let Some(n) = t.strip_prefix('!') {
                if self.tags.contains(n) {
                    return false;
                }
            } else {
                any_pos = true;
                pos |= self.tags.contains(t);
            }
        }
        pos || !any_pos
    }

    fn join(&self, v: &[Clause]) -> Vec<String> {
        v.iter().filter(|c| self.on(c)).map(|c| owned(&c.tag, c.text.trim().trim_end_matches(','))).filter(|s| !s.is_empty()).collect()
    }

    pub fn krate(&mut self, k: &Krate) -> String {
        self.cur = k.short.clone();
        let mut s = format!("pub mod {} {{\n", k.name);
        self.mods = vec![k.name.clone()];
        self.report.modules.push(k.name.clone());
        s.push_str(&self.items(&k.short, &k.file.items));
        s.push_str("}\n");
        s
    }

    fn header(&self) -> String {
        "use vstd::prelude::*;\nuse crate::vx::*;\n".into()
    }

    fn items(&mut self, k: &str, its: &[Item]) -> String {
        let mut s = self.header();
        for it in its {
            let t = self.item(k, it);
            s.push_str(&t);
        }
        s
    }

    fn use_leaf_ok(&self, root: &str, name: &str) -> bool {
        if DROP_USE.contains(&root) {
            return false;
        }
        if self.macros.contains(name) && !["literal"].contains(&name) {
            return false;
        }
        if root.starts_with("fajt_macros") {
            return false;
        }
        true
    }

    fn use_tree(&self, root: &str, t: &UseTree) -> Option<UseTree> {
        match t {
            UseTree::Path(p) => {
                let r = if root.is_empty() { p.ident.to_string() } else { format!("{root}::{}", p.ident) };
                let inner = self.use_tree(&r, &p.tree)?;
                Some(UseTree::Path(UsePath { tree: Box::new(inner), ..p.clone() }))
            }
            UseTree::Group(g) => {
                let items: Vec<UseTree> = g.items.iter().filter_map(|i| self.use_tree(root, i)).collect();
                if items.is_empty() {
                    return None;
                }
                Some(UseTree::Group(UseGroup { brace_token: g.brace_token, items: items.into_iter().collect() }))
            }
            UseTree::Name(n) => self.leaf(root, &n.ident.to_string()).then(|| t.clone()),
            UseTree::Rename(n) => self.leaf(root, &n.ident.to_string()).then(|| t.clone()),
            UseTree::Glob(_) => {
                let r = root.split("::").next().unwrap_or("");
                (!DROP_USE.contains(&r) && !root.contains("crate::fajt_macros")).then(|| t.clone())
            }
        }
    }
    fn leaf(&self, root: &str, name: &str) -> bool {
        let first = root.split("::").next().unwrap_or("");
        if root.contains("fajt_macros") {
            return false;
        }
        if first == "std" && (name == "fmt" || name == "error" || root == "std::fmt" && name != "Debug") {
            return false;
        }
        self.use_leaf_ok(first, name)
    }

    fn item(&mut self, k: &str, it: &Item) -> String {
        match it {
            Item::Macro(_) | Item::ExternCrate(_) => String::new(),
            Item::Use(u) => {
                if let Some(t) = self.use_tree("", &u.tree) {
                    let mut u = u.clone();
                    u.tree = t;
                    u.vis = parse_quote!(pub);
                    // re-export clashes: keep private for std paths
                    print(u.to_token_stream(), &[])
                } else {
                    String::new()
                }
            }
            Item::Const(c) if c.ident == "_" => String::new(),
            Item::Const(c) => {
                let mut c = c.clone();
                c.vis = parse_quote!(pub);
                print(c.to_token_stream(), &[])
            }
            Item::Static(c) => print(c.to_token_stream(), &[]),
            Item::Type(t) => {
                let mut t = t.clone();
                t.vis = parse_quote!(pub);
                print(t.to_token_stream(), &[])
            }
            Item::Mod(m) => {
                let Some((_, c)) = &m.content else { return String::new() };
                let key = format!("{k}::mod::{}", m.ident);
                if self.specs.drops.contains(&key) {
                    self.report.dropped.push(key);
                    return String::new();
                }
                let mut s = format!("pub mod {} {{\n", m.ident);
                self.mods.push(m.ident.to_string());
                self.report.modules.push(self.mods.join("::"));
                s.push_str(&self.items(k, c));
                self.mods.pop();
                s.push_str("}\n");
                s
            }
            Item::Struct(st) => {
                let mut st = st.clone();
                st.vis = parse_quote!(pub);
                for f in &mut st.fields {
                    f.vis = parse_quote!(pub);
                }
                let name = st.ident.to_string();
                if let Some((f, _)) = self.specs.fields.get(&name) {
                    if let Fields::Named(n) = &mut st.fields {
                        let fd: FieldsNamed = parse_str(&format!("{{ pub {f} }}")).expect("ghost field");
                        if !n.named.empty_or_trailing() {
                            n.named.push_punct(Default::default());
                        }
                        n.named.push_value(fd.named[0].clone());
                    }
                }
                let d = if self.debug_types.contains(&name) && !self.specs.fields.contains_key(&name) { "#[derive(Debug)]\n" } else { "" };
                format!("{d}{}\n", print(st.to_token_stream(), &[]))
            }
            Item::Enum(e) => {
                let mut e = e.clone();
                e.vis = parse_quote!(pub);
                let d = if self.debug_types.contains(&e.ident.to_string()) { "#[derive(Debug)]\n" } else { "" };
                format!("{d}{}\n", print(e.to_token_stream(), &[]))
            }
            Item::Fn(f) => {
                let key = format!("{k}::{}", f.sig.ident);
                if self.specs.drops.contains(&key) {
                    self.report.dropped.push(key);
                    return String::new();
                }
                let cx = FnCtx { krate: k, key, self_ty: None, trait_impl: false, trait_decl: false, env: Env::default(), vis: true, generic_key: None };
                let mut s = self.func(cx, &f.sig, Some(&f.block));
                for h in std::mem::take(&mut self.report.hoisted) {
                    s.push_str(&h);
                }
                s
            }
            Item::Trait(t) => self.trait_(k, t),
            Item::Impl(i) => self.impl_(k, i),
            _ => {
                self.report.unsupported.push(format!("{k}: item {}", flat(it.to_token_stream()).chars().take(60).collect::<String>()));
                String::new()
            }
        }
    }

    fn adds(&mut self, key: &str) -> String {
        let mut s = String::new();
        if let Some(v) = self.specs.adds.get(key).cloned() {
            for c in &v {
                if self.on(c) {
                    s.push_str(&owned(&c.tag, &c.text));
                    s.push('\n');
                }
            }
        }
        s
    }

    fn trait_(&mut self, k: &str, t: &ItemTrait) -> String {
        let name = t.ident.to_string();
        let key = format!("{k}::{name}");
        if self.specs.drops.contains(&key) {
            self.report.dropped.push(key);
            return String::new();
        }
        let (ig, _, wc) = t.generics.split_for_impl();
        let _ = ig;
        let g = &t.generics;
        let mut sup: Vec<TokenStream> = t.supertraits.iter().map(|x| quote!(#x)).collect();
        if let Some(x) = self.specs.supers.get(&key) {
            sup.push(x.parse().unwrap());
        }
        let colon = if sup.is_empty() { quote!() } else { quote!(: #(#sup)+*) };
        let id = &t.ident;
        let gp = &g.params;
        let gt = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
        let mut s = print(quote!(pub trait #id #gt #colon #wc), &[]);
        s.push_str("{\n");
        s.push_str(&self.adds(&key));
        for i in &t.items {
            match i {
                TraitItem::Fn(f) => {
                    let fk = format!("{key}::{}", f.sig.ident);
                    let cx = FnCtx { krate: k, key: fk, self_ty: None, trait_impl: false, trait_decl: true, env: Env::default(), vis: false, generic_key: None };
                    let x = self.func(cx, &f.sig, f.default.as_ref());
                    s.push_str(&x);
                }
                o => s.push_str(&print(o.to_token_stream(), &[])),
            }
        }
        s.push_str("}\n");
        s
    }

    fn ty(&self, n: &str) -> Option<&Item> {
        self.types.get(&format!("{}::{n}", self.cur)).or_else(|| ["ast", "lexer", "common", "parser", "codegen"].iter().find_map(|c| self.types.get(&format!("{c}::{n}"))))
    }

    fn is_flat(&self, t: &Type) -> bool {
        match head(t).as_deref() {
            Some("bool" | "char" | "usize" | "u8" | "u32" | "u64" | "isize" | "i32" | "i64") => true,
            Some(n) => match self.ty(n) {
                Some(Item::Struct(s)) => s.generics.params.is_empty() && s.fields.iter().all(|f| self.is_flat(&f.ty)),
                Some(Item::Enum(e)) => e.generics.params.is_empty() && e.variants.iter().all(|v| v.fields.iter().all(|f| self.is_flat(&f.ty))),
                _ => false,
            },
            None => false,
        }
    }

    fn eq_text(&self, t: &Type, a: &str, b: &str) -> String {
        if self.is_flat(t) {
            return format!("{a} == {b}");
        }
        if head(t).as_deref() == Some("String") && !matches!(t, Type::Reference(_)) {
            return format!("{a}@ == {b}@");
        }
        format!("crate::vx::opaque_eq({a}, {b})")
    }

    fn derived(&mut self, i: &ItemImpl, tr: &str) -> String {
        let ty = head(&i.self_ty).unwrap_or_default();
        let (ig, wc) = (&i.generics.params, &i.generics.where_clause);
        let ig = if ig.is_empty() { quote!() } else { quote!(<#ig>) };
        let st = &i.self_ty;
        let hdr = |t: &str| {
            let tp: TokenStream = t.parse().unwrap();
            print(quote!(impl #ig #tp for #st #wc), &[])
        };
        let out = match tr {
            "Copy" => format!("{} {{}}\n", hdr("Copy")),
            "Clone" => format!("{} {{\n#[verifier::external_body]\nfn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}\n}}\n", hdr("Clone")),
            "PartialEq" => {
                let body = match self.ty(&ty) {
                    Some(_) if self.is_flat(st) => "*self == *o".to_string(),
                    Some(Item::Enum(e)) => {
                        let mut m = String::from("match (self, o) {\n");
                        for v in &e.variants {
                            let n = v.fields.len();
                            match &v.fields {
                                Fields::Unit => m.push_str(&format!("({ty}::{0}, {ty}::{0}) => true,\n", v.ident)),
                                Fields::Unnamed(fs) => {
                                    let xs: Vec<String> = (0..n).map(|i| format!("x{i}")).collect();
                                    let ys: Vec<String> = (0..n).map(|i| format!("y{i}")).collect();
                                    let eqs: Vec<String> = fs.unnamed.iter().enumerate().map(|(i, f)| format!("({})", self.eq_text(&f.ty, &format!("(*x{i})"), &format!("(*y{i})")))).collect();
                                    m.push_str(&format!("({ty}::{0}({1}), {ty}::{0}({2})) => {3},\n", v.ident, xs.join(","), ys.join(","), eqs.join(" && ")));
                                }
                                Fields::Named(_) => m.push_str(&format!("({ty}::{0}{{..}}, {ty}::{0}{{..}}) => crate::vx::opaque_eq(*self, *o),\n", v.ident)),
                            }
                        }
                        if e.variants.len() > 1 {
                            m.push_str("_ => false,\n");
                        }
                        m.push('}');
                        m
                    }
                    Some(Item::Struct(s)) => {
                        let eqs: Vec<String> = s
                            .fields
                            .iter()
                            .filter_map(|f| f.ident.as_ref().map(|id| format!("({})", self.eq_text(&f.ty, &format!("self.{id}"), &format!("o.{id}")))))
                            .collect();
                        if eqs.is_empty() { "crate::vx::opaque_eq(*self, *o)".into() } else { eqs.join(" && ") }
                    }
                    _ => "crate::vx::opaque_eq(*self, *o)".to_string(),
                };
                format!(
                    "{} {{\nopen spec fn obeys_eq_spec() -> bool {{ true }}\nopen spec fn eq_spec(&self, o: &Self) -> bool {{ {} }}\n}}\n{} {{\n#[verifier::external_body]\nfn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }}\n}}\n",
                    hdr("vstd::std_specs::cmp::PartialEqSpecImpl"),
                    body,
                    hdr("PartialEq")
                )
            }
            "Default" => {
                let mut ens = Vec::new();
                if let Some(Item::Struct(s)) = self.ty(&ty) {
                    for f in &s.fields {
                        let id = f.ident.as_ref().unwrap();
                        match head(&f.ty).as_deref() {
                            Some("bool") => ens.push(format!("r.{id} == false")),
                            Some("usize" | "u32") => ens.push(format!("r.{id} == 0")),
                            _ => {}
                        }
                    }
                }
                format!("{} {{\n#[verifier::external_body]\nfn default() -> (r: Self) ensures true, {} {{ unimplemented!() }}\n}}\n", hdr("Default"), ens.join(", "))
            }
            _ => return String::new(),
        };
        self.report.trusted_derives.push(format!("{tr} for {ty}"));
        out
    }

    fn impl_(&mut self, k: &str, i: &ItemImpl) -> String {
        let ty = head(&i.self_ty).unwrap_or_else(|| flat(i.self_ty.to_token_stream()));
        let mut trait_name = None;
        let mut inherent = false;
        if let Some((_, p, _)) = &i.trait_ {
            let last = p.segments.last().unwrap();
            let n = last.ident.to_string();
            if is_derived(&i.attrs) {
                return match n.as_str() {
                    "Copy" | "Clone" | "PartialEq" | "Default" => self.derived(i, &n),
                    _ => String::new(),
                };
            }
            if DROP_TRAITS.contains(&n.as_str()) || (n == "Error" && p.segments.len() > 1) || n == "ThenTry" && ty == "bool" {
                self.report.dropped.push(format!("{k}: impl {n} for {ty}"));
                return String::new();
            }
            if INHERENT_TRAITS.contains(&n.as_str()) {
                inherent = true;
            }
            let mut full = n.clone();
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                let args: Vec<String> = a
                    .args
                    .iter()
                    .map(|x| {
                        let s = flat(x.to_token_stream());
                        let amp = if s.starts_with('&') { "&" } else { "" };
                        let b = s.trim_start_matches('&');
                        if b.contains('(') { s.clone() } else { format!("{amp}{}", b.rsplit("::").next().unwrap()) }
                    })
                    .collect();
                full = format!("{n}<{}>", args.join(","));
            }
            trait_name = Some(full);
        }
        let base = match &trait_name {
            Some(t) if !inherent => format!("{k}::{t}@{ty}"),
            _ => format!("{k}::{ty}"),
        };
        if self.specs.drops.contains(&base) {
            self.report.dropped.push(base);
            return String::new();
        }
        // methods of a dropped trait become nothing
        let (gp, wc) = (&i.generics.params, &i.generics.where_clause);
        let ig = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
        let st = &i.self_ty;
        let hdr = match (&i.trait_, inherent) {
            (Some((_, p, _)), false) => quote!(impl #ig #p for #st #wc),
            _ => quote!(impl #ig #st #wc),
        };
        let hdr = print(hdr, &[]);
        let mut s = format!("{hdr} {{\n");
        s.push_str(&self.adds(&base));
        let mut env = Env { self_ty: Some(ty.clone()), ..Env::default() };
        let _ = &mut env;
        let mut hof_here = false;
        for x in &i.items {
            match x {
                ImplItem::Fn(f) => {
                    let key = format!("{base}::{}", f.sig.ident);
                    if self.specs.drops.contains(&key) {
                        self.report.dropped.push(key);
                        continue;
                    }
                    if crate::infer::is_hof(&f.sig) {
                        hof_here = true;
                        self.report.dropped.push(format!("{key} (higher order: emitted as first-order copies, rule R9)"));
                        s.push_str(&format!("/*HOF {}::{}*/\n", ty, f.sig.ident));
                        continue;
                    }
                    let cx = FnCtx { krate: k, key, self_ty: Some(ty.clone()), trait_impl: trait_name.is_some() && !inherent, trait_decl: false, env: env.clone(), vis: trait_name.is_none() || inherent, generic_key: None };
                    let t = self.func(cx, &f.sig, Some(&f.block));
                    s.push_str(&t);
                }
                ImplItem::Const(c) => {
                    let mut c = c.clone();
                    if trait_name.is_none() {
                        c.vis = parse_quote!(pub);
                    }
                    s.push_str(&print(c.to_token_stream(), &[]));
                }
                ImplItem::Type(t) => {
                    if !inherent {
                        s.push_str(&print(t.to_token_stream(), &[]));
                    }
                }
                ImplItem::Macro(_) => {}
                o => self.report.unsupported.push(format!("{base}: impl item {}", flat(o.to_token_stream()))),
            }
        }
        let _ = hof_here;
        s.push_str("}\n");
        if let (Some((_, p, _)), false) = (&i.trait_, inherent) {
            if p.segments.last().unwrap().ident == "From" {
                if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                    let at = &a.args;
                    let mut body = None;
                    let mut param = quote!(vx_f);
                    for x in &i.items {
                        if let ImplItem::Fn(f) = x {
                            if let Some(FnArg::Typed(t)) = f.sig.inputs.first() {
                                let pt = &t.pat;
                                param = quote!(#pt);
                            }
                            if let [Stmt::Expr(e, None)] = &f.block.stmts[..] {
                                if is_ctor(e) {
                                    body = Some(quote!(#e));
                                }
                            }
                        }
                    }
                    let fp: TokenStream = quote!(vstd::std_specs::convert::FromSpecImpl<#at>);
                    let st = &i.self_ty;
                    s.push_str(&print(quote!(impl #ig #fp for #st #wc), &[]));
                    let a0 = print(quote!(#at), &[]);
                    match body {
                        Some(b) => s.push_str(&format!(
                            "{{\nopen spec fn obeys_from_spec() -> bool {{ true }}\nopen spec fn from_spec(vx_f: {a0}) -> Self {{ let {} = vx_f; {} }}\n}}\n",
                            print(param, &[]),
                            print(b, &[])
                        )),
                        None => s.push_str(&format!("{{\nopen spec fn obeys_from_spec() -> bool {{ false }}\nuninterp spec fn from_spec(vx_f: {a0}) -> Self;\n}}\n")),
                    }
                }
            }
        }
        for h in std::mem::take(&mut self.report.hoisted) {
            s.push_str(&h);
        }
        s.push_str(&self.adds(&format!("{base}#after")));
        s
    }

    /// Fill in the first-order copies requested so far; loops because copies may request copies.
    pub fn finish(&mut self, text: String) -> String {
        let mut text = text;
        while !self.pending.is_empty() {
            let batch: Vec<Instance> = std::mem::take(&mut self.pending);
            for inst in batch {
                let marker = format!("/*HOF {}::{}*/\n", inst.orig.ty, inst.orig.sig.ident);
                let gkey = format!("{}::{}::{}", inst.orig.krate, inst.orig.ty, inst.orig.sig.ident);
                let caller_short = inst.caller.rsplit("::").next().unwrap().to_string();
                let mut key = format!("{gkey}@{caller_short}");
                let mut n = 2;
                while self.report.functions.contains_key(&key) {
                    key = format!("{gkey}@{caller_short}#{n}");
                    n += 1;
                }
                let krate = inst.orig.krate.clone();
                let env = Env { self_ty: Some(inst.orig.ty.clone()), locals: inst.locals.clone() };
                let cx = FnCtx { krate: &krate, key, self_ty: Some(inst.orig.ty.clone()), trait_impl: false, trait_decl: false, env, vis: true, generic_key: Some(gkey) };
                let t = self.func(cx, &inst.sig, Some(&inst.block));
                if let Some(p) = text.find(&marker) {
                    text.insert_str(p + marker.len(), &t);
                } else {
                    self.report.unsupported.push(format!("no place for copy of {}", inst.name));
                }
            }
        }
        text
    }

    fn spec_for(&mut self, cx: &FnCtx, sig: &Signature, block: Option<&Block>) -> (FnSpec, bool, bool) {
        let mut out = FnSpec::default();
        let mut specific = false;
        let mut templ = false;
        let mut parts: Vec<FnSpec> = Vec::new();
        let keys: Vec<String> = cx.generic_key.iter().cloned().chain([cx.key.clone()]).collect();
        for k in &keys {
            if let Some(f) = self.specs.fns.get(k) {
                self.used.insert(k.clone());
                parts.push(f.clone());
                specific = true;
            }
        }
        let no_t = parts.iter().any(|p| p.notemplate);
        let untag: HashSet<String> = parts.iter().flat_map(|p| p.untag.iter().flat_map(|s| s.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>())).collect();
        if !no_t && !cx.trait_impl && !cx.trait_decl {
            let recv = match sig.inputs.first() {
                Some(FnArg::Receiver(r)) if r.reference.is_some() && r.mutability.is_some() => "mut",
                Some(FnArg::Receiver(r)) if r.reference.is_some() => "ref",
                Some(FnArg::Receiver(_)) => "own",
                _ => "none",
            };
            let ret = match &sig.output {
                ReturnType::Default => "()".to_string(),
                ReturnType::Type(_, t) => flat(t.to_token_stream()),
            };
            let name = sig.ident.to_string();
            let ty = cx.self_ty.clone().unwrap_or_default();
            let mut tp = Vec::new();
            let body = block.map_or(String::new(), |b| b.to_token_stream().to_string());
            for t in &self.specs.templates {
                let ok = (t.krate == "*" || t.krate == cx.krate)
                    && (t.recv == "any" || t.recv == recv)
                    && (t.ty == "*" || t.ty == ty)
                    && (t.ret == "*" || t.ret.split('|').any(|x| x == ret) || t.ret.ends_with('*') && ret.starts_with(t.ret.trim_end_matches('*')))
                    && !t.except.split('|').any(|x| x == ret)
                    && (t.name == "*" || t.name == name || t.name.ends_with('*') && name.starts_with(t.name.trim_end_matches('*')))
                    && (t.mentions.is_empty() || t.mentions.split('|').any(|m| body.contains(m)));
                if ok {
                    let mut s = t.spec.clone();
                    let keep = |v: &mut Vec<Clause>| v.retain(|c| !c.tag.split_whitespace().any(|x| untag.contains(x)));
                    keep(&mut s.req);
                    keep(&mut s.ens);
                    keep(&mut s.begin);
                    keep(&mut s.end);
                    for m in [&mut s.lpre, &mut s.inv, &mut s.invx, &mut s.lens, &mut s.dec, &mut s.lbegin, &mut s.lend] {
                        for v in m.values_mut() {
                            v.retain(|c| !c.tag.split_whitespace().any(|x| untag.contains(x)));
                        }
                    }
                    tp.push(s);
                    templ = true;
                }
            }
            tp.extend(parts);
            parts = tp;
        }
        for p in parts {
            if p.ret.is_some() {
                out.ret = p.ret.clone();
            }
            out.attrs.extend(p.attrs);
            out.req.extend(p.req);
            out.ens.extend(p.ens);
            out.begin.extend(p.begin);
            out.end.extend(p.end);
            out.decreases.extend(p.decreases);
            out.before.extend(p.before);
            if p.cases.is_some() {
                out.cases = p.cases;
            }
            out.after.extend(p.after);
            let maps: [(&mut std::collections::BTreeMap<String, Vec<Clause>>, std::collections::BTreeMap<String, Vec<Clause>>); 7] =
                [(&mut out.lpre, p.lpre), (&mut out.inv, p.inv), (&mut out.invx, p.invx), (&mut out.lens, p.lens), (&mut out.dec, p.dec), (&mut out.lbegin, p.lbegin), (&mut out.lend, p.lend)];
            for (o, m) in maps {
                for (k, v) in m {
                    o.entry(k).or_default().extend(v);
                }
            }
        }
        (out, specific, templ)
    }

    fn func(&mut self, cx: FnCtx, sig: &Signature, block: Option<&Block>) -> String {
        let (spec, specific, templ) = self.spec_for(&cx, sig, block);
        let mut fi = FnInfo { spec: specific, template: templ, ..FnInfo::default() };
        let mut texts: Vec<String> = Vec::new();
        let forced = self.forced_external.contains(&cx.key);
        let external = forced || spec.attrs.iter().any(|a| a.contains("external_body"));
        fi.external = external;

        // parameters
        let mut env = cx.env.clone();
        if cx.self_ty.is_some() {
            env.self_ty = cx.self_ty.clone();
        }
        let mut sig = sig.clone();
        sig.constness = None;
        let mut pre: Vec<Stmt> = Vec::new();
        for (n, a) in sig.inputs.iter_mut().enumerate() {
            if let FnArg::Typed(t) = a {
                match &*t.pat {
                    Pat::Ident(p) => {
                        env.locals.insert(p.ident.to_string(), (*t.ty).clone());
                    }
                    Pat::Wild(_) => {
                        let id = format_ident!("vx_p{}", n);
                        *t.pat = parse_quote!(#id);
                    }
                    p => {
                        let id = format_ident!("vx_p{}", n);
                        let p = p.clone();
                        pre.push(parse_quote!(let #p = #id;));
                        *t.pat = parse_quote!(#id);
                    }
                }
            }
        }
        // body
        let mut hoisted = String::new();
        let mut body_text = String::new();
        let mut case_texts: Vec<String> = Vec::new();
        let mut unsupported = Vec::new();
        if let Some(b) = block {
            let mut b = b.clone();
            fi.hash = format!("{:x}", fxhash(&b.to_token_stream().to_string()));
            let mut rw = Rw {
                info: self.info.clone(),
                env,
                caller: cx.key.clone(),
                ghost_fields: &self.ghost_fields,
                unsupported: Vec::new(),
                instances: Vec::new(),
                fresh: 0,
                inst_base: self.inst_count,
                hoisted: Vec::new(),
                callees: HashSet::new(),
                rules: HashMap::new(),
            };
            if !external {
                rw.visit_block_mut(&mut b);
            }
            unsupported = rw.unsupported.clone();
            let insts = rw.instances.clone();
            let hs = std::mem::take(&mut rw.hoisted);
            fi.callees = rw.callees.iter().cloned().collect();
            if unsupported.is_empty() {
                self.inst_count += insts.len();
                self.pending.extend(insts);
            }
            for h in hs {
                hoisted.push_str(&self.item(cx.krate, &h));
            }
            if !pre.is_empty() {
                let mut st = pre;
                st.append(&mut b.stmts);
                b.stmts = st;
            }
            if let (true, Some((pat, idx, conds))) = (unsupported.is_empty() && !external, &spec.cases) {
                let mut all = true;
                for i in 0..=conds.len() {
                    let cond = if i < conds.len() { conds[i].clone() } else { conds.iter().map(|c| format!("!({c})")).collect::<Vec<_>>().join(" && ") };
                    let mut sp = spec.clone();
                    sp.cases = None;
                    sp.before.insert(0, (pat.clone(), *idx, Clause { tag: String::new(), text: format!("assume({cond});") }));
                    let (mut b2, mut tx) = (b.clone(), Vec::new());
                    let n0 = self.report.lost.len();
                    self.weave(&mut b2, &sp, &cx.key, &mut tx, &mut fi);
                    let anchor: String = pat.chars().filter(|c| !c.is_whitespace()).collect();
                    all &= !self.report.lost[n0..].iter().any(|l| l.ends_with(&format!("anchor `{anchor}`")));
                    case_texts.push(print(b2.to_token_stream(), &tx));
                }
                fi.loops_uncovered /= conds.len() + 1;
                if !all || fi.loops > 0 {
                    case_texts.clear();
                    fi.loops_uncovered = 0;
                } else {
                    fi.cases = case_texts.len();
                }
            }
            if unsupported.is_empty() && !external {
                fi.loops_uncovered = 0;
                self.weave(&mut b, &spec, &cx.key, &mut texts, &mut fi);
                body_text = print(b.to_token_stream(), &texts);
            }
        }
        // contract
        let ret_name = spec.ret.clone().unwrap_or_else(|| "r".into());
        let mut c = String::new();
        let req = self.join(&spec.req);
        if !req.is_empty() {
            c.push_str("    requires\n");
            for r in &req {
                c.push_str(&format!("        {r},\n"));
            }
        }
        let ens = self.join(&spec.ens);
        if !ens.is_empty() {
            c.push_str("    ensures\n");
            for r in &ens {
                c.push_str(&format!("        {r},\n"));
            }
        }
        let dec = self.join(&spec.decreases);
        if !dec.is_empty() {
            c.push_str(&format!("    decreases {}\n", dec.join(", ")));
        }
        // signature
        let unsup = !unsupported.is_empty();
        if unsup || forced {
            fi.external = true;
        }
        let mk = |name: &str, trusted: bool, body: &str| -> String {
            let mut s = format!("//@fn {}\n", cx.key);
            for a in &spec.attrs {
                s.push_str(&format!("#[verifier::{a}]\n"));
            }
            if trusted {
                s.push_str("#[verifier::external_body]\n");
            }
            if dec.is_empty() && !trusted && !external && block.is_some() {
                s.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
            }
            if cx.vis {
                s.push_str("pub ");
            }
            let id = format_ident!("{}", name);
            let gp = &sig.generics.params;
            let gt = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
            let inp = &sig.inputs;
            s.push_str(&print(quote!(fn #id #gt (#inp)), &[]));
            if let ReturnType::Type(_, t) = &sig.output {
                if matches!(**t, Type::Never(_)) {
                    s.push_str(" -> !");
                } else {
                    s.push_str(&format!("-> ({ret_name}: {})", print(t.to_token_stream(), &[])));
                }
            }
            s.push_str(&print(sig.generics.where_clause.to_token_stream(), &[]));
            s.push('\n');
            s.push_str(&c);
            s.push_str(body);
            s
        };
        let name = sig.ident.to_string();
        let stub = "{ unimplemented!() }\n";
        let s = if block.is_none() {
            mk(&name, false, ";\n")
        } else if unsup || external {
            mk(&name, unsup || forced, stub)
        } else if !case_texts.is_empty() {
            let mut s = mk(&name, true, stub);
            for (i, b) in case_texts.iter().enumerate() {
                s.push_str(&mk(&format!("{name}__case{i}"), false, b));
            }
            s
        } else {
            mk(&name, false, &body_text)
        };
        for u in unsupported {
            self.report.unsupported.push(u);
        }
        self.report.functions.insert(cx.key.clone(), fi);
        // items hoisted out of a method body cannot stay inside the impl block
        if !hoisted.is_empty() {
            self.report.hoisted.push(hoisted);
        }
        s
    }

    fn weave(&mut self, b: &mut Block, spec: &FnSpec, key: &str, texts: &mut Vec<String>, fi: &mut FnInfo) {
        // statement anchors
        let mut anchors: Vec<(String, usize, String, bool)> = Vec::new();
        for (p, n, c) in &spec.before {
            if self.on(c) {
                anchors.push((p.chars().filter(|c| !c.is_whitespace()).collect(), *n, owned(&c.tag, &c.text), true));
            }
        }
        for (p, n, c) in &spec.after {
            if self.on(c) {
                anchors.push((p.chars().filter(|c| !c.is_whitespace()).collect(), *n, owned(&c.tag, &c.text), false));
            }
        }
        if !anchors.is_empty() {
            let mut a = Anchor { anchors: &anchors, counts: vec![0; anchors.len()], hit: vec![false; anchors.len()], texts };
            a.visit_block_mut(b);
            for (i, h) in a.hit.iter().enumerate() {
                if !h {
                    self.report.lost.push(format!("{key}: anchor `{}`", anchors[i].0));
                }
            }
        }
        // loops; `$out` in a loop clause is the local the function returns (`Ok(x)` or `x` at its end), whatever it is called
        let out = tail_local(b);
        let get = |m: &std::collections::BTreeMap<String, Vec<Clause>>, i: usize| -> Vec<String> {
            let mut v = Vec::new();
            for k in ["*".to_string(), i.to_string()] {
                if let Some(c) = m.get(&k) {
                    v.extend(self.join(c));
                }
            }
            match &out {
                Some(o) => v.iter().map(|t| t.replace("$out", o)).collect(),
                None => v.into_iter().filter(|t| !t.contains("$out")).collect(),
            }
        };
        struct Count(usize);
        impl<'a> Visit<'a> for Count {
            fn visit_expr(&mut self, e: &'a Expr) {
                if matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_)) {
                    self.0 += 1;
                }
                syn::visit::visit_expr(self, e)
            }
        }
        let mut cnt = Count(0);
        cnt.visit_block(b);
        fi.loops = cnt.0;
        let mut heads: Vec<String> = Vec::new();
        let mut lb: Vec<(String, String)> = Vec::new();
        let mut pres: Vec<String> = Vec::new();
        for i in 0..cnt.0 {
            let mut h = String::new();
            let ix = get(&spec.invx, i);
            let iv = get(&spec.inv, i);
            let en = get(&spec.lens, i);
            let de = get(&spec.dec, i);
            if ix.is_empty() && !spec.inv.contains_key(&i.to_string()) {
                fi.loops_uncovered += 1;
            }
            let pre = get(&spec.lpre, i).join("\n").replace("$i", &i.to_string());
            if !ix.is_empty() {
                h.push_str(&format!("invariant_except_break\n{},\n", ix.join(",\n")));
            }
            if !iv.is_empty() {
                h.push_str(&format!("invariant\n{},\n", iv.join(",\n")));
            }
            if !en.is_empty() {
                h.push_str(&format!("ensures\n{},\n", en.join(",\n")));
            }
            if !de.is_empty() {
                h.push_str(&format!("decreases {}\n", de.join(", ")));
            }
            heads.push(h.replace("$i", &i.to_string()));
            pres.push(pre);
            lb.push((get(&spec.lbegin, i).join("\n"), get(&spec.lend, i).join("\n")));
        }
        struct Loops<'a> {
            n: usize,
            heads: &'a [String],
            pres: &'a [String],
            lb: &'a [(String, String)],
            texts: &'a mut Vec<String>,
        }
        impl Loops<'_> {
            fn mark(&mut self, t: &str) -> Ident {
                self.texts.push(t.to_string());
                format_ident!("__VXT_{}", self.texts.len() - 1)
            }
        }
        impl VisitMut for Loops<'_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if matches!(e, Expr::Loop(_) | Expr::While(_)) {
                    let i = self.n;
                    self.n += 1;
                    visit_mut::visit_expr_mut(self, e);
                    let h = self.mark(&self.heads[i].clone());
                    let (a, z) = self.lb[i].clone();
                    let ins = |b: &mut Block, me: &mut Self| {
                        if !a.is_empty() {
                            let m = me.mark(&a);
                            b.stmts.insert(0, Stmt::Expr(Expr::Verbatim(quote!(#m)), None));
                        }
                        if !z.is_empty() {
                            let m = me.mark(&z);
                            b.stmts.push(Stmt::Expr(Expr::Verbatim(quote!(#m)), None));
                        }
                    };
                    *e = match e {
                        Expr::Loop(l) => {
                            let mut b = l.body.clone();
                            ins(&mut b, self);
                            let lab = &l.label;
                            Expr::Verbatim(quote!(#lab loop #h #b))
                        }
                        Expr::While(l) => {
                            let mut b = l.body.clone();
                            ins(&mut b, self);
                            let (lab, c) = (&l.label, &l.cond);
                            Expr::Verbatim(quote!(#lab while #c #h #b))
                        }
                        _ => unreachable!(),
                    };
                    if !self.pres[i].is_empty() {
                        let m = self.mark(&self.pres[i].clone());
                        let x = e.clone();
                        *e = Expr::Verbatim(quote!({ #m #x }));
                    }
                    return;
                }
                visit_mut::visit_expr_mut(self, e)
            }
        }
        Loops { n: 0, heads: &heads, pres: &pres, lb: &lb, texts }.visit_block_mut(b);
        // begin / end
        let be = self.join(&spec.begin).join("\n");
        if !be.is_empty() {
            texts.push(be);
            let m = format_ident!("__VXT_{}", texts.len() - 1);
            b.stmts.insert(0, Stmt::Expr(Expr::Verbatim(quote!(#m)), None));
        }
        let en = self.join(&spec.end).join("\n");
        if !en.is_empty() {
            texts.push(en);
            let m = format_ident!("__VXT_{}", texts.len() - 1);
            let at = match b.stmts.last() {
                Some(Stmt::Expr(_, None)) => b.stmts.len() - 1,
                _ => b.stmts.len(),
            };
            b.stmts.insert(at, Stmt::Expr(Expr::Verbatim(quote!(#m)), None));
        }
    }
}

struct Anchor<'a> {
    anchors: &'a [(String, usize, String, bool)],
    counts: Vec<usize>,
    hit: Vec<bool>,
    texts: &'a mut Vec<String>,
}
impl VisitMut for Anchor<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let f = flat(s.to_token_stream());
            let mut after = Vec::new();
            for i in 0..self.anchors.len() {
                let (p, n, t, bf) = &self.anchors[i];
                if f.starts_with(p.as_str()) {
                    let c = self.counts[i];
                    self.counts[i] += 1;
                    if c == *n {
                        self.hit[i] = true;
                        self.texts.push(t.clone());
                        let m = format_ident!("__VXT_{}", self.texts.len() - 1);
                        let st = Stmt::Expr(Expr::Verbatim(quote!(#m)), None);
                        if *bf {
                            b.stmts.push(st);
                        } else {
                            after.push(st);
                        }
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            b.stmts.push(s);
            b.stmts.extend(after);
        }
    }
}

/// marks every line of a tagged clause with the tag that owns it
pub fn owned(tag: &str, text: &str) -> String {
    let t = tag.split_whitespace().find(|t| !t.starts_with('!') && !t.starts_with('.')).unwrap_or("");
    if t.is_empty() || text.is_empty() {
        return text.to_string();
    }
    text.lines().map(|l| format!("/*@{t}*/ {l}")).collect::<Vec<_>>().join("\n")
}

fn fxhash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// the local variable a function body ends with: `x` or `Ok(x)`
fn tail_local(b: &Block) -> Option<String> {
    fn of(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Call(c) if c.args.len() == 1 => match &*c.func {
                Expr::Path(p) if p.path.is_ident("Ok") => of(&c.args[0]),
                _ => None,
            },
            Expr::Block(b) => tail_local(&b.block),
            _ => None,
        }
    }
    match b.stmts.last()? {
        Stmt::Expr(e, None) => of(e),
        _ => None,
    }
}
