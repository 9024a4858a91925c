//! A small, syntactic type lookup: enough to tell `Option` from `Result` receivers.
use crate::Krate;
use std::collections::HashMap;
use syn::*;

#[derive(Clone)]
pub struct MethodDef {
    pub krate: String,
    pub ty: String,
    pub sig: Signature,
    pub block: Block,
    pub hof: bool,
}

#[derive(Default)]
pub struct Info {
    pub fields: HashMap<(String, String), Type>,
    pub methods: HashMap<(String, String), MethodDef>,
    pub by_name: HashMap<String, Vec<MethodDef>>,
    pub free: HashMap<String, Signature>,
    pub types: HashMap<String, String>, // type name -> crate
}

pub fn head(t: &Type) -> Option<String> {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Type::Reference(r) => head(&r.elem),
        Type::Paren(p) => head(&p.elem),
        Type::Group(p) => head(&p.elem),
        _ => None,
    }
}

pub fn targ(t: &Type, n: usize) -> Option<Type> {
    match t {
        Type::Path(p) => match &p.path.segments.last()?.arguments {
            PathArguments::AngleBracketed(a) => a
                .args
                .iter()
                .filter_map(|x| if let GenericArgument::Type(t) = x { Some(t.clone()) } else { None })
                .nth(n),
            _ => None,
        },
        Type::Reference(r) => targ(&r.elem, n),
        _ => None,
    }
}

pub fn is_fn_type(t: &Type, g: &Generics) -> bool {
    match t {
        Type::BareFn(_) => true,
        Type::Path(p) => {
            if let Some(id) = p.path.get_ident() {
                let has_fn = |b: &punctuated::Punctuated<TypeParamBound, Token![+]>| {
                    b.iter().any(|b| {
                        if let TypeParamBound::Trait(t) = b {
                            let s = t.path.segments.last().unwrap().ident.to_string();
                            s == "Fn" || s == "FnMut" || s == "FnOnce"
                        } else {
                            false
                        }
                    })
                };
                for p in &g.params {
                    if let GenericParam::Type(tp) = p {
                        if &tp.ident == id && has_fn(&tp.bounds) {
                            return true;
                        }
                    }
                }
                if let Some(w) = &g.where_clause {
                    for pr in &w.predicates {
                        if let WherePredicate::Type(pt) = pr {
                            if let Type::Path(pp) = &pt.bounded_ty {
                                if pp.path.is_ident(id) && has_fn(&pt.bounds) {
                                    return true;
                                }
                            }
                        }
                    }
                }
            }
            false
        }
        Type::ImplTrait(i) => i.bounds.iter().any(|b| {
            if let TypeParamBound::Trait(t) = b {
                let s = t.path.segments.last().unwrap().ident.to_string();
                s == "Fn" || s == "FnMut" || s == "FnOnce"
            } else {
                false
            }
        }),
        _ => false,
    }
}

pub fn is_hof(sig: &Signature) -> bool {
    sig.inputs.iter().any(|a| if let FnArg::Typed(t) = a { is_fn_type(&t.ty, &sig.generics) } else { false })
}

pub fn collect(ks: &[Krate]) -> Info {
    let mut i = Info::default();
    for k in ks {
        items(&mut i, &k.short, &k.file.items);
    }
    i
}

fn items(i: &mut Info, k: &str, its: &[Item]) {
    for it in its {
        match it {
            Item::Mod(m) => {
                if let Some((_, c)) = &m.content {
                    items(i, k, c)
                }
            }
            Item::Struct(s) => {
                i.types.insert(s.ident.to_string(), k.into());
                for f in &s.fields {
                    if let Some(id) = &f.ident {
                        i.fields.insert((s.ident.to_string(), id.to_string()), f.ty.clone());
                    }
                }
            }
            Item::Enum(e) => {
                i.types.insert(e.ident.to_string(), k.into());
            }
            Item::Impl(im) => {
                if im.attrs.iter().any(|a| a.path().is_ident("automatically_derived")) {
                    continue;
                }
                let Some(ty) = head(&im.self_ty) else { continue };
                for x in &im.items {
                    if let ImplItem::Fn(f) = x {
                        let d = MethodDef { krate: k.into(), ty: ty.clone(), sig: f.sig.clone(), block: f.block.clone(), hof: is_hof(&f.sig) };
                        i.methods.insert((ty.clone(), f.sig.ident.to_string()), d.clone());
                        i.by_name.entry(f.sig.ident.to_string()).or_default().push(d);
                    }
                }
            }
            Item::Fn(f) => {
                i.free.insert(f.sig.ident.to_string(), f.sig.clone());
            }
            _ => {}
        }
    }
}

#[derive(Clone, Default)]
pub struct Env {
    pub self_ty: Option<String>,
    pub locals: HashMap<String, Type>,
}

impl Info {
    pub fn ret_of(&self, sig: &Signature) -> Option<Type> {
        match &sig.output {
            ReturnType::Type(_, t) => Some((**t).clone()),
            _ => None,
        }
    }

    pub fn infer(&self, e: &Expr, env: &Env) -> Option<Type> {
        match e {
            Expr::Paren(p) => self.infer(&p.expr, env),
            Expr::Group(p) => self.infer(&p.expr, env),
            Expr::Reference(r) => self.infer(&r.expr, env),
            Expr::Path(p) => {
                let id = p.path.get_ident()?.to_string();
                if id == "self" {
                    let t: Type = parse_str(env.self_ty.as_ref()?).ok()?;
                    return Some(t);
                }
                env.locals.get(&id).cloned()
            }
            Expr::Field(f) => {
                let b = self.infer(&f.base, env)?;
                let h = head(&b)?;
                if let Member::Named(n) = &f.member {
                    self.fields.get(&(h, n.to_string())).cloned()
                } else {
                    None
                }
            }
            Expr::Try(t) => {
                let b = self.infer(&t.expr, env)?;
                let h = head(&b)?;
                if h == "Result" || h == "Option" {
                    targ(&b, 0)
                } else {
                    None
                }
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last()?.ident.to_string();
                parse_str(&n).ok()
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let n = segs.len();
                    if n >= 2 {
                        let mut t = segs[n - 2].clone();
                        if t == "Self" {
                            t = env.self_ty.clone()?;
                        }
                        if let Some(m) = self.methods.get(&(t, segs[n - 1].clone())) {
                            return self.ret_of(&m.sig);
                        }
                    }
                    if segs == ["Iterator", "next"] {
                        return parse_str("Option<()>").ok();
                    }
                    if segs[n - 1] == "Some" {
                        return parse_str("Option<()>").ok();
                    }
                    if let Some(s) = self.free.get(&segs[n - 1]) {
                        return self.ret_of(s);
                    }
                }
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let rt = self.infer(&m.receiver, env);
                let rh = rt.as_ref().and_then(head);
                if name == "get" && m.args.len() == 1 {
                    if let Expr::Range(_) = &m.args[0] {
                        return parse_str("Option<()>").ok();
                    }
                }
                if ["find", "rfind", "strip_prefix", "position", "first", "last"].contains(&name.as_str()) && !rh.as_ref().map_or(false, |h| self.types.contains_key(h)) && self.by_name.get(&name).is_none() {
                    return parse_str("Option<()>").ok();
                }
                match (rh.as_deref(), name.as_str()) {
                    (Some("Result"), "ok") => {
                        let t = targ(rt.as_ref()?, 0)?;
                        return Some(parse_quote!(Option<#t>));
                    }
                    (Some("Result"), "err") => return parse_str("Option<Error>").ok(),
                    (Some("Result" | "Option"), "as_ref" | "as_mut" | "clone" | "map") => {
                        if name == "map" {
                            return parse_str(&format!("{}<()>", rh?)).ok();
                        }
                        return rt;
                    }
                    _ => {}
                }
                if name == "clone" || name == "as_slice" {
                    return rt;
                }
                if name == "then_try" {
                    return parse_str("Result<Option<()>>").ok();
                }
                if let Some(h) = &rh {
                    if let Some(d) = self.methods.get(&(h.clone(), name.clone())) {
                        return self.ret_of(&d.sig);
                    }
                    if self.types.contains_key(h) {
                        return None;
                    }
                }
                let c = self.by_name.get(&name)?;
                if c.is_empty() {
                    return None;
                }
                let r0 = self.ret_of(&c[0].sig)?;
                let h0 = head(&r0);
                if c.iter().all(|d| self.ret_of(&d.sig).as_ref().and_then(head) == h0) {
                    Some(r0)
                } else {
                    None
                }
            }
            _ => None,
        }
    }
}
