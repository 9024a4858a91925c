//! Semantics-preserving rewrites that bring a function body into the subset Verus accepts.
//! Each rule is documented in DESIGN.md, section "Extraction".
use crate::infer::{head, is_fn_type, targ, Env, Info, MethodDef};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// A request for a first-order copy of a higher-order function.
#[derive(Clone)]
pub struct Instance {
    pub orig: MethodDef,
    pub name: String,
    pub caller: String,
    pub sig: Signature,
    pub block: Block,
    pub locals: HashMap<String, Type>,
}

pub struct Rw<'a> {
    pub info: Rc<Info>,
    pub env: Env,
    pub caller: String,
    pub ghost_fields: &'a HashMap<String, String>, // struct -> "name: init"
    pub unsupported: Vec<String>,
    pub instances: Vec<Instance>,
    pub fresh: usize,
    pub inst_base: usize,
    pub hoisted: Vec<Item>,
    pub callees: HashSet<String>,
    pub rules: HashMap<&'static str, usize>,
}

pub fn is_call_to(e: &Expr, last: &str) -> bool {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            return p.path.segments.last().map_or(false, |s| s.ident == last);
        }
    }
    false
}

fn path_has(e: &Expr, first: &str, second: &str) -> bool {
    if let Expr::Path(p) = e {
        let s: Vec<_> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        return s.len() >= 2 && s[0] == first && s[1] == second;
    }
    false
}

/// Does `e` contain `?`, `return`, `break` or `continue` that would leave the closure body?
fn has_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Try(_) | Expr::Return(_) => self.0 = true,
                Expr::Closure(_) => return,
                _ => {}
            }
            visit::visit_expr(self, e)
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Return(_) => self.0 = true,
                Expr::Closure(_) => return,
                _ => {}
            }
            visit::visit_expr(self, e)
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
fn strip_ref(e: &Expr) -> &Expr {
    match strip(e) {
        Expr::Reference(r) => strip_ref(&r.expr),
        e => e,
    }
}

fn sub_pats(p: &Pat) -> Vec<Pat> {
    if let Pat::Or(o) = p {
        o.cases.iter().cloned().collect()
    } else {
        vec![p.clone()]
    }
}

fn has_or_pat(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_pat_or(&mut self, _: &'a PatOr) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}

/// `str`, `String` or a reference to one
fn is_text(t: &Type) -> bool {
    match t {
        Type::Reference(r) => is_text(&r.elem),
        Type::Path(p) => p.path.segments.last().map_or(false, |s| s.ident == "str" || s.ident == "String"),
        _ => false,
    }
}

/// All alternatives of a pattern with the or-patterns pulled to the top.
fn expand_or(p: &Pat) -> Vec<Pat> {
    match p {
        Pat::Or(o) => o.cases.iter().flat_map(expand_or).collect(),
        Pat::Paren(q) => expand_or(&q.pat),
        Pat::TupleStruct(t) => {
            let mut acc = vec![t.clone()];
            for i in 0..t.elems.len() {
                let alts = expand_or(&t.elems[i]);
                acc = acc.into_iter().flat_map(|a| alts.iter().map(move |x| { let mut b = a.clone(); b.elems[i] = x.clone(); b }).collect::<Vec<_>>()).collect();
            }
            acc.into_iter().map(Pat::TupleStruct).collect()
        }
        Pat::Struct(t) => {
            let mut acc = vec![t.clone()];
            for i in 0..t.fields.len() {
                let alts = expand_or(&t.fields[i].pat);
                acc = acc.into_iter().flat_map(|a| alts.iter().map(move |x| { let mut b = a.clone(); *b.fields[i].pat = x.clone(); b }).collect::<Vec<_>>()).collect();
            }
            acc.into_iter().map(Pat::Struct).collect()
        }
        Pat::Reference(r) => expand_or(&r.pat).into_iter().map(|x| { let mut b = r.clone(); *b.pat = x; Pat::Reference(b) }).collect(),
        Pat::Tuple(t) => {
            let mut acc = vec![t.clone()];
            for i in 0..t.elems.len() {
                let alts = expand_or(&t.elems[i]);
                acc = acc.into_iter().flat_map(|a| alts.iter().map(move |x| { let mut b = a.clone(); b.elems[i] = x.clone(); b }).collect::<Vec<_>>()).collect();
            }
            acc.into_iter().map(Pat::Tuple).collect()
        }
        Pat::Ident(pi) => {
            if let Some((at, sub)) = &pi.subpat {
                let alts = expand_or(sub);
                return alts.into_iter().map(|x| { let mut b = pi.clone(); b.subpat = Some((*at, Box::new(x))); Pat::Ident(b) }).collect();
            }
            vec![p.clone()]
        }
        _ => vec![p.clone()],
    }
}

impl<'a> Rw<'a> {
    fn rule(&mut self, r: &'static str) {
        *self.rules.entry(r).or_default() += 1;
    }
    fn tmp(&mut self, s: &str) -> Ident {
        self.fresh += 1;
        format_ident!("vx_{}{}", s, self.fresh)
    }

    /// Expression obtained by calling `f` (closure, path or `&f`) on `args`.
    fn apply(&mut self, f: &Expr, args: &[Expr]) -> Expr {
        match strip_ref(f) {
            Expr::Closure(c) => {
                let pats: Vec<Pat> = c
                    .inputs
                    .iter()
                    .map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() })
                    .collect();
                let body = &c.body;
                if pats.is_empty() {
                    return parse_quote!(({ #body }));
                }
                if pats.len() == 1 {
                    let p = &pats[0];
                    let a = &args[0];
                    if matches!(p, Pat::Wild(_)) {
                        return parse_quote!(({ #body }));
                    }
                    return parse_quote!(({ let #p = #a; #body }));
                }
                parse_quote!(({ let (#(#pats),*) = (#(#args),*); #body }))
            }
            e => parse_quote!(#e(#(#args),*)),
        }
    }

    /// Pattern for the bound value and expression for the result of `f(value)`.
    fn bind(&mut self, f: &Expr) -> (Pat, Expr) {
        if let Expr::Closure(c) = strip_ref(f) {
            if c.inputs.len() == 1 {
                let p = if let Pat::Type(t) = &c.inputs[0] { (*t.pat).clone() } else { c.inputs[0].clone() };
                let b = (*c.body).clone();
                return (p, b);
            }
        }
        let v = self.tmp("v");
        let e = self.apply(f, &[parse_quote!(#v)]);
        (parse_quote!(#v), e)
    }

    fn kind(&self, e: &Expr) -> Option<String> {
        self.info.infer(e, &self.env).as_ref().and_then(head)
    }

    fn fail(&mut self, m: String) {
        self.unsupported.push(format!("{}: {}", self.caller, m));
    }

    fn closure_arg_exit(&mut self, m: &ExprMethodCall) -> bool {
        m.args.iter().any(|a| if let Expr::Closure(c) = strip_ref(a) { has_exit(&c.body) } else { false })
    }

    /// Rules R6 and R8: combinators on `Option`, `Result` and `bool`.
    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let r = &*m.receiver;
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let takes_fn = ["map", "map_or", "map_or_else", "unwrap_or_else", "and_then", "map_err", "ok_or_else", "is_some_and", "is_ok_and", "is_none_or", "filter", "or_else", "then", "then_try"];
        if takes_fn.contains(&name.as_str()) && self.closure_arg_exit(m) {
            self.fail(format!("closure with early exit passed to .{name}()"));
            return None;
        }
        if name == "then" && args.len() == 1 && matches!(strip_ref(&args[0]), Expr::Closure(_)) {
            self.rule("R7");
            let b = self.apply(&args[0], &[]);
            return Some(parse_quote!(if #r { Some(#b) } else { None }));
        }
        if name == "then_some" && args.len() == 1 {
            let b = &args[0];
            return Some(parse_quote!(if #r { Some(#b) } else { None }));
        }
        if name == "then_try" && args.len() == 1 {
            self.rule("R7");
            let b = self.apply(&args[0], &[]);
            return Some(parse_quote!(if #r { match #b { Ok(vx_v) => Ok(Some(vx_v)), Err(vx_e) => Err(vx_e) } } else { Ok(None) }));
        }
        let simple = ["ok", "err", "ok_or", "unwrap_or", "unwrap_or_default"];
        if !takes_fn.contains(&name.as_str()) && !simple.contains(&name.as_str()) && !(name == "as_ref" && self.kind(r).as_deref() == Some("Result")) {
            return None;
        }
        let kind = match name.as_str() {
            "ok" | "err" | "map_err" | "is_ok_and" => "Result".to_string(),
            "ok_or" | "ok_or_else" | "is_some_and" | "filter" | "is_none_or" => "Option".to_string(),
            _ => self.kind(r)?,
        };
        if kind != "Option" && kind != "Result" {
            return None;
        }
        let res = kind == "Result";
        let e: Expr = match (name.as_str(), res) {
            ("ok", _) => parse_quote!(match #r { Ok(vx_v) => Some(vx_v), Err(_) => None }),
            ("err", _) => parse_quote!(match #r { Ok(_) => None, Err(vx_e) => Some(vx_e) }),
            ("as_ref", true) => {
                let r = strip(r);
                parse_quote!(match &#r { Ok(vx_v) => Ok(vx_v), Err(vx_e) => Err(vx_e) })
            }
            ("map", true) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Ok(#p) => Ok(#b), Err(vx_e) => Err(vx_e) })
            }
            ("map", false) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Some(#p) => Some(#b), None => None })
            }
            ("map_or", true) => {
                let (p, b) = self.bind(&args[1]);
                let d = &args[0];
                parse_quote!(match #r { Ok(#p) => #b, Err(_) => #d })
            }
            ("map_or", false) => {
                let (p, b) = self.bind(&args[1]);
                let d = &args[0];
                parse_quote!(match #r { Some(#p) => #b, None => #d })
            }
            ("map_or_else", false) => {
                let (p, b) = self.bind(&args[1]);
                let d = self.apply(&args[0], &[]);
                parse_quote!(match #r { Some(#p) => #b, None => #d })
            }
            ("map_or_else", true) => {
                let (p, b) = self.bind(&args[1]);
                let (q, d) = self.bind(&args[0]);
                parse_quote!(match #r { Ok(#p) => #b, Err(#q) => #d })
            }
            ("unwrap_or_else", true) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Ok(vx_v) => vx_v, Err(#p) => #b })
            }
            ("unwrap_or_else", false) => {
                let b = self.apply(&args[0], &[]);
                parse_quote!(match #r { Some(vx_v) => vx_v, None => #b })
            }
            ("unwrap_or", true) => {
                let d = &args[0];
                parse_quote!(match #r { Ok(vx_v) => vx_v, Err(_) => #d })
            }
            ("unwrap_or", false) => {
                let d = &args[0];
                parse_quote!(match #r { Some(vx_v) => vx_v, None => #d })
            }
            ("and_then", true) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Ok(#p) => #b, Err(vx_e) => Err(vx_e) })
            }
            ("and_then", false) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Some(#p) => #b, None => None })
            }
            ("or_else", true) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => #b })
            }
            ("or_else", false) => {
                let b = self.apply(&args[0], &[]);
                parse_quote!(match #r { Some(vx_v) => Some(vx_v), None => #b })
            }
            ("map_err", _) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Ok(vx_v) => Ok(vx_v), Err(#p) => Err(#b) })
            }
            ("ok_or", _) => {
                let d = &args[0];
                parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#d) })
            }
            ("ok_or_else", _) => {
                let d = self.apply(&args[0], &[]);
                parse_quote!(match #r { Some(vx_v) => Ok(vx_v), None => Err(#d) })
            }
            ("is_some_and", _) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Some(#p) => #b, None => false })
            }
            ("is_none_or", _) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Some(#p) => #b, None => true })
            }
            ("is_ok_and", _) => {
                let (p, b) = self.bind(&args[0]);
                parse_quote!(match #r { Ok(#p) => #b, Err(_) => false })
            }
            _ => return None,
        };
        self.rule("R6");
        Some(e)
    }

    /// `cond.then_try(|| body)?`: inside, `?` leaves the same function with the same error type.
    fn then_try_q(&mut self, t: &ExprTry) -> Option<Expr> {
        if let Expr::MethodCall(m) = strip(&t.expr) {
            if m.method == "then_try" && m.args.len() == 1 {
                if let Expr::Closure(c) = strip_ref(&m.args[0]) {
                    if has_return(&c.body) {
                        self.fail("return inside then_try closure".into());
                        return None;
                    }
                }
                self.rule("R7");
                let r = &m.receiver;
                let b = self.apply(&m.args[0], &[]);
                // a block whose tail is `Ok(x)` yields `x`; anything else is propagated
                let b = push_question(b);
                return Some(parse_quote!(if #r { Some(#b) } else { None }));
            }
        }
        None
    }

    fn hof_call(&mut self, e: &Expr) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let name = m.method.to_string();
        let cands = self.info.by_name.get(&name)?;
        let rh = self.kind(&m.receiver);
        let def = cands
            .iter()
            .find(|d| d.hof && rh.as_deref() == Some(&d.ty))
            .or_else(|| cands.iter().find(|d| d.hof && cands.len() == 1))?
            .clone();
        let params: Vec<(Ident, Type)> = def
            .sig
            .inputs
            .iter()
            .filter_map(|a| if let FnArg::Typed(t) = a { if let Pat::Ident(p) = &*t.pat { return Some((p.ident.clone(), (*t.ty).clone())) } else { None } } else { None })
            .collect();
        if params.len() != m.args.len() {
            self.fail(format!("higher-order call {name}: arity"));
            return None;
        }
        let mut subst: HashMap<String, Expr> = HashMap::new();
        let mut keep_args: Vec<Expr> = Vec::new();
        let mut inputs: Vec<FnArg> = def.sig.inputs.iter().take(1).cloned().collect();
        let mut tsub: HashMap<String, Type> = HashMap::new();
        let mut locals = HashMap::new();
        let mut extra: Vec<(Ident, Type)> = Vec::new();
        for ((pid, pty), a) in params.iter().zip(m.args.iter()) {
            if is_fn_type(pty, &def.sig.generics) {
                let a = strip_ref(a).clone();
                // captured variables of a closure become parameters of the copy
                if let Expr::Closure(c) = &a {
                    for id in captures(c) {
                        if let Some(t) = self.env.locals.get(&id) {
                            let iid = Ident::new(&id, Span::call_site());
                            if !extra.iter().any(|(x, _)| *x == iid) {
                                extra.push((iid, t.clone()));
                            }
                        } else if id == "self" {
                            self.fail(format!("closure passed to {name} captures self"));
                        }
                    }
                }
                // T of the function type, from an explicit `Option<X>` result
                if let Some(rt) = fn_ret(pty, &def.sig.generics) {
                    if let Some(at) = self.fn_ret_of_arg(&a) {
                        unify(&rt, &at, &def.sig.generics, &mut tsub);
                    }
                }
                subst.insert(pid.to_string(), a);
            } else {
                keep_args.push(a.clone());
                inputs.push(parse_quote!(#pid: #pty));
                locals.insert(pid.to_string(), pty.clone());
            }
        }
        for (id, t) in &extra {
            if !matches!(head(t).as_deref(), Some("bool" | "usize" | "char" | "u32" | "u8" | "i64" | "u64")) {
                self.fail(format!("closure passed to {name} captures {id} of non-Copy type"));
            }
            inputs.push(parse_quote!(#id: #t));
            keep_args.push(parse_quote!(#id));
            locals.insert(id.to_string(), t.clone());
        }
        let mut block = def.block.clone();
        Subst(&subst, &tsub, self).visit_block_mut(&mut block);
        let mut sig = def.sig.clone();
        sig.inputs = inputs.into_iter().collect();
        if !matches!(sig.inputs.first(), Some(FnArg::Receiver(_))) {
            return None;
        }
        // drop the generics that only described the function arguments
        let mut g = Generics::default();
        for p in &def.sig.generics.params {
            if let GenericParam::Type(tp) = p {
                let used_fn = params.iter().any(|(_, t)| if let Type::Path(tp2) = t { tp2.path.is_ident(&tp.ident) && is_fn_type(t, &def.sig.generics) } else { false });
                if used_fn || tsub.contains_key(&tp.ident.to_string()) {
                    continue;
                }
                if is_unbound(tp, &def.sig) {
                    self.fail(format!("higher-order call {name}: cannot determine {}", tp.ident));
                }
            }
            g.params.push(p.clone());
        }
        sig.generics = g;
        TSub(&tsub).visit_signature_mut(&mut sig);
        let n = self.inst_base + self.instances.len() + 1;
        let nm = format!("{}__{}", name, n);
        sig.ident = Ident::new(&nm, Span::call_site());
        self.rule("R9");
        self.instances.push(Instance { orig: def, name: nm.clone(), caller: self.caller.clone(), sig, block, locals });
        let r = &m.receiver;
        let f = Ident::new(&nm, Span::call_site());
        Some(parse_quote!(#r.#f(#(#keep_args),*)))
    }

    fn fn_ret_of_arg(&self, a: &Expr) -> Option<Type> {
        match a {
            Expr::Closure(c) => {
                if let ReturnType::Type(_, t) = &c.output {
                    return Some((**t).clone());
                }
                // Option<X> where some leaf is `Some(<path>::X::Variant)`
                struct V(Option<Type>);
                impl<'b> Visit<'b> for V {
                    fn visit_expr_call(&mut self, c: &'b ExprCall) {
                        if let Expr::Path(p) = &*c.func {
                            if p.path.is_ident("Some") && c.args.len() == 1 {
                                if let Expr::Path(q) = strip(&c.args[0]) {
                                    let n = q.path.segments.len();
                                    if n >= 2 {
                                        let mut pp = q.path.clone();
                                        pp.segments.pop();
                                        pp.segments.pop_punct();
                                        self.0 = Some(parse_quote!(Option<#pp>));
                                    }
                                }
                            }
                        }
                        visit::visit_expr_call(self, c)
                    }
                }
                let mut v = V(None);
                v.visit_expr(&c.body);
                v.0
            }
            _ => None,
        }
    }

    fn panics(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::Call(c) = e {
            if path_has(&c.func, "core", "panicking") || path_has(&c.func, "std", "panicking") || is_begin_panic(&c.func) {
                self.rule("R2");
                return Some(parse_quote!(crate::vx::unreached()));
            }
        }
        // assert_eq!/assert_ne!
        if let Expr::Match(m) = e {
            if m.arms.len() == 1 {
                if let Pat::Tuple(t) = &m.arms[0].pat {
                    let names: Vec<String> = t.elems.iter().map(|p| p.to_token_stream().to_string()).collect();
                    if names == ["left_val", "right_val"] {
                        if let Expr::Tuple(tt) = &*m.expr {
                            let a = strip_ref(&tt.elems[0]);
                            let b = strip_ref(&tt.elems[1]);
                            let body = m.arms[0].body.to_token_stream().to_string();
                            self.rule("R2");
                            let ne = body.contains("AssertKind :: Ne");
                            return Some(if ne { parse_quote!(if #a == #b { crate::vx::unreached() }) } else { parse_quote!(if !(#a == #b) { crate::vx::unreached() }) });
                        }
                    }
                }
            }
        }
        None
    }

    fn vec_lit(&mut self, e: &Expr) -> Option<Expr> {
        if is_call_to(e, "box_assume_init_into_vec_unsafe") {
            struct F(Option<ExprArray>);
            impl<'b> Visit<'b> for F {
                fn visit_expr_array(&mut self, a: &'b ExprArray) {
                    if self.0.is_none() {
                        self.0 = Some(a.clone());
                    }
                }
            }
            let mut f = F(None);
            f.visit_expr(e);
            let a = f.0?;
            let v = self.tmp("vec");
            let el = a.elems.iter();
            self.rule("R4");
            return Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#el);)* #v }));
        }
        None
    }
}

fn is_begin_panic(e: &Expr) -> bool {
    if let Expr::Path(p) = e {
        let l = p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        return l == "begin_panic" || l == "panic_fmt" || l == "panic_display" || l == "unreachable_display";
    }
    false
}

fn is_unbound(tp: &TypeParam, sig: &Signature) -> bool {
    let id = tp.ident.to_string();
    !sig.inputs.iter().any(|a| if let FnArg::Typed(t) = a { !is_fn_type(&t.ty, &sig.generics) && t.ty.to_token_stream().to_string().contains(&id) } else { false })
}

/// `e` has type Result; produce an expression for its Ok value, propagating errors with `?`.
fn push_question(e: Expr) -> Expr {
    match e {
        Expr::Paren(p) => {
            let i = push_question(*p.expr);
            parse_quote!((#i))
        }
        Expr::Block(mut b) => {
            if let Some(Stmt::Expr(_, None)) = b.block.stmts.last() {
                if let Some(Stmt::Expr(t, None)) = b.block.stmts.pop() {
                    b.block.stmts.push(Stmt::Expr(push_question(t), None));
                }
                Expr::Block(b)
            } else {
                parse_quote!(#b?)
            }
        }
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) && c.args.len() == 1 => c.args[0].clone(),
        e => parse_quote!((#e)?),
    }
}

fn fn_ret(t: &Type, g: &Generics) -> Option<Type> {
    fn of_bounds(b: &punctuated::Punctuated<TypeParamBound, Token![+]>) -> Option<Type> {
        for x in b {
            if let TypeParamBound::Trait(t) = x {
                if let PathArguments::Parenthesized(p) = &t.path.segments.last().unwrap().arguments {
                    if let ReturnType::Type(_, t) = &p.output {
                        return Some((**t).clone());
                    }
                }
            }
        }
        None
    }
    match t {
        Type::BareFn(f) => {
            if let ReturnType::Type(_, t) = &f.output {
                Some((**t).clone())
            } else {
                None
            }
        }
        Type::ImplTrait(i) => of_bounds(&i.bounds),
        Type::Path(p) => {
            let id = p.path.get_ident()?;
            for q in &g.params {
                if let GenericParam::Type(tp) = q {
                    if &tp.ident == id {
                        if let Some(t) = of_bounds(&tp.bounds) {
                            return Some(t);
                        }
                    }
                }
            }
            for pr in &g.where_clause.as_ref()?.predicates {
                if let WherePredicate::Type(pt) = pr {
                    if let Type::Path(pp) = &pt.bounded_ty {
                        if pp.path.is_ident(id) {
                            return of_bounds(&pt.bounds);
                        }
                    }
                }
            }
            None
        }
        _ => None,
    }
}

fn unify(pat: &Type, t: &Type, g: &Generics, out: &mut HashMap<String, Type>) {
    if let Type::Path(p) = pat {
        if let Some(id) = p.path.get_ident() {
            if g.params.iter().any(|q| matches!(q, GenericParam::Type(tp) if &tp.ident == id)) {
                out.insert(id.to_string(), t.clone());
                return;
            }
        }
    }
    if head(pat) == head(t) {
        for i in 0..3 {
            if let (Some(a), Some(b)) = (targ(pat, i), targ(t, i)) {
                unify(&a, &b, g, out);
            }
        }
    }
}

struct TSub<'a>(&'a HashMap<String, Type>);
impl VisitMut for TSub<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if let Some(id) = p.path.get_ident() {
                if let Some(n) = self.0.get(&id.to_string()) {
                    *t = n.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t)
    }
}

/// Free single-segment identifiers of a closure.
fn captures(c: &ExprClosure) -> Vec<String> {
    struct B(HashSet<String>);
    impl<'b> Visit<'b> for B {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) {
            self.0.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p)
        }
    }
    struct U(Vec<String>);
    impl<'b> Visit<'b> for U {
        fn visit_expr_path(&mut self, p: &'b ExprPath) {
            if let Some(i) = p.path.get_ident() {
                self.0.push(i.to_string());
            }
        }
    }
    let mut b = B(HashSet::new());
    for p in &c.inputs {
        b.visit_pat(p);
    }
    b.visit_expr(&c.body);
    let mut u = U(Vec::new());
    u.visit_expr(&c.body);
    let mut v: Vec<String> = u.0.into_iter().filter(|x| !b.0.contains(x) && x != "None").collect();
    v.sort();
    v.dedup();
    v
}

struct Subst<'a, 'b, 'c> {
    map: &'a HashMap<String, Expr>,
    tsub: &'a HashMap<String, Type>,
    rw: &'a mut Rw<'b>,
    #[allow(dead_code)]
    _p: std::marker::PhantomData<&'c ()>,
}
#[allow(non_snake_case)]
fn Subst<'a, 'b>(map: &'a HashMap<String, Expr>, tsub: &'a HashMap<String, Type>, rw: &'a mut Rw<'b>) -> Subst<'a, 'b, 'static> {
    Subst { map, tsub, rw, _p: std::marker::PhantomData }
}
impl VisitMut for Subst<'_, '_, '_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = strip(&c.func) {
                if let Some(id) = p.path.get_ident() {
                    if let Some(f) = self.map.get(&id.to_string()).cloned() {
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        for a in &mut args {
                            self.visit_expr_mut(a);
                        }
                        *e = self.rw.apply(&f, &args);
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if let Some(id) = p.path.get_ident() {
                if let Some(f) = self.map.get(&id.to_string()) {
                    *e = f.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e)
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        TSub(self.tsub).visit_type_mut(t)
    }
}

/// Does the pattern bind a variable? (unit constants and variants start with a capital letter)
fn pat_binds(p: &Pat) -> bool {
    struct B(bool);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            if p.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.0 = true;
            }
            visit::visit_pat_ident(self, p)
        }
    }
    let mut b = B(false);
    b.visit_pat(p);
    b.0
}

impl VisitMut for Rw<'_> {
    /// R17: `&pat` without bindings is `pat` under default binding modes.
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if !pat_binds(&r.pat) && r.mutability.is_none() {
                let q = (*r.pat).clone();
                *p = if let Pat::Paren(x) = q { *x.pat } else { q };
                self.rule("R17");
            }
        }
        visit_mut::visit_pat_mut(self, p)
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        // R10: local items are hoisted to module level
        let mut out = Vec::new();
        for s in b.stmts.drain(..) {
            match s {
                Stmt::Item(Item::Use(u)) => out.push(Stmt::Item(Item::Use(u))),
                Stmt::Item(i) => {
                    self.rule("R10");
                    self.hoisted.push(i)
                }
                s => out.push(s),
            }
        }
        b.stmts = out;
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
        }
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Some(i) = &mut l.init {
            self.visit_expr_mut(&mut i.expr);
            if let Some((_, d)) = &mut i.diverge {
                self.visit_expr_mut(d);
            }
        }
        match &l.pat {
            Pat::Ident(p) => {
                let t = l.init.as_ref().and_then(|i| self.info.infer(&i.expr, &self.env));
                let n = p.ident.to_string();
                match t {
                    Some(t) => {
                        self.env.locals.insert(n, t);
                    }
                    None => {
                        self.env.locals.remove(&n);
                    }
                }
            }
            Pat::Type(pt) => {
                if let Pat::Ident(p) = &*pt.pat {
                    self.env.locals.insert(p.ident.to_string(), (*pt.ty).clone());
                }
            }
            _ => {}
        }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // rules that look at the original shape first
        if let Some(n) = self.panics(e) {
            *e = n;
            // assert operands still need rewriting
            if let Expr::If(_) = e {
                visit_mut::visit_expr_mut(self, e);
            }
            return;
        }
        if let Some(n) = self.vec_lit(e) {
            *e = n;
        }
        if is_call_to(e, "must_use") || is_call_to(e, "format") {
            let s = e.to_token_stream().to_string();
            if s.contains("format_args") {
                self.rule("R3");
                *e = parse_quote!(crate::vx::opaque_string());
                return;
            }
        }
        if let Expr::Macro(m) = e {
            let s = m.mac.path.to_token_stream().to_string();
            self.fail(format!("macro {s}!"));
            return;
        }
        if let Expr::Try(t) = e {
            if let Some(n) = self.then_try_q(&t.clone()) {
                *e = n;
            }
        }
        if let Some(n) = self.hof_call(e) {
            *e = n;
        }
        if let Expr::MethodCall(m) = e {
            // `(a..=b).contains(x)` (R16)
            if m.method == "contains" && m.args.len() == 1 {
                if let Expr::Range(r) = strip(&m.receiver) {
                    if let (Some(a), Some(z)) = (&r.start, &r.end) {
                        let x = &m.args[0];
                        self.rule("R16");
                        *e = match r.limits {
                            RangeLimits::Closed(_) => parse_quote!((#a <= *#x && *#x <= #z)),
                            RangeLimits::HalfOpen(_) => parse_quote!((#a <= *#x && *#x < #z)),
                        };
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // `list.iter().any(|x| ..)` (R13)
            if m.method == "any" && m.args.len() == 1 {
                if let Expr::MethodCall(it) = strip(&m.receiver) {
                    if it.method == "iter" {
                        if let Expr::Closure(_) = strip_ref(&m.args[0]) {
                            let base = &it.receiver;
                            let (p, b) = self.bind(&m.args[0]);
                            let i = self.tmp("i");
                            let f = self.tmp("found");
                            self.rule("R13");
                            *e = parse_quote!({
                                let mut #i: usize = 0;
                                let mut #f = false;
                                while #i < #base.len() && !#f {
                                    let #p = &#base[#i];
                                    #i += 1;
                                    if #b { #f = true; }
                                }
                                #f
                            });
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // `list.iter().flat_map(|x| ..).collect()` into a Vec (R20)
            if m.method == "collect" && m.args.is_empty() {
                if let Expr::MethodCall(fm) = strip(&m.receiver) {
                    if let Expr::MethodCall(it) = strip(&fm.receiver) {
                        if it.method == "iter" && (fm.method == "flat_map" || fm.method == "map") && fm.args.len() == 1 {
                            if let Expr::Closure(_) = strip_ref(&fm.args[0]) {
                                let base = &it.receiver;
                                let (p, b) = self.bind(&fm.args[0]);
                                let i = self.tmp("i");
                                let v = self.tmp("acc");
                                self.rule("R20");
                                let add: Stmt = if fm.method == "map" { parse_quote!(#v.push(#b);) } else { parse_quote!(#v.append(&mut #b);) };
                                *e = parse_quote!({
                                    let mut #v = Vec::new();
                                    let mut #i: usize = 0;
                                    while #i < #base.len() {
                                        let #p = &#base[#i];
                                        #i += 1;
                                        #add
                                    }
                                    #v
                                });
                            }
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // `list.iter().peekable()` (R19)
            if m.method == "peekable" && m.args.is_empty() {
                if let Expr::MethodCall(it) = strip(&m.receiver) {
                    if it.method == "iter" && it.args.is_empty() {
                        let b = &it.receiver;
                        self.rule("R19");
                        *e = parse_quote!(crate::vx::slice_peek(&#b));
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // string methods with a literal pattern (R18)
            let r = &m.receiver;
            let lit = m.args.first().and_then(|a| if let Expr::Lit(l) = strip(a) { Some(l.lit.clone()) } else { None });
            let n: Option<Expr> = match (m.method.to_string().as_str(), m.args.len(), &lit) {
                ("contains", 1, Some(Lit::Str(l))) => Some(parse_quote!(crate::vx::str_contains(&#r, #l))),
                ("contains", 1, Some(Lit::Char(l))) => Some(parse_quote!(crate::vx::str_contains_char(&#r, #l))),
                ("find", 1, Some(Lit::Char(l))) => Some(parse_quote!(crate::vx::str_find_char(&#r, #l))),
                ("rfind", 1, Some(Lit::Char(l))) => Some(parse_quote!(crate::vx::str_rfind_char(&#r, #l))),
                ("starts_with", 1, Some(Lit::Str(l))) => Some(parse_quote!(crate::vx::str_starts_with(&#r, #l))),
                ("len", 0, _) if self.info.infer(r, &self.env).map_or(false, |t| is_text(&t)) => Some(parse_quote!(crate::vx::str_len(&#r))),
                ("get", 1, _) if matches!(&m.args[0], Expr::Range(g) if g.start.is_some() && g.end.is_none()) => {
                    let Expr::Range(g) = &m.args[0] else { unreachable!() };
                    let a = g.start.as_ref().unwrap();
                    Some(parse_quote!(crate::vx::str_get_from(&#r, #a)))
                }
                ("ends_with", 1, Some(Lit::Char(l))) => Some(parse_quote!(crate::vx::str_ends_with_char(&#r, #l))),
                ("starts_with", 1, Some(Lit::Char(l))) => Some(parse_quote!(crate::vx::str_starts_with_char(&#r, #l))),
                ("char_indices", 0, _) if matches!(strip(r), Expr::Index(_)) => Some(parse_quote!(crate::vx::char_indices(&&#r))),
                ("char_indices", 0, _) => Some(parse_quote!(crate::vx::char_indices(&#r))),
                ("count", 0, _) => match strip(r) {
                    Expr::MethodCall(mm) if mm.method == "matches" && mm.args.len() == 1 => match strip(&mm.args[0]) {
                        Expr::Lit(ExprLit { lit: Lit::Char(l), .. }) => {
                            let b = &mm.receiver;
                            Some(parse_quote!(crate::vx::str_count_char(&#b, #l)))
                        }
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some(n) = n {
                self.rule("R18");
                *e = n;
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.combinator(&m.clone()) {
                *e = n;
            }
        }
        match e {
            Expr::ForLoop(f) => {
                // R14: `for p in &list` / `list.iter()` over an indexable list
                let base: Option<Expr> = match strip(&f.expr) {
                    Expr::Reference(r) if r.mutability.is_none() => Some((*r.expr).clone()),
                    Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((*m.receiver).clone()),
                    Expr::Path(_) => match self.info.infer(&f.expr, &self.env) {
                        Some(Type::Reference(_)) => Some((*f.expr).clone()),
                        _ => None,
                    },
                    _ => None,
                };
                match base {
                    Some(b) => {
                        let p = &f.pat;
                        let i = self.tmp("i");
                        let stmts = &f.body.stmts;
                        let label = &f.label;
                        self.rule("R14");
                        *e = parse_quote!({
                            let mut #i: usize = 0;
                            #label while #i < #b.len() {
                                let #p = &#b[#i];
                                #i += 1;
                                #(#stmts)*
                            }
                        });
                    }
                    None => {
                        let s = f.expr.to_token_stream().to_string();
                        self.fail(format!("for loop over {s}"))
                    }
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                    self.rule("R15");
                    *e = parse_quote!(#lab loop { match #x { #p => #b _ => break } });
                }
            }
            Expr::Match(m) => {
                // R5
                let mut arms = Vec::new();
                let simple = match &*m.expr {
                    Expr::Path(p) if p.path.get_ident().is_some() => Some(m.expr.clone()),
                    _ => None,
                };
                for a in m.arms.drain(..) {
                    let top_or = matches!(&a.pat, Pat::Or(o) if o.cases.iter().all(|c| matches!(c, Pat::Lit(_) | Pat::Range(_))));
                    if let (Some(x), Some((_, g)), true) = (&simple, &a.guard, top_or) {
                        // `p | q if g` on a variable: `_ if matches!(x, p | q) && g`
                        self.rule("R5");
                        let (p, body) = (&a.pat, &a.body);
                        arms.push(parse_quote!(_ if (match #x { #p => true, _ => false }) && (#g) => #body,));
                        continue;
                    }
                    if a.guard.is_some() && has_or_pat(&a.pat) {
                        self.rule("R5");
                        let ps = expand_or(&a.pat);
                        let _ = sub_pats;
                        for p in ps {
                            let mut b = a.clone();
                            b.pat = p;
                            if b.comma.is_none() {
                                b.comma = Some(Default::default());
                            }
                            arms.push(b);
                        }
                    } else {
                        arms.push(a);
                    }
                }
                // R31: `P if g => A, _ => b` at the end, with a trivial b: the guard moves into the arm
                let n = arms.len();
                if n >= 2 {
                    let last: &Arm = &arms[n - 1];
                    let prev: &Arm = &arms[n - 2];
                    let tiny = last.body.to_token_stream().to_string() == "None";
                    if matches!(last.pat, Pat::Wild(_)) && last.guard.is_none() && tiny && prev.guard.is_some() {
                        self.rule("R31");
                        let (p, a, b) = (prev.pat.clone(), prev.body.clone(), last.body.clone());
                        let g = prev.guard.clone().unwrap().1;
                        arms[n - 2] = parse_quote!(#p => if #g { #a } else { #b },);
                    }
                }
                m.arms = arms;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                self.callees.insert(m.method.to_string());
                // R21: Box / String as_ref, Box as_mut through prelude traits
                if m.args.is_empty() && (m.method == "as_ref" || m.method == "as_mut") {
                    m.method = format_ident!("vx_{}", m.method);
                    return;
                }
                if m.method == "parse" && m.args.is_empty() {
                    let r = &m.receiver;
                    *e = parse_quote!(crate::vx::parse_str(&#r));
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    self.callees.insert(segs.last().unwrap().clone());
                    if segs == ["char", "try_from"] {
                        let a = &c.args;
                        *e = parse_quote!(crate::vx::char_try_from(#a));
                        return;
                    }
                    if segs == ["u32", "from_str_radix"] {
                        let a = &c.args;
                        *e = parse_quote!(crate::vx::u32_from_str_radix(#a));
                        return;
                    }
                    if segs == ["Iterator", "next"] {
                        let a = &c.args;
                        *e = parse_quote!(crate::vx::char_indices_next(#a));
                    }
                }
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                if let Some(init) = self.ghost_fields.get(&n) {
                    if s.rest.is_none() {
                        let f: FieldValue = parse_str(init).expect("ghost field init");
                        if !s.fields.empty_or_trailing() {
                            s.fields.push_punct(Default::default());
                        }
                        s.fields.push_value(f);
                    }
                }
            }
            Expr::Binary(b) => {
                // R32: `text == "literal"` through the prelude (std's String == str has no specification)
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && matches!(&*b.right, Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) {
                    let (l, r) = (&b.left, &b.right);
                    let ne = matches!(b.op, BinOp::Ne(_));
                    *e = if ne { parse_quote!(!crate::vx::text_is(&#l, #r)) } else { parse_quote!(crate::vx::text_is(&#l, #r)) };
                    self.rule("R32");
                    return;
                }
                if matches!(b.op, BinOp::Eq(_)) && matches!(strip(&b.left), Expr::Path(_)) && matches!(strip(&b.right), Expr::Path(_)) {
                    let is = |e: &Expr| self.kind(e).map_or(false, |k| k == "str");
                    let (l, r) = (&b.left, &b.right);
                    if is(l) || is(r) {
                        *e = if is(l) { parse_quote!(crate::vx::text_is(&#r, #l)) } else { parse_quote!(crate::vx::text_is(&#l, #r)) };
                        self.rule("R32");
                        return;
                    }
                }
                if let BinOp::BitOrAssign(_) = b.op {
                    if self.kind(&b.left).map_or(false, |h| self.info.types.contains_key(&h)) {
                        let (l, r) = (&b.left, &b.right);
                        *e = parse_quote!(#l.bitor_assign(#r));
                        return;
                    }
                }
                if let BinOp::BitOr(_) = b.op {
                    let t = path_ty(&b.left).or_else(|| self.kind(&b.left));
                    if t.map_or(false, |h| self.info.types.contains_key(&h)) {
                        let (l, r) = (&b.left, &b.right);
                        *e = parse_quote!(#l.bitor(#r));
                    }
                }
            }
            Expr::Index(ix) => {
                if let Expr::Range(r) = strip(&ix.index) {
                    let b = &ix.expr;
                    self.rule("R11");
                    let n: Expr = match (&r.start, &r.end, &r.limits) {
                        (Some(a), None, _) => parse_quote!(crate::vx::slice_from(&#b, #a)),
                        (None, Some(z), RangeLimits::HalfOpen(_)) => parse_quote!(crate::vx::slice_to(&#b, #z)),
                        (Some(a), Some(z), RangeLimits::HalfOpen(_)) => parse_quote!(crate::vx::slice_range(&#b, #a, #z)),
                        _ => {
                            self.fail("range index".into());
                            return;
                        }
                    };
                    *e = parse_quote!((*#n));
                }
            }
            Expr::Closure(_) => {
                let s = e.to_token_stream().to_string();
                self.fail(format!("closure {}", s.chars().take(80).collect::<String>()));
            }
            _ => {}
        }
    }
}

/// Type segment of an associated constant path `..::Type::CONST`.
fn path_ty(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        let n = p.path.segments.len();
        if n >= 2 {
            let l = p.path.segments[n - 1].ident.to_string();
            if l.chars().all(|c| c.is_ascii_uppercase() || c == '_') {
                return Some(p.path.segments[n - 2].ident.to_string());
            }
        }
    }
    None
}

#[allow(dead_code)]
pub fn tokens(ts: TokenStream) -> String {
    quote!(#ts).to_string()
}
