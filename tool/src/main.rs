//! vx: turn the compiler-expanded source of the fajt crates into one Verus file.
//! Every rewriting rule is listed in /verif/DESIGN.md (section "Extraction").
mod emit;
mod infer;
mod rewrite;
mod spec;

use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// Removes attributes (docs included) from a token stream; `#[automatically_derived]` stays.
fn strip_attrs(ts: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' {
                let mut j = i + 1;
                if let Some(TokenTree::Punct(q)) = v.get(j) {
                    if q.as_char() == '!' {
                        j += 1;
                    }
                }
                if let Some(TokenTree::Group(g)) = v.get(j) {
                    if g.delimiter() == Delimiter::Bracket {
                        if g.stream().to_string() == "automatically_derived" {
                            out.extend([v[i].clone(), v[j].clone()]);
                        }
                        i = j + 1;
                        continue;
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), strip_attrs(g.stream()));
                ng.set_span(g.span());
                out.extend([TokenTree::Group(ng)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

pub struct Krate {
    pub name: String, // fajt_common
    pub short: String,
    pub file: syn::File,
}

#[derive(Default)]
pub struct Report {
    pub unsupported: Vec<String>,
    pub functions: BTreeMap<String, FnInfo>,
    pub dropped: Vec<String>,
    pub trusted_derives: Vec<String>,
    pub unknown_fns: Vec<String>,
    pub lost: Vec<String>,
    pub hoisted: Vec<String>,
    pub modules: Vec<String>,
}

#[derive(Default, Clone)]
pub struct FnInfo {
    pub spec: bool,
    pub template: bool,
    pub external: bool,
    pub loops: usize,
    pub loops_uncovered: usize,
    pub cases: usize,
    pub callees: BTreeSet<String>,
    pub hash: String,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut dir = String::new();
    let mut specs_dir = String::new();
    let mut out = String::new();
    let mut tags: BTreeSet<String> = BTreeSet::new();
    let mut external: BTreeSet<String> = BTreeSet::new();
    let mut crates = vec!["common".to_string(), "ast".into(), "lexer".into(), "parser".into()];
    let mut it = args.iter().skip(1);
    while let Some(a) = it.next() {
        let mut val = || it.next().expect("value").clone();
        match a.as_str() {
            "--expanded" => dir = val(),
            "--specs" => specs_dir = val(),
            "--out" => out = val(),
            "--tags" => tags = val().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--external" => external = val().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect(),
            "--crates" => crates = val().split(',').map(|s| s.to_string()).collect(),
            _ => panic!("unknown argument {a}"),
        }
    }

    let mut specs = spec::Specs::default();
    let mut raw = String::new();
    let mut names: Vec<_> = std::fs::read_dir(&specs_dir).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let s = p.to_str().unwrap().to_string();
        if s.ends_with(".vx") {
            specs.load(&s);
        } else if s.ends_with(".rs") {
            raw.push_str(&format!("// ---- {}\n", s));
            raw.push_str(&select_tags(&std::fs::read_to_string(&p).unwrap(), &tags));
        }
    }

    let mut krates = Vec::new();
    for c in &crates {
        let text = std::fs::read_to_string(format!("{dir}/{c}.rs")).expect("expanded crate");
        let ts: TokenStream = match text.parse() {
            Ok(t) => t,
            Err(e) => {
                eprintln!("VX-EXTRACT-ERROR: lex {c}: {e}");
                std::process::exit(3);
            }
        };
        let file: syn::File = match syn::parse2(strip_attrs(ts)) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("VX-EXTRACT-ERROR: parse {c}: {e}");
                std::process::exit(3);
            }
        };
        let mut file = file;
        syn::visit_mut::VisitMut::visit_file_mut(&mut emit::PathRw { krate: format!("fajt_{c}") }, &mut file);
        krates.push(Krate { name: format!("fajt_{c}"), short: c.clone(), file });
    }

    let info = Rc::new(infer::collect(&krates));
    let mut em = emit::Emitter::new(specs, tags, info);
    em.forced_external = external;
    em.prescan(&krates);
    let mut body = String::new();
    for k in &krates {
        body.push_str(&em.krate(k));
    }
    let body = em.finish(body);
    let mut text = String::new();
    text.push_str("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unreachable_code, unreachable_patterns, unused_parens, unused_braces, unused_assignments, non_snake_case, non_shorthand_field_patterns)]\n");
    text.push_str("use vstd::prelude::*;\n");
    text.push_str(&raw);
    text.push_str("verus! {\n");
    text.push_str(&body);
    text.push_str("}\nfn main() {}\n");
    std::fs::write(&out, &text).unwrap();
    // line map
    let mut map = Vec::new();
    for (n, l) in text.lines().enumerate() {
        if let Some(r) = l.trim_start().strip_prefix("//@fn ") {
            map.push(serde_json::json!([n + 1, r.trim()]));
        }
    }
    let r = &em.report;
    let mut fns = serde_json::Map::new();
    for (k, f) in &r.functions {
        fns.insert(
            k.clone(),
            serde_json::json!({"spec": f.spec, "template": f.template, "external": f.external, "loops": f.loops,
              "loops_uncovered": f.loops_uncovered, "callees": f.callees, "hash": f.hash, "cases": f.cases}),
        );
    }
    let unused: Vec<String> = em.specs.fns.iter().filter(|(k, _)| !em.used.contains(*k)).map(|(k, f)| format!("{} ({})", k, f.at)).collect();
    let js = serde_json::json!({
        "functions": fns, "map": map, "modules": r.modules, "unsupported": r.unsupported, "dropped": r.dropped,
        "trusted_derives": r.trusted_derives, "unused_specs": unused, "lost_anchors": r.lost,
    });
    std::fs::write(format!("{out}.json"), serde_json::to_string_pretty(&js).unwrap()).unwrap();
    for u in &r.unsupported {
        eprintln!("VX-UNSUPPORTED: {u}");
    }
    for u in &r.lost {
        eprintln!("VX-LOST-ANCHOR: {u}");
    }
    for u in &unused {
        eprintln!("VX-UNUSED-SPEC: {u}");
    }
}

/// Lines between `//@tag NAME` and `//@end` are kept only when NAME is one of the requested tags.
fn select_tags(text: &str, tags: &BTreeSet<String>) -> String {
    let mut out = String::new();
    let mut on = true;
    let mut owner = String::new();
    for l in text.lines() {
        let t = l.trim();
        if let Some(n) = t.strip_prefix("//@tag ") {
            owner = n.split_whitespace().next().unwrap_or("").to_string();
            on = n.split_whitespace().any(|n| tags.contains(n));
        } else if let Some(n) = t.strip_prefix("//@untag ") {
            on = !n.split_whitespace().any(|n| tags.contains(n));
        } else if t == "//@end" {
            on = true;
            owner.clear();
        } else if on {
            if !owner.is_empty() && !t.is_empty() {
                out.push_str(&format!("/*@{owner}*/ "));
            }
            out.push_str(l);
        }
        out.push('\n');
    }
    out
}
