//! Modes over generated programs: the tree and the spans they parse to, and what must be rejected.
use crate::prog::Gen;
use crate::rng::Rng;
use crate::{util, Case, Failure, Mode};
use serde_json::{json, Value as J};

pub struct Prog {
    pub spans: bool,
}

pub fn parse(src: &str, module: bool) -> Result<Result<fajt_ast::Program, String>, String> {
    util::guard(|| if module { fajt_parser::parse_module(src) } else { fajt_parser::parse_script(src) }.map_err(|e| format!("{e:?}")))
}

pub fn strip(v: &mut J) {
    match v {
        J::Object(m) => {
            m.remove("span");
            m.remove("arguments_span");
            for (_, x) in m.iter_mut() {
                strip(x);
            }
        }
        J::Array(a) => a.iter_mut().for_each(strip),
        _ => {}
    }
}

/// path to the first difference
pub fn diff(a: &J, b: &J, path: String) -> Option<String> {
    match (a, b) {
        (J::Object(x), J::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{path}: expected {}, found {}", brief(a), brief(b))),
                    Some(w) => {
                        if let Some(d) = diff(v, w, format!("{path}/{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            (x.len() != y.len()).then(|| format!("{path}: expected {}, found {}", brief(a), brief(b)))
        }
        (J::Array(x), J::Array(y)) => {
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                if let Some(d) = diff(v, w, format!("{path}/{i}")) {
                    return Some(d);
                }
            }
            (x.len() != y.len()).then(|| format!("{path}: expected {} items, found {}", x.len(), y.len()))
        }
        _ => (a != b).then(|| format!("{path}: expected {}, found {}", brief(a), brief(b))),
    }
}
fn brief(v: &J) -> String {
    v.to_string().chars().take(200).collect()
}

pub fn check(src: &str, module: bool, want: &J, spans: bool) -> Option<String> {
    let got = match parse(src, module) {
        Err(p) => return Some(p),
        Ok(Err(e)) => return Some(format!("a valid program is rejected: {e}")),
        Ok(Ok(p)) => serde_json::to_value(&p).unwrap(),
    };
    let (mut w, mut g) = (want.clone(), got);
    if !spans {
        strip(&mut w);
        strip(&mut g);
    }
    diff(&w, &g, String::new())
}

impl Mode for Prog {
    fn rule(&self) -> &'static str {
        if self.spans {
            "a random program (all statement and expression forms, random white space, comments and line breaks) of at least 8 tokens; the tree and every span is compared with the one the program was generated from"
        } else {
            "a random program (all statement and expression forms, random white space, comments and line breaks) of at least 8 tokens; the tree is compared with the one the program was generated from"
        }
    }
    fn case(&mut self, n: u64, rng: &mut Rng) -> Option<Case> {
        let depth = 1 + (n % 5) as usize;
        let mut g = Gen::new(rng, depth);
        let want = g.program();
        let (src, module, toks) = (g.out.clone(), g.module, g.tokens.len());
        let fail = check(&src, module, &want, self.spans).map(|what| Failure { input: json!({"source": src, "module": module, "tree": want, "spans": self.spans}), what, signature: String::new() });
        Some(Case { key: src, nontrivial: toks >= 8, fail })
    }
    fn replay(&mut self, i: &J) -> Option<Failure> {
        check(i["source"].as_str().unwrap(), i["module"] == json!(true), &i["tree"], self.spans).map(|what| Failure { input: i.clone(), what, signature: String::new() })
    }
}
