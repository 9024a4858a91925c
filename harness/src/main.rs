//! Bounded exploration of the real code: stand-in for functions the verifier cannot take, and search for a concrete
//! input when an obligation fails.  Never counted as proof.
mod lexmode;
mod lexref;
mod prog;
mod progmode;
mod rng;
mod robust;
mod rules;
mod tables;
mod util;

use rng::Rng;
use std::collections::{BTreeSet, HashSet};
use std::time::{Duration, Instant};

pub struct Failure {
    pub input: serde_json::Value,
    pub what: String,
    pub signature: String,
}

/// One explored case: `key` identifies it, `nontrivial` says whether it counts.
pub struct Case {
    pub key: String,
    pub nontrivial: bool,
    pub fail: Option<Failure>,
}

pub trait Mode {
    fn rule(&self) -> &'static str;
    /// case number `n`; None when a finite space is exhausted
    fn case(&mut self, n: u64, rng: &mut Rng) -> Option<Case>;
    fn replay(&mut self, input: &serde_json::Value) -> Option<Failure>;
}

fn mode(name: &str) -> Box<dyn Mode> {
    match name {
        "tables" => Box::new(tables::Tables::new()),
        "lex-ws" => Box::new(lexmode::LexMode { focus: "ws" }),
        "lex-punct" => Box::new(lexmode::LexMode { focus: "punct" }),
        "lex-num" => Box::new(lexmode::LexMode { focus: "num" }),
        "lex-lit" => Box::new(lexmode::LexMode { focus: "lit" }),
        "lex-ident" => Box::new(lexmode::LexMode { focus: "ident" }),
        "prog-tree" => Box::new(progmode::Prog { spans: false }),
        "prog-span" => Box::new(progmode::Prog { spans: true }),
        "reader" => Box::new(robust::Reader),
        "broken" => Box::new(robust::Broken { error: false }),
        "error" => Box::new(robust::Broken { error: true }),
        "rules-ident" => Box::new(rules::Ident),
        "rules-early" => Box::new(rules::Early),
        "rules-asi" => Box::new(rules::Asi),
        "chars" => Box::new(lexmode::Chars),
        _ => panic!("unknown mode {name}"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| util::note_panic(i)));
    // deep recursion of the parser must not take the harness down
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run(args)).unwrap();
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc);
}

fn arg<'a>(args: &'a [String], name: &str) -> &'a str {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str()).unwrap_or("")
}

fn run(args: Vec<String>) -> i32 {
    if args[1] == "replay" {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
        let mut m = mode(v["mode"].as_str().unwrap());
        return match m.replay(&v["input"]) {
            Some(f) => {
                println!("{}", f.what);
                1
            }
            None => {
                println!("does not fail on this tree");
                0
            }
        };
    }
    let mname = arg(&args, "--mode");
    let seed: u64 = arg(&args, "--seed").parse().unwrap_or(1);
    let secs: f64 = arg(&args, "--seconds").parse().unwrap_or(10.0);
    let known: BTreeSet<String> = std::fs::read_to_string(arg(&args, "--known")).unwrap_or_default().lines().map(|s| s.to_string()).filter(|s| !s.is_empty()).collect();
    let deadline = Instant::now() + Duration::from_secs_f64(secs);
    let mut evals = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut known_hit: BTreeSet<String> = BTreeSet::new();
    let mut found = None;
    let mut exhausted = Vec::new();
    let mut rule = String::new();
    let names: Vec<&str> = mname.split(',').collect();
    let mut modes: Vec<(&str, Box<dyn Mode>, u64, bool)> = names.iter().map(|n| (*n, mode(n), 0u64, false)).collect();
    for m in &modes {
        rule.push_str(m.0);
        rule.push_str(": ");
        rule.push_str(m.1.rule());
        rule.push_str(" ");
    }
    let collect = std::env::var("VH_COLLECT").is_ok();
    let mut rng = Rng::new(seed);
    'o: while Instant::now() < deadline && modes.iter().any(|m| !m.3) {
        for m in modes.iter_mut() {
            if m.3 {
                continue;
            }
            for _ in 0..16 {
                let n = m.2;
                m.2 += 1;
                let mut r = Rng::new(rng.next());
                match m.1.case(n, &mut r) {
                    None => {
                        m.3 = true;
                        exhausted.push(m.0.to_string());
                        break;
                    }
                    Some(c) => {
                        evals += 1;
                        if c.nontrivial && distinct.len() < 4_000_000 {
                            distinct.insert(util::hash(&c.key));
                            if samples.len() < 3 || (evals % 997 == 0 && samples.len() < 8) {
                                samples.push(c.key.chars().take(300).collect());
                            }
                        }
                        if let Some(f) = c.fail {
                            if collect {
                                println!("{} | {}", f.what.chars().take(220).collect::<String>(), f.input["source"].as_str().unwrap_or("").replace('\n', "\\n"));
                                continue;
                            }
                            if known.contains(&f.signature) {
                                known_hit.insert(f.signature);
                            } else {
                                found = Some((m.0.to_string(), f));
                                break 'o;
                            }
                        }
                    }
                }
            }
        }
    }
    if let Some((m, f)) = &found {
        let v = serde_json::json!({"property": arg(&args, "--property"), "mode": m, "input": f.input, "what": f.what, "signature": f.signature});
        std::fs::write(arg(&args, "--replay"), serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
    let out = serde_json::json!({
        "found": found.is_some(), "evaluations": evals, "distinct": distinct.len(), "rule": rule, "samples": samples,
        "known_hit": known_hit, "exhausted": exhausted,
    });
    println!("{}", out);
    0
}
