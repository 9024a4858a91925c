#![allow(dead_code)]
//! Parser for the contract files in /verif/specs (*.vx).
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct Clause {
    pub tag: String, // "" = foundation, always emitted
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub req: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub inv: BTreeMap<String, Vec<Clause>>,  // loop index or "*"
    pub invx: BTreeMap<String, Vec<Clause>>, // invariant_except_break
    pub lens: BTreeMap<String, Vec<Clause>>, // loop ensures
    pub dec: BTreeMap<String, Vec<Clause>>,  // loop decreases
    pub begin: Vec<Clause>,
    pub end: Vec<Clause>, // ghost text placed before the tail expression
    pub lbegin: BTreeMap<String, Vec<Clause>>, // ghost text at start of loop body
    pub lend: BTreeMap<String, Vec<Clause>>,
    pub lpre: BTreeMap<String, Vec<Clause>>, // ghost text before the loop; $i is the loop's index
    pub before: Vec<(String, usize, Clause)>,
    pub after: Vec<(String, usize, Clause)>,
    /// proof by cases at a statement: (statement, occurrence, conditions)
    pub cases: Option<(String, usize, Vec<String>)>,
    pub params: Vec<Clause>, // extra ghost parameters
    pub decreases: Vec<Clause>,
    pub notemplate: bool,
    pub untag: Vec<String>,
    pub at: String,
}

#[derive(Clone, Debug)]
pub struct Template {
    pub krate: String,
    pub recv: String, // mut|ref|none|any
    pub ty: String,
    pub ret: String, // exact normalised text or "*"
    pub name: String, // prefix pattern, "*" wildcard at end
    pub except: String, // a|b: not these return types
    pub mentions: String, // "" or a|b: the body names one of these
    pub spec: FnSpec,
}

#[derive(Default, Debug)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    pub templates: Vec<Template>,
    pub fields: BTreeMap<String, (String, String)>, // struct -> (field decl, init)
    pub adds: BTreeMap<String, Vec<Clause>>,        // trait/impl key -> raw text
    pub supers: BTreeMap<String, String>,           // trait key -> ghost supertrait
    pub drops: Vec<String>,
    pub keeps: Vec<String>,
    pub discard: Vec<(String, Clause)>, // discarded-result call method name -> ghost text before
    pub rename_ext: Vec<(String, String)>,
}

fn parse_head(s: &str) -> (String, String) {
    // "ens[tag]" -> ("ens","tag")
    if let Some(i) = s.find('[') {
        let e = s.rfind(']').unwrap();
        (s[..i].trim().to_string(), s[i + 1..e].trim().to_string())
    } else {
        (s.trim().to_string(), String::new())
    }
}

impl Specs {
    pub fn load(&mut self, path: &str) {
        let text = std::fs::read_to_string(path).expect(path);
        // join continuation lines
        let mut lines: Vec<(usize, String)> = Vec::new();
        for (n, l) in text.lines().enumerate() {
            if l.trim().is_empty() || l.trim_start().starts_with('#') && !l.starts_with(' ') {
                continue;
            }
            if l.starts_with(' ') || l.starts_with('\t') {
                let last = lines.last_mut().expect("continuation");
                last.1.push('\n');
                last.1.push_str(l);
            } else {
                lines.push((n + 1, l.to_string()));
            }
        }
        enum Cur {
            None,
            Fn(Vec<String>),
            Template(usize),
            Struct(String),
            Add(String),
        }
        let mut cur = Cur::None;
        for (n, l) in lines {
            let die = |m: &str| -> ! { panic!("{}:{}: {}: {}", path, n, m, l) };
            if let Some(rest) = l.strip_prefix("== ") {
                let (kind, arg) = rest.split_once(' ').unwrap_or((rest, ""));
                match kind {
                    "fn" => {
                        let keys: Vec<String> = arg.split_whitespace().map(|s| s.to_string()).collect();
                        for k in &keys {
                            self.fns.entry(k.clone()).or_default().at = format!("{}:{}", path, n);
                        }
                        cur = Cur::Fn(keys);
                    }
                    "template" => {
                        let mut t = Template { krate: "*".into(), recv: "any".into(), ty: "*".into(), ret: "*".into(), name: "*".into(), mentions: String::new(), except: String::new(), spec: FnSpec::default() };
                        for kv in arg.split(" ; ") {
                            let (k, v) = kv.split_once('=').unwrap_or_else(|| die("kv"));
                            match k.trim() {
                                "crate" => t.krate = v.trim().into(),
                                "recv" => t.recv = v.trim().into(),
                                "type" => t.ty = v.trim().into(),
                                "ret" => t.ret = v.trim().replace(' ', ""),
                                "name" => t.name = v.trim().into(),
                                "except" => t.except = v.trim().replace(' ', ""),
                                "mentions" => t.mentions = v.trim().into(),
                                _ => die("template key"),
                            }
                        }
                        self.templates.push(t);
                        cur = Cur::Template(self.templates.len() - 1);
                    }
                    "struct" => cur = Cur::Struct(arg.trim().to_string()),
                    "add" => cur = Cur::Add(arg.trim().to_string()),
                    "super" => {
                        let (m, t) = arg.split_once(' ').unwrap_or_else(|| die("super"));
                        self.supers.insert(m.trim().to_string(), t.trim().to_string());
                    }
                    "drop" => self.drops.extend(arg.split_whitespace().map(|s| s.to_string())),
                    "keep" => self.keeps.extend(arg.split_whitespace().map(|s| s.to_string())),
                    "discard" => {
                        let (m, t) = arg.split_once(':').unwrap_or_else(|| die("discard"));
                        self.discard.push((m.trim().to_string(), Clause { tag: String::new(), text: t.to_string() }));
                    }
                    _ => die("section"),
                }
                continue;
            }
            // clause lines
            match &cur {
                Cur::None => die("outside section"),
                Cur::Struct(k) => {
                    let (h, t) = l.split_once(':').unwrap();
                    let e = self.fields.entry(k.clone()).or_default();
                    match h.trim() {
                        "field" => e.0 = t.trim().into(),
                        "init" => e.1 = t.trim().into(),
                        _ => die("struct clause"),
                    }
                }
                Cur::Add(k) => {
                    let (h, t) = l.split_once(':').unwrap();
                    let (h, tag) = parse_head(h);
                    if h != "add" {
                        die("add clause")
                    }
                    self.adds.entry(k.clone()).or_default().push(Clause { tag, text: t.to_string() });
                }
                Cur::Fn(keys) => {
                    for k in keys.clone() {
                        let f = self.fns.get_mut(&k).unwrap();
                        clause(f, &l, &format!("{path}:{n}"));
                    }
                }
                Cur::Template(i) => {
                    let i = *i;
                    clause(&mut self.templates[i].spec, &l, &format!("{path}:{n}"));
                }
            }
        }
    }
}

fn clause(f: &mut FnSpec, l: &str, at: &str) {
    let die = |m: &str| -> ! { panic!("{at}: {m}: {l}") };
    if l.trim() == "notemplate" {
        f.notemplate = true;
        return;
    }
    if l.starts_with("cases ") {
        let a = l.find('`').unwrap_or_else(|| die("backtick"));
        let b = a + 1 + l[a + 1..].find('`').unwrap_or_else(|| die("backtick"));
        let idx: usize = l[..a].split_whitespace().nth(1).and_then(|s| s.parse().ok()).unwrap_or_else(|| die("index"));
        let c = b + 1 + l[b + 1..].find(':').unwrap_or_else(|| die("colon"));
        f.cases = Some((l[a + 1..b].to_string(), idx, l[c + 1..].split(";;").map(|x| x.trim().to_string()).collect()));
        return;
    }
    // backtick heads: before N `pat`: text
    if l.starts_with("before ") || l.starts_with("after ") {
        let is_before = l.starts_with("before ");
        let a = l.find('`').unwrap_or_else(|| die("backtick"));
        let b = a + 1 + l[a + 1..].find('`').unwrap_or_else(|| die("backtick"));
        let idx: usize = l[..a].split_whitespace().nth(1).and_then(|s| s.parse().ok()).unwrap_or_else(|| die("index"));
        let pat = l[a + 1..b].to_string();
        let rest = &l[b + 1..];
        let c = rest.find(':').unwrap_or_else(|| die("colon"));
        let (_, tag) = parse_head(&format!("x{}", &rest[..c]));
        let cl = Clause { tag, text: rest[c + 1..].to_string() };
        if is_before {
            f.before.push((pat, idx, cl));
        } else {
            f.after.push((pat, idx, cl));
        }
        return;
    }
    let c = l.find(':').unwrap_or_else(|| die("colon"));
    let (h, tag) = parse_head(&l[..c]);
    let text = l[c + 1..].to_string();
    let mut it = h.split_whitespace();
    let h0 = it.next().unwrap();
    let idx = it.next().unwrap_or("*").to_string();
    let cl = Clause { tag, text: text.clone() };
    match h0 {
        "ret" => f.ret = Some(text.trim().to_string()),
        "attr" => f.attrs.push(text.trim().to_string()),
        "req" => f.req.push(cl),
        "ens" => f.ens.push(cl),
        "inv" => f.inv.entry(idx).or_default().push(cl),
        "invx" => f.invx.entry(idx).or_default().push(cl),
        "lens" => f.lens.entry(idx).or_default().push(cl),
        "dec" => f.dec.entry(idx).or_default().push(cl),
        "begin" => f.begin.push(cl),
        "end" => f.end.push(cl),
        "lbegin" => f.lbegin.entry(idx).or_default().push(cl),
        "lpre" => f.lpre.entry(idx).or_default().push(cl),
        "lend" => f.lend.entry(idx).or_default().push(cl),
        "decreases" => f.decreases.push(cl),
        "untag" => f.untag.push(text.trim().to_string()),
        _ => die("clause head"),
    }
}
