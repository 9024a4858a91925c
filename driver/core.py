"""Shared steps of every check: build the extractor, expand /repo, extract, run Verus, attribute failures."""
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FAJT_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, ".build"))
CRATES = ["common", "ast", "lexer", "parser", "codegen"]

VERIFICATION_ERRORS = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed", "possible arithmetic underflow/overflow",
    "possible division by zero", "invariant not satisfied", "loop invariant not satisfied", "decreases not satisfied",
    "could not prove termination", "assert_forall_by", "unable to prove", "possible bit shift underflow/overflow",
    "recommendation not met", "might fail", "split assertion", "split precondition", "split postcondition",
    "unable to prove assertion safety condition", "termination", "opaque_type", "constructed value may fail to meet its declared type invariant",
    "assertion failure", "loop ensures not satisfied", "not satisfied",
)
RESOURCE_ERRORS = ("Resource limit", "rlimit", "timed out", "timeout")


def sh(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def env(**kw):
    e = dict(os.environ)
    e.update({"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"})
    e.update(kw)
    return e


def repo_sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                out.append(os.path.join(root, f))
    return out


def repo_hash():
    h = hashlib.sha256()
    for p in repo_sources():
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


class Broken(Exception):
    """The check itself could not be carried out (neither pass nor violation)."""


def build_tool():
    t = time.time()
    r = sh(["cargo", "build", "--offline", "-q", "--manifest-path", f"{VERIF}/tool/Cargo.toml"], env=env(CARGO_TARGET_DIR=f"{BUILD}/tool"))
    if r.returncode:
        raise Broken("cannot build the extractor:\n" + r.stderr)
    return {"tool_build_s": round(time.time() - t, 1)}


def expand():
    """Macro-expanded source of every crate, straight from /repo's working tree."""
    h = repo_hash()
    d = f"{BUILD}/exp/{h}"
    t = time.time()
    if not os.path.exists(f"{d}/ok"):
        os.makedirs(d, exist_ok=True)
        for c in CRATES:
            r = sh(["cargo", "+nightly", "rustc", "--offline", "-q", "--manifest-path", f"{REPO}/Cargo.toml", "-p", f"fajt_{c}", "--lib", "--",
                    "-Zunpretty=expanded", "--cfg", f"vx_{h}", "-Awarnings"], env=env(CARGO_TARGET_DIR=f"{BUILD}/exp_target"))
            if r.returncode or not r.stdout.strip():
                raise Broken(f"/repo does not compile (crate {c}):\n" + r.stderr[-4000:])
            open(f"{d}/{c}.rs", "w").write(r.stdout)
        open(f"{d}/ok", "w").write("")
    return d, {"expand_s": round(time.time() - t, 1), "repo_hash": h}


def extract(exp, out, tags, external=()):
    r = sh([f"{BUILD}/tool/debug/vx", "--expanded", exp, "--specs", f"{VERIF}/specs", "--out", out, "--tags", ",".join(tags), "--external", ",".join(sorted(external))])
    if r.returncode:
        return None, r.stderr
    return json.load(open(out + ".json")), r.stderr


def run_verus(out, extra=()):
    t = time.time()
    args = ["verus", "--crate-type=lib", out, "--error-format=json", "--output-json", "--time", "--multiple-errors", "4", "--num-threads", "8", *extra]
    r = sh(args, cwd=os.path.dirname(out), timeout=800)
    errs = []
    for l in r.stderr.splitlines():
        if not l.startswith("{"):
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and not d["message"].startswith("aborting due to"):
            errs.append(d)
    try:
        js = json.loads(r.stdout)
    except ValueError:
        js = {}
    return errs, js, " ".join(args), round(time.time() - t, 1), r


class Attr:
    """Maps a line of the generated file to the function of /repo it comes from and to the owner of the clause."""

    def __init__(self, out, rep):
        self.lines = open(out).read().split("\n")
        self.map = rep["map"]

    def fn(self, line):
        # nearest preceding marker; `//@endfn` style markers are implied by the next marker
        best = None
        for n, k in self.map:
            if n <= line:
                best = k
            else:
                break
        return best

    def owner(self, line):
        t = self.lines[line - 1] if 0 < line <= len(self.lines) else ""
        m = re.match(r"\s*/\*@(\S+)\*/", t)
        return m.group(1) if m else ""

    def text(self, line):
        return re.sub(r"/\*@\S+\*/\s*", "", self.lines[line - 1]).strip() if 0 < line <= len(self.lines) else ""


def classify(errs, attr):
    """-> list of dicts {kind: obligation|resource|compile, fn, owner, clause, message, rendered}"""
    out = []
    for e in errs:
        msg = e["message"]
        spans = e.get("spans", [])
        prim = [s for s in spans if s["is_primary"]]
        sec = [s for s in spans if not s["is_primary"]]
        line = prim[0]["line_start"] if prim else (spans[0]["line_start"] if spans else 0)
        if any(x in msg for x in RESOURCE_ERRORS):
            kind = "resource"
        elif any(x in msg for x in VERIFICATION_ERRORS) and e.get("code") is None:
            kind = "obligation"
        else:
            kind = "compile"
        infile = lambda s: s["file_name"].endswith("out.rs")
        fn = attr.fn(line)
        # the clause: the contract line the obligation comes from
        clause_lines = [s["line_start"] for s in sec + prim if infile(s)]
        owner = ""
        ctext = attr.text(line)
        for l in clause_lines:
            o = attr.owner(l)
            if o:
                owner = o
                ctext = attr.text(l)
                break
        else:
            for s in sec:
                if infile(s) and s.get("label", "") and "failed" in s["label"]:
                    ctext = attr.text(s["line_start"])
        # a failing postcondition belongs to the function being verified: the primary span is in its body or the clause
        if msg == "postcondition not satisfied":
            for s in spans:
                if infile(s) and (s.get("label") or "").startswith("at "):
                    fn = attr.fn(s["line_start"])
        out.append({"kind": kind, "fn": fn, "owner": owner, "clause": ctext, "message": msg, "line": line, "rendered": e.get("rendered", "")})
    return out
