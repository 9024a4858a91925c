#!/usr/bin/env python3
"""check.py PROPERTY  -- decides one property of /repo's current tree (see DESIGN.md, section "Check flow")."""
import json, os, re, subprocess, sys, threading, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import core
from props import PROPS

VERIF = core.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


def in_thread(f):
    box = {}

    def run():
        try:
            box["v"] = f()
        except BaseException as e:  # noqa
            box["e"] = e
    t = threading.Thread(target=run)
    t.start()

    def get():
        t.join()
        if "e" in box:
            raise box["e"]
        return box["v"]
    return get


def build_harness():
    t = time.time()
    r = core.sh(["cargo", "build", "--offline", "-q", "--manifest-path", f"{VERIF}/harness/Cargo.toml"],
                env=core.env(CARGO_TARGET_DIR=f"{core.BUILD}/harness"))
    if r.returncode:
        return None, r.stderr[-3000:]
    return f"{core.BUILD}/harness/debug/vh", round(time.time() - t, 1)


def known():
    p = f"{VERIF}/known_findings.json"
    return json.load(open(p))["entries"] if os.path.exists(p) else []


def prove(prop, cfg, exp):
    """Extract + verify; functions the verifier cannot take are turned into assumed ones, one round at a time."""
    work = f"{core.BUILD}/work/{prop}"
    os.makedirs(work, exist_ok=True)
    out = f"{work}/out.rs"
    external = set()
    notes = []
    for rnd in range(8):
        rep, err = core.extract(exp, out, cfg["tags"], external)
        if rep is None:
            return {"fatal": "extraction failed: " + err[-1500:], "failures": [], "rounds": rnd}
        extra = list(cfg.get("verus_args", []))
        if cfg.get("modules"):
            # by prefix, over the modules the source has now: a function moved into a new file of the crate stays covered
            spec_mods = re.findall(r"^pub mod (\w+) \{", open(out).read(), re.M)
            for m in dict.fromkeys([m for m in spec_mods if not m.startswith("fajt_")] + rep["modules"]):
                if any(m == x or m.startswith(x + "::") for x in cfg["modules"]):
                    extra += ["--verify-only-module", m]
        if TIER == "thorough":
            extra += ["--rlimit", "60"]
        else:
            extra += ["--rlimit", "20"]
        try:
            errs, js, cmd, secs, raw = core.run_verus(out, extra)
        except subprocess.TimeoutExpired:
            return {"fatal": "verifier timed out", "failures": [], "rounds": rnd}
        attr = core.Attr(out, rep)
        fl = core.classify(errs, attr)
        comp = [f for f in fl if f["kind"] == "compile"]
        if comp:
            new = {f["fn"] for f in comp if f["fn"]} - external
            notes += [f"{f['fn']}: {f['message'][:200]}" for f in comp]
            if not new:
                return {"fatal": "generated file rejected: " + "; ".join(f["rendered"][:600] for f in comp[:3]), "failures": [], "rounds": rnd, "notes": notes}
            external |= new
            continue
        vr = js.get("verification-results", {})
        return {"rep": rep, "failures": fl, "external": sorted(external), "notes": notes, "cmd": cmd, "secs": secs, "js": js,
                "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "success": vr.get("success", False), "rounds": rnd + 1, "out": out,
                "raw_tail": raw.stderr[-500:] if not js else ""}
    return {"fatal": "too many functions outside the verifier's subset", "failures": [], "rounds": 8, "notes": notes}


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    t0 = time.time()
    tool = in_thread(core.build_tool)
    exp = in_thread(core.expand)
    har = in_thread(build_harness)
    tool_info = tool()
    expdir, exp_info = exp()
    base = json.load(open(f"{VERIF}/specs/baseline.json"))
    res = prove(prop, cfg, expdir)
    hbin, hinfo = har()
    if hbin is None:
        raise core.Broken("the harness does not build against /repo:\n" + hinfo)

    rep = res.get("rep", {"functions": {}, "unsupported": [], "lost_anchors": [], "dropped": [], "trusted_derives": []})
    fns = rep["functions"]
    lost = {x.split(": anchor")[0] for x in rep["lost_anchors"]}
    known_fns = base["functions"]

    def undecided(fn):
        """Why a failed obligation in fn does not decide: the proof there is incomplete for a reason other than the code."""
        i = fns.get(fn)
        if i is None:
            return None
        why = []
        if fn in lost:
            why.append("a proof hint lost its place")
        if fn not in known_fns and not i["spec"]:
            why.append("function without its own contract")
        b = known_fns.get(fn)
        if i["loops_uncovered"] > (b["loops_uncovered"] if b else 0) or (b and i["loops"] != b["loops"]):
            why.append("loop without its invariant")
        allnames = {k.split("@")[0].rsplit("::", 1)[-1] for k in known_fns} | {k.split("::")[-1] for k in known_fns}
        for c in i["callees"]:
            short = c.rsplit("::", 1)[-1]
            cand = [k for k in fns if k == c or k.endswith("::" + short)]
            if cand and all(k not in known_fns for k in cand):
                why.append(f"calls {c}, which has no contract of its own")
            if any(k in res.get("external", []) for k in cand):
                why.append(f"calls {c}, which left the verifier's subset")
        return "; ".join(why) or None

    own, own_base = set(cfg["own"]), cfg["own_base"]
    mine, foreign, soft = [], [], []
    for f in res["failures"]:
        o = f["owner"]
        is_mine = (o in own) or (o == "" and own_base) or (o == "" and f["fn"] is not None and any(re.match(p, f["fn"]) for p in cfg.get("own_fns", []))
                                                          and ("own_clauses" not in cfg or any(re.search(p, f["clause"]) for p in cfg["own_clauses"])))
        if not is_mine:
            foreign.append(f)
            continue
        if f["kind"] == "resource":
            soft.append((f, "solver resource limit"))
            continue
        if o == "" and cfg.get("soft") and any(re.search(p, f["message"] + ": " + f["clause"]) for p in cfg["soft"]):
            soft.append((f, "a contract the proof rests on fails; by itself it does not contradict the property"))
            continue
        w = undecided(f["fn"])
        if w:
            soft.append((f, w))
        else:
            mine.append(f)
    kn = [e for e in known() if e["property"] == prop and e["status"] == "finding"]
    kn_hit = set()
    unlisted = []
    for f in mine:
        hit = [i for i, e in enumerate(kn) if e.get("fn") == f["fn"] and e.get("clause") == f["clause"]]
        if hit:
            kn_hit.update(hit)
        else:
            unlisted.append(f)

    # bounded exploration of the real code: stand-in for what is out of reach, and search for a failing input
    degraded = bool(res.get("fatal") or res.get("external") or soft)
    secs = cfg.get("seconds", {}).get(TIER, 20 if TIER == "quick" else 240)
    if (unlisted or degraded) and TIER == "quick":
        secs = max(secs * 3, 60)
    os.makedirs(f"{VERIF}/replay", exist_ok=True)
    replay = f"{VERIF}/replay/{prop}.json"
    if os.path.exists(replay):
        os.remove(replay)
    kf = f"{core.BUILD}/work/{prop}.known"
    os.makedirs(os.path.dirname(kf), exist_ok=True)
    open(kf, "w").write("\n".join(e["signature"] for e in kn if "signature" in e))
    hcmd = [hbin, "fuzz", "--property", prop, "--mode", cfg["harness"], "--seed", str(SEED), "--seconds", str(secs), "--replay", replay, "--known", kf]
    h = core.sh(hcmd, timeout=secs + 200)
    try:
        hs = json.loads(h.stdout.strip().splitlines()[-1])
    except Exception:
        raise core.Broken(f"harness gave no result (rc {h.returncode}):\n{h.stdout[-1000:]}\n{h.stderr[-2000:]}")
    for s in hs.get("known_hit", []):
        for i, e in enumerate(kn):
            if e.get("signature") == s:
                kn_hit.add(i)

    n_fail = len(res["failures"])
    obligations = res.get("verified", 0) + max(res.get("errors", 0), n_fail)
    under = sorted(k for k, v in fns.items() if (v["spec"] or v["template"]) and not v["external"])
    ext = sorted(k for k, v in fns.items() if v["external"])
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": cfg.get("level", "proof"),
        "coverage": {
            "obligations": obligations, "discharged": res.get("verified", 0),
            "checker_cmd": res.get("cmd", "") or "none (extraction failed)",
            "trusted_base": core_trusted(rep, cfg),
            "back_end": "Verus 0.2026.09.13 / Z3 (bundled)",
            "verifier_seconds": res.get("secs", 0),
            "smt_ms": (res.get("js", {}).get("times-ms", {}) or {}).get("smt", {}).get("total", None),
            "functions_under_contract": len(under), "functions_extracted": len(fns),
            "functions_assumed": ext,
            "owned_clause_tags": sorted(own) + (["(base)"] if own_base else []),
            "owned_clauses": owned_count(res.get("out"), own),
            "unproved_owned": [short(f) for f in mine] + [dict(short(f), undecided=w) for f, w in soft],
            "unproved_foreign": [short(f) for f in foreign][:40],
            "degraded": res.get("fatal") or res.get("notes") or [],
            "unsupported_by_extraction": sorted(set(rep["unsupported"])),
            "lost_anchors": rep["lost_anchors"],
            "bounded_stand_in": {
                "label": "bounded: not counted as proved", "cmd": " ".join(hcmd), "evaluations": hs.get("evaluations", 0),
                "distinct_nontrivial": hs.get("distinct", 0), "rule": hs.get("rule", ""), "samples": hs.get("samples", [])[:3],
            },
            "timings": {**tool_info, **exp_info, "harness_build_s": hinfo},
        },
        "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1), "violations": 0,
    }

    def finish(code, line=None):
        ev["violations"] = 1 if code else 0
        ev["wall_s"] = round(time.time() - t0, 1)
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
        for i in sorted(kn_hit):
            print(f"KNOWN-FINDING: property={prop} {kn[i]['what']}")
        print(f"{prop}: {res.get('verified', 0)} obligations discharged by Verus, {len(mine)} own failed, {len(soft)} own undecided, {len(foreign)} of other properties failed; "
              f"stand-in {hs.get('evaluations', 0)} cases; {ev['wall_s']} s")
        if line:
            print(line)
        sys.exit(code)

    if hs.get("found"):
        r = json.load(open(replay))
        r["failed_obligations"] = [short(f) for f in unlisted] + [short(f) for f, _ in soft]
        r["replay_cmd"] = f"{VERIF}/replay.sh {replay}"
        json.dump(r, open(replay, "w"), indent=1)
        for f in unlisted[:5]:
            print(f"failed obligation: {f['fn']}: {f['message']}: {f['clause']}")
        print(f"failing input: {json.dumps(r.get('input'))[:600]}\n{r.get('what', '')[:1500]}")
        finish(1, f"VIOLATION property={prop} replay={replay}")
    if unlisted:
        json.dump({"property": prop, "input": None, "failed_obligations": [dict(short(f), verifier_output=f["rendered"]) for f in unlisted],
                   "verifier_cmd": res.get("cmd")}, open(replay, "w"), indent=1)
        for f in unlisted[:5]:
            print(f"failed obligation: {f['fn']}: {f['message']}: {f['clause']}")
        finish(1, f"VIOLATION property={prop} replay={replay} no-failing-input-found")
    finish(0)


COMMON_ASSUMPTIONS = [
    "the extraction (vx) preserves the meaning of the code: rules listed in DESIGN.md",
    "Verus, Z3 and the expansion printed by rustc -Zunpretty=expanded are correct",
    "usize is 64 bits wide; a source text is at most isize::MAX bytes; stack and memory exhaustion are not modelled",
]


def core_trusted(rep, cfg):
    return (["prelude specifications of std functions (specs/00_prelude.rs)", f"{len(rep.get('trusted_derives', []))} derived impls (Clone, PartialEq, Default) assumed structural"]
            + cfg.get("trusted", []))


def short(f):
    return {"fn": f["fn"], "message": f["message"], "clause": f["clause"], "kind": f["kind"]}


def owned_count(out, own):
    if not out:
        return 0
    t = open(out).read()
    return sum(len(re.findall(r"/\*@%s\*/" % re.escape(o), t)) for o in own)


if __name__ == "__main__":
    try:
        main()
    except core.Broken as e:
        print("CHECK-ERROR:", e)
        sys.exit(2)
