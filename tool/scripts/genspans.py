#!/usr/bin/env python3
"""Wrote specs/40_spans.rs once, from the node types of the tree (committed; not run by the checks)."""
import sys, re
sys.path.insert(0, "/verif/driver"); import core
d, _ = core.expand()
t = open(f"{d}/ast.rs").read()
out = ["// The span of a node: the `span` field of a struct, the span of the variant's node for an enumeration.",
       "verus! { pub mod sp { use vstd::prelude::*; use crate::fajt_ast::*;",
       "pub trait VxSp { spec fn sp(&self) -> Span; }", "/// `x` spans from `a` to `b`", "pub open spec fn spans<T: VxSp>(x: T, a: int, b: int) -> bool { x.sp().start == a && x.sp().end == b }",
       "impl<T: VxSp> VxSp for Box<T> { open spec fn sp(&self) -> Span { (**self).sp() } }"]
names = re.findall(r"impl crate::Spanned for (\w+)", t)
for n in names:
    m = re.search(r"impl crate::Spanned for %s \{\s*fn span\(&self\) -> &crate::Span \{(.*?)\n?\s*\}\s*\n" % n, t, re.S)
    body = t[m.start():m.start() + 6000]
    body = body[:body.index("\n    }")]
    if "match self" in body:
        vs = re.findall(r"Self::(\w+)\(v\)", body)
        arms = " ".join(f"{n}::{v}(v) => v.sp()," for v in vs)
        out.append(f"impl VxSp for {n} {{ open spec fn sp(&self) -> Span {{ #[allow(unreachable_patterns)] match *self {{ {arms} _ => arbitrary() }} }} }}")
    else:
        f = re.search(r"&self\.(\w+)", body).group(1)
        out.append(f"impl VxSp for {n} {{ open spec fn sp(&self) -> Span {{ self.{f} }} }}")
out.append("} }")
open("/verif/specs/40_spans.rs", "w").write("\n".join(out) + "\n")
print(len(names))
