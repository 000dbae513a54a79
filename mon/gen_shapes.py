#!/usr/bin/env python3
"""Writes src/shapes_gen.rs: the query shapes the workloads use (fixed; run by hand when the set changes)."""
import random
R = random.Random(7)
K = "ABCDZGSV"
NG = 6
out = []
seen = set()
def leaf(k, m): return f"&'a mut {k}" if m else f"&'a {k}"
def add(t):
    if t not in seen:
        seen.add(t); out.append(t)
for k in K:
    for m in (0, 1): add(leaf(k, m))
nsingle = len(out)
G = {"F": "FullOwning", "P": "PartialOwning", "N": "NonOwning"}
def grp(kind, a, b, ma, mb): return f"{G[kind]}<{leaf(a,ma)},{leaf(b,mb)}>"
groups = []
for kind in "FPN":
    for i in range(NG):
        for j in range(NG):
            if i == j: continue
            add(grp(kind, K[i], K[j], 0, 0))
# the other accesses for some pairs: (A,B) (B,C) (C,D) (D,A) (G,A) (A,Z)
for kind in "FPN":
    for a, b in ("AB", "BC", "CD", "DA", "GA", "AZ"):
        for ma, mb in ((0, 1), (1, 0), (1, 1)):
            add(grp(kind, a, b, ma, mb))
add(grp("N", "A", "A", 0, 0))
ngroup = len(out)
def picks(n, pm=0.45):
    ks = R.sample(K, n)
    return [(k, R.random() < pm) for k in ks]
def tup(n): return "(" + ",".join(leaf(k, m) for k, m in picks(n)) + ")"
for _ in range(16): add(tup(2))
for _ in range(8): add(tup(3))
for _ in range(6): add(tup(4))
for _ in range(5): add(tup(5))
# every position as the mutable one
for n in (2, 3, 4, 5):
    for i in range(n):
        ks = K[:n]
        add("(" + ",".join(leaf(k, j == i) for j, k in enumerate(ks)) + ")")
# repeated shared
add("(&'a A,&'a A)"); add("(&'a C,&'a B,&'a C)")
for _ in range(6):
    (a, m), (b, n) = picks(2)
    add(f"(Without<{leaf(a,m)}>,{leaf(b,n)})")
    add(f"({leaf(a,m)},Without<{leaf(b,n)}>)")
for _ in range(4):
    p = picks(4)
    l = [leaf(*x) for x in p]
    add(f"(Without<({l[0]},{l[1]})>,({l[2]},{l[3]}))")
    add(f"(({l[0]},{l[1]}),Without<({l[2]},{l[3]})>)")
    add(f"(Without<{l[0]}>,({l[1]},Without<{l[2]}>))")
    add(f"(({l[0]},Without<{l[1]}>),Without<{l[2]}>)")
    add(f"({l[0]},Without<({l[1]},Without<{l[2]}>)>)")
    add(f"(Without<(Without<{l[0]}>,{l[1]})>,{l[2]})")
    add(f"({l[0]},({l[1]},{l[2]}),{l[3]})")
    add(f"(({l[0]},{l[1]}),({l[2]},{l[3]}))")
    add(f"(({l[0]},Without<{l[1]}>),{l[2]},{l[3]})")
    add(f"({l[0]},({l[1]},Without<{l[2]}>),{l[3]})")
    add(f"({l[0]},{l[1]},{l[2]},(Without<{l[3]}>,&'a {[k for k in K if all(k != q for q, _ in p)][0]}))")
nquery = len(out)
def ng():
    a, b = R.sample(K[:NG], 2)
    kind = R.choice("FPN")
    rest = [k for k in K if k not in (a, b)]
    c, d = R.sample(rest, 2)
    return grp(kind, a, b, R.random() < .4, R.random() < .4), leaf(c, R.random() < .4), leaf(d, R.random() < .4)
for _ in range(6):
    g, c, d = ng(); add(f"({g},{c})")
    g, c, d = ng(); add(f"({c},{g})")
    g, c, d = ng(); add(f"({g},Without<{c}>)")
    g, c, d = ng(); add(f"(Without<{g}>,{c})")
    g, c, d = ng(); add(f"({c},Without<{g}>)")
    g, c, d = ng(); add(f"({g},{c},{d})")
    g, c, d = ng(); add(f"({c},({g},Without<{d}>))")
import os
N = 5
here = os.path.dirname(os.path.abspath(__file__))
for c in range(N):
    d = f"{here}/shapes/s{c}"
    os.makedirs(d + "/src", exist_ok=True)
    open(d + "/Cargo.toml", "w").write(f"""[package]
name = "shapes{c}"
version = "0.1.0"
edition = "2021"

[dependencies]
moncore = {{ path = "../../core" }}
""")
    with open(d + "/src/lib.rs", "w") as f:
        f.write("// written by gen_shapes.py\nuse moncore::comps::*;\nuse moncore::xecs::{group::*, query::Without};\nmoncore::shapes! {\n")
        for t in out[c::N]: f.write(f"    {t};\n")
        f.write("}\n")
with open(here + "/src/shapes_gen.rs", "w") as f:
    f.write("// written by gen_shapes.py\n")
    f.write(f"pub const NSINGLE: usize = {nsingle};\npub const NGROUP: usize = {ngroup};\npub const NQUERY: usize = {nquery};\npub const NSHAPES: usize = {len(out)};\n")
    f.write(f"pub static PARTS: [&[moncore::query::Entry]; {N}] = [" + ", ".join(f"shapes{c}::SHAPES" for c in range(N)) + "];\n")
print(nsingle, ngroup, nquery, len(out))
