"""C26 - the printed report states the returned solutions."""
import re

import numpy as np
from hypothesis import strategies as st

from checks.c21 import prepare
from harness import gen as g
from harness.core import Facet, require

RULE = ("a case is a pair of 2D Bravais lattices (some in 3D), a search, display level, number of solutions, distance and iteration limits; the report is "
        "parsed and compared with the returned solutions, and the search is repeated silently; non-trivial: at least two solutions are reported or the "
        "correspondence is not symmetric")

NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def nums(s):
    return [float(x) for x in NUM.findall(s)]


def rows(section):
    """the bracketed rows of a section"""
    return [[nums(b) for b in re.findall(r"\[([^\]]*)\]", line)] for line in section.splitlines() if "[" in line]


def sections(block):
    """heading -> text below it; the headings start with a dash"""
    out = {}
    cur = None
    for line in block.splitlines():
        m = re.match(r"\s*-\s+([A-Za-z].*)$", line)
        if m:
            cur = m.group(1)
            out[cur] = ""
        elif cur is not None:
            out[cur] += line + "\n"
    return out


def find(sec, word, text):
    ks = [k for k in sec if word in k.lower()]
    require(len(ks) == 1, "the report of a solution has %d sections on the %s:\n%s", len(ks), word, text)
    return ks[0], sec[ks[0]]


def close(got, want, dec, what, text):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    require(got.shape == want.shape and bool(np.all(np.abs(got - want) <= dec * np.maximum(1.0, np.abs(want) if dec < 1e-7 else 1.0))),
            "the report prints the %s %s, returned was %s:\n%s", what, got.tolist(), want.tolist(), text)


def sig(got, want, what, text):
    """six significant digits"""
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    require(got.shape == want.shape and bool(np.all(np.abs(got - want) <= 6e-6 * np.abs(want) + 1e-13)), "the report prints the %s %s, returned was %s:\n%s", what,
            got.tolist(), want.tolist(), text)


def judge(c, r, text):
    sols, n = r["sols"], c["A"]["dim"]
    i = text.find(r["sA"])
    require(i >= 0, "the parent lattice %r is not in the report:\n%s", r["sA"], text[:600])
    require(text.find(r["sM"], i + len(r["sA"])) >= 0, "the product lattice %r is not in the report (after the parent):\n%s", r["sM"], text[:600])
    blocks = re.split(r"(?m)^\s*Solution\s+(\d+)\s+out of\s+(\d+).*$", text)
    require((len(blocks) - 1) // 3 == len(sols), "%d solutions in the report, %d returned:\n%s", (len(blocks) - 1) // 3, len(sols), text)
    for k, s in enumerate(sols):
        no, of, b = blocks[1 + 3 * k:4 + 3 * k]
        require(int(no) == k + 1 and int(of) == c["kw"].get("nsol", 1), "solution %d is announced as %s out of %s", k + 1, no, of)
        sec = sections(b)
        cor = rows(find(sec, "correspondence", b)[1])
        require(len(cor) == n and all(len(x) == 2 for x in cor), "the correspondence is printed as %s:\n%s", cor, b)
        close([x[0] for x in cor], np.asarray(s["cor"]).T, 0.0051, "directions of the correspondence", b)
        close([x[1] for x in cor], np.eye(n), 1e-9, "images in the correspondence", b)
        u = rows(find(sec, "stretch", b)[1])
        require(all(len(x) == 1 for x in u), "the stretch matrix is printed as %s:\n%s", u, b)
        close([x[0] for x in u], s["u"], 5.1e-7, "stretch matrix", b)
        if c["which"] == "hnf":
            h = rows(find(sec, "hermite", b)[1])
            require(all(len(x) == 1 for x in h), "the Hermite normal form is printed as %s:\n%s", h, b)
            close([x[0] for x in h], s["h"], 1e-9, "Hermite normal form", b)
        e = find(sec, "eigen", b)[1]
        sig([float(x) for x in re.findall(r"lambda_\d+\s*=\s*([-+0-9.eE]*[0-9])", e)], s["lams"], "eigenvalues", b)
        require([int(x) for x in re.findall(r"lambda_(\d+)", e)] == list(range(1, n + 1)), "the eigenvalues are numbered wrongly:\n%s", b)
        name, d = find(sec, "distance", b)
        used = c["kw"].get("dist", "Cauchy") if c["which"] == "hnf" else "Cauchy"
        require(used.lower() in name.lower(), "the distance is called %r, it is the %s distance", name, used)
        m = re.search(r"dist\s*=\s*([-+0-9.eE]*[0-9])", d)
        require(m is not None, "no distance in the report:\n%s", b)
        sig(float(m.group(1)), s["d"], "distance", b)


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if set(x) != set(y) or any(not np.allclose(np.asarray(x[k], dtype=float), np.asarray(y[k], dtype=float), rtol=1e-9, atol=1e-9) for k in x):
            return False
    return True


def check(ctx, c):
    c = prepare(c)
    if max(np.linalg.cond(g.prim_base(c["A"])), np.linalg.cond(g.prim_base(c["M"]))) > 5:
        return None
    kw = dict(c["kw"], dim=c["A"]["dim"])
    a = {"which": c["which"], "A": c["A"], "M": c["M"], "log": c["log"]}
    on = ctx.ok("latcor", dict(a, kw=kw if c["disp"] is None else dict(kw, disp=c["disp"])), seed=c["seed"], cpu=150)
    off = ctx.ok("latcor", dict(a, kw=dict(kw, disp=0)), seed=c["seed"], cpu=150)
    require(off["text"] == "", "printed with disp = 0: %s", off["text"][:200])
    require(same(on["sols"], off["sols"]), "the result with disp = %s differs from the silent one: %s, %s", c["disp"], on["sols"], off["sols"])
    judge(c, on, on["text"])
    if c["log"]:
        judge(c, off if c["quietlog"] else on, (off if c["quietlog"] else on)["log_text"])
    cor = np.asarray(on["sols"][0]["cor"])
    return len(on["sols"]) > 1 or not np.allclose(cor, cor.T)


def lat2():
    return g.bravais2(lo=0.8, hi=2.0, k=50)


ratio2 = st.sampled_from([0.9, 1.0, 1.04, 1.4, 1.9, 2.0, 2.07, 2.9, 4.1])


def logs(which):
    return {"log": st.sampled_from([None, "handler", "file"] if which == "direct" else [None, "handler"]), "quietlog": st.booleans()}


def opts(dists):
    return st.tuples(st.sampled_from([None, 1, 2, 3, 5]), st.sampled_from(dists), st.sampled_from([None, 0.05, 0.3])).map(
        lambda t: dict((k, v) for k, v in (("nsol", t[0]), ("dist", t[1]), ("vol_th", t[2])) if v is not None))


def hnf2():
    return st.fixed_dictionaries({
        "which": st.just("hnf"), "A": lat2(), "M": lat2(), "ratio": ratio2, "disp": st.sampled_from([None, 1, 1, 2, 3, 4]), "seed": st.integers(0, 1000), **logs("hnf"),
        "kw": st.tuples(opts([None, "Cauchy", "strain", "Ericksen"]), st.sampled_from([1, 2])).map(lambda t: dict(t[0], maxiter=t[1], miniter=1))})


def direct2():
    return st.fixed_dictionaries({
        "which": st.sampled_from(["direct", "default"]), "A": lat2(), "M": lat2(), "ratio": st.sampled_from([0.9, 1.0, 1.04, 1.4, 2.0]),
        "disp": st.sampled_from([None, 1, 2, 3]), "seed": st.integers(0, 1000), **logs("direct"),
        "kw": st.sampled_from([{}, {"nsol": 1}, {"nsol": 2}, {"nsol": 3}, {"dist": "strain"}, {"dist": "Ericksen", "nsol": 2}])})


def hnf3():
    return st.fixed_dictionaries({
        "which": st.just("hnf"), "A": g.bravais3(lo=1.0, hi=2.0, k=40), "M": g.bravais3(lo=1.0, hi=2.0, k=40), "ratio": st.sampled_from([0.9, 1.0, 1.04, 2.0]),
        "disp": st.sampled_from([None, 1, 2, 3]), "seed": st.just(0), **logs("hnf"),
        "kw": st.tuples(opts([None, "Cauchy", "strain", "Ericksen"])).map(lambda t: dict(t[0], maxiter=1, miniter=1))})


FACETS = [
    Facet("plane_hnf", hnf2(), check, 240, 8000, shards=8),
    Facet("plane_direct", direct2(), check, 64, 1600, shards=8, shrink_s=60),
    Facet("space_hnf", hnf3(), check, 32, 800, shards=8, shrink_s=60),
]
