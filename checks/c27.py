"""C27 - results do not depend on the unit of length."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c21 import prepare
from harness import gen as g
from harness.core import Facet, require

RULE = ("a case is a lattice (Bravais or any basis in dimension 1-4) or a pair of lattices with questions about them, asked in several units of length: "
        "powers of two between 2^-40 and 2^40 (bitwise the same problem) and ordinary factors (10, 0.1, 1e-10, 1.889726); non-trivial: a factor is "
        "outside [0.01, 100] and the answers hold more than the identity")

NLEN = {3: [1, 1, 1, 2, 1, 2, 2, 3, 3, 3, 3, 3, 3, 3], 2: [1, 2, 2, 1, 2]}
pow2 = st.integers(-40, 40).map(lambda k: 2.0 ** k)
small = st.sampled_from([1e-10, 1e-8, 0.1, 0.529177, 1.889726, 10.0, 100.0, 1e4, 1e8, 1e10])


def nlen(b):
    return NLEN[b["dim"]][b["id"] - 1]


def agree(what, k, f, a, b, tol, case):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, "%s: shape %s becomes %s when the unit of length changes by %r: %s", what, a.shape, b.shape, f, case)
    sc = max(1e-300, np.abs(a).max() if a.size else 0)
    require(not a.size or np.abs(a - b).max() <= tol * sc, "%s changes with the unit of length (factor %r): %s, expected %s: %s", what, f, b.tolist(), a.tolist(), case)


def others(n):
    return st.lists(st.one_of(g.int_matrix(n, 2), g.wellcond(n, 2.0, 2)).filter(lambda D: abs(la.det(np.array(D))) > 0.2), max_size=2)


def queries(n, c):
    return st.fixed_dictionaries(dict(c, **{
        "factors": st.one_of(st.lists(pow2, min_size=1, max_size=3), st.lists(small, min_size=1, max_size=3)).map(lambda L: [1.0] + L),
        "ops": g.ops_strategy(n, 5, 2), "others": others(n), "near": st.sampled_from([0.9, 1.01, 1.001, 2.0]),
        "Ms": st.lists(g.ops_strategy(n, 3, 1), max_size=3), "sym": st.lists(st.integers(0, 100), max_size=3),
        "idx": st.lists(st.integers(-3, 3), min_size=n, max_size=n).filter(any),
        "origin": st.lists(g.fl(-2, 2, 4), min_size=n, max_size=n)}))


def lattice_case():
    b = g.bravais().flatmap(lambda b: queries(b["dim"], {"brav": st.just(b)}))
    e = st.sampled_from([1, 2, 3, 3, 4]).flatmap(lambda n: queries(n, {"E": g.wellcond(n)}))
    return st.one_of(b, b, e)


def check_lattice(ctx, c):
    E0 = g.prim_base(c["brav"]) if "brav" in c else np.array(c["E"])
    n = len(E0)
    if la.cond(E0) > 30:
        return None
    U = np.array(g.unimodular(n, c["ops"]))
    D2 = np.eye(n)
    D2[0, 0] = c["near"]
    a = {"factors": c["factors"], "U": U.tolist(), "others": c["others"] + [D2.tolist()], "Ms": [g.unimodular(n, o) for o in c["Ms"]], "Qs": []}
    auts = g.automorphisms(E0)
    if len(auts) != len(g.automorphisms(E0, 2e-3)):
        return None           # a symmetry that is nearly there: rounding decides
    for k in c["sym"]:
        Q = auts[k % len(auts)]
        a["Qs"].append(Q.tolist())
        a["Qs"].append((0.9 * Q).tolist())
    if "brav" in c:
        b = c["brav"]
        a.update(brav=b, nlen=nlen(b), idx=c["idx"], origin=c["origin"])
    else:
        a["E"] = c["E"]
    r = ctx.ok("units", a)
    what = str(c.get("brav", c.get("E")))
    exact = all(np.log2(f) % 1 == 0 for f in c["factors"])
    tol = 1e-12 if exact else 1e-9
    r0 = r[0]
    for f, x in zip(c["factors"][1:], r[1:]):
        for k in ("E", "C", "verts", "cverts"):
            if k in r0:
                sc = np.asarray(x[k]) / f
                agree(k, k, f, r0[k], sc, tol, what)
        if exact and "points" in r0:        # with other factors a point on the boundary may fall out by rounding
            agree("points", "points", f, r0["points"], np.asarray(x["points"]) / f, tol, what)
        for k in ("T", "prim", "conv"):
            if k in r0:
                agree(k, k, f, r0[k], x[k], tol, what)
        require(r0["eq"] == x["eq"], "comparisons with other lattices %s become %s when the unit changes by %r: %s, %s", r0["eq"], x["eq"], f, what, a["others"])
        require(r0["in"] == x["in"], "membership answers %s become %s when the unit changes by %r: %s, %s %s", r0["in"], x["in"], f, what, a["Ms"], a["Qs"])
        if "groups" in r0:
            for name, p, q in zip(("Laue", "point", "special lattice", "lattice"), r0["groups"], x["groups"]):
                require(g.same_set([np.asarray(m, float) for m in p], [np.asarray(m, float) for m in q]), "the %s group (%d elements) has %d elements when the unit of length changes by %r: %s",
                        name, len(p), len(q), f, what)
        if exact:
            agree("LLL basis", "lll", f, r0["lll"], np.asarray(x["lll"]) / f, tol, what)
        else:       # ties may be decided differently
            B0, B1 = np.asarray(r0["lll"]), np.asarray(x["lll"]) / f
            M = la.solve(B0, B1)
            require(np.abs(M - np.rint(M)).max() < 1e-6 and abs(abs(la.det(M)) - 1) < 1e-6, "LLL basis in another unit (factor %r) is no basis of the same lattice: %s", f, what)
            require(la.norm(B1) <= 1.5 ** n * la.norm(B0), "LLL basis is longer in another unit (factor %r): %s", f, what)
    require(r0["eq"][0], "the lattice %s is not equal to itself in another basis", what)
    return any(not 0.01 <= f <= 100 for f in c["factors"]) and (len(auts) > 2 or bool(c["ops"]))


def dist_case():
    return st.sampled_from([2, 3]).flatmap(lambda n: st.fixed_dictionaries({
        "E1": g.wellcond(n), "E2": g.wellcond(n), "L": st.lists(g.int_matrix(n, 3), min_size=1, max_size=5),
        "factors": st.one_of(st.lists(pow2, min_size=1, max_size=3), st.lists(small, min_size=1, max_size=3)).map(lambda L: [1.0] + L)}))


def check_dist(ctx, c):
    r = ctx.ok("units_dist", c)
    sc = max(1.0, la.norm(np.array(c["E1"])) ** 4 * la.norm(la.inv(np.array(c["E2"]))) ** 4 * max(la.norm(np.array(L)) ** 4 for L in c["L"]))
    for f, x in zip(c["factors"][1:], r[1:]):
        for k in ("Cauchy", "strain", "Ericksen", "vec"):
            a, b = np.asarray(r[0][k], float), np.asarray(x[k], float)
            t = 1e-6 if k == "strain" else 1e-9
            require(a.shape == b.shape and np.all(np.isfinite(b)) and np.abs(a - b).max() <= t * sc,
                    "the %s distance %s becomes %s when the unit of length changes by %r: %s", k, a.tolist(), b.tolist(), f, c)
    return any(g.idet(L) for L in c["L"])


def kw(which):
    if which == "opt":
        return st.fixed_dictionaries({"dist": st.sampled_from(["Cauchy", "strain", "Ericksen"]), "nsol": st.integers(1, 3)})
    if which == "hnf":
        return st.fixed_dictionaries({"dist": st.sampled_from(["Cauchy", "strain", "Ericksen"]), "nsol": st.integers(1, 2), "vol_th": st.sampled_from([0.05, 0.2])})
    return st.fixed_dictionaries({"nsol": st.integers(1, 2)})


def search_case():
    return st.sampled_from(["opt", "opt", "hnf", "direct"]).flatmap(lambda w: st.fixed_dictionaries({
        "which": st.just(w), "A": g.bravais2(lo=0.8, hi=2.0, k=50), "M": g.bravais2(lo=0.8, hi=2.0, k=50), "kw": kw(w), "seed": st.integers(0, 1000),
        "ratio": st.sampled_from([0.9, 1.0, 1.04, 1.5] if w != "opt" else [0.9, 1.0, 1.04]),
        "factors": st.lists(pow2, min_size=1, max_size=1).map(lambda L: [1.0] + L)}))


def check_search(ctx, c):
    c = prepare(c)
    if max(la.cond(g.prim_base(c["A"])), la.cond(g.prim_base(c["M"]))) > 6:
        return None
    a = {"which": c["which"], "A": c["A"], "nA": nlen(c["A"]), "M": c["M"], "nM": nlen(c["M"]), "kw": c["kw"], "seed": c["seed"], "factors": c["factors"]}
    r = ctx.ok("units_search", a, cpu=150)
    d0 = np.array([s["d"] for s in r[0]])
    for f, x in zip(c["factors"][1:], r[1:]):
        d = np.array([s["d"] for s in x])
        require(d.shape == d0.shape and np.allclose(d, d0, rtol=1e-7, atol=1e-9), "%s search: the distances %s become %s when the unit of length changes by %r: %s -> %s, %s",
                c["which"], d0.tolist(), d.tolist(), f, c["A"], c["M"], c["kw"])
    return len(d0) > 0


FACETS = [
    Facet("lattice", lattice_case(), check_lattice, 400, 8000),
    Facet("distances", dist_case(), check_dist, 300, 6000),
    Facet("searches", search_case(), check_search, 120, 2400, shards=8),
]
