"""C22 - the direct search finds the globally best correspondences."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c21 import prepare, record
from harness import brute
from harness import gen as g
from harness.core import Facet, require

RULE = ("a case is a pair of Bravais lattices (2D with any shape; a few in 3D), the number of solutions, the slice size and the state of the random "
        "number generator; the answer is compared with a brute-force enumeration of all integer matrices; non-trivial: at least ten matrices lie within the "
        "largest reported distance")


def full_group(b, E):
    Ei = la.inv(E)
    return [np.rint(Ei.dot(Q).dot(E)).astype(int) for Q in g.automorphisms(g.prim_base(b))]


FULL = {2: [8, 4, 4, 12, 2], 3: [48, 48, 48, 24, 12, 16, 16, 8, 8, 8, 8, 4, 4, 2]}


def usual(b, G):
    """no accidental symmetry"""
    return len(G) == FULL[b["dim"]][b["id"] - 1]


def judge(c, r):
    kw = c["kw"]
    nsol = kw.get("nsol", 1)
    EA, EM, CA, CM = (np.asarray(r[x]) for x in ("EA", "EM", "CA", "CM"))
    n = len(EA)
    what = "%s -> %s, %s" % (c["A"], c["M"], kw)
    sols = r["sols"]
    require(len(sols) >= nsol, "%d solutions, %d were requested: %s", len(sols), nsol, what)
    G1, G2 = full_group(c["A"], EA), full_group(c["M"], EM)
    ordi = usual(c["A"], G1) and usual(c["M"], G2)
    Ls = []
    for s in sols:
        l = np.asarray(s["l"])
        require(l.shape == (n, n) and l.dtype.kind == "i" and g.idet(l.tolist()) != 0, "l = %s is singular or no integer matrix: %s", l.tolist(), what)
        record(s, EA, EM, CA, CM, l, 0, what)
        Ls.append(l.astype(np.int64))
        if ordi:
            pos = g.idet(l.tolist()) > 0 or not any(round(la.det(a)) * round(la.det(b)) < 0 for a in G1 for b in G2)
            require(pos, "l = %s has a negative determinant, an equivalent one has not: %s", l.tolist(), what)
    d = [s["d"] for s in sols]
    tol = 1e-9 * (1 + max(d))
    require(all(a <= b + tol for a, b in zip(d, d[1:])), "the distances %s are not sorted: %s", d, what)
    require(d[-1] <= d[nsol - 1] + tol, "%d solutions for nsol = %d that are no ties (%s): %s", len(d), nsol, d, what)
    if not ordi:
        return d, None
    for i in range(len(Ls)):
        orb = set(np.ascontiguousarray(a.dot(Ls[i]).dot(b), dtype=np.int64).tobytes() for a in G1 for b in G2)
        for j in range(i):
            require(Ls[j].tobytes() not in orb, "the solutions %s and %s are equivalent: %s", Ls[j].tolist(), Ls[i].tolist(), what)
    f = brute.search(EA, EM, max(d[-1], 1e-6), 0)
    if f is None:
        return d, None
    cl = brute.classes(f, G1, G2)
    od = [x[0] for x in cl]
    require(len(od) >= nsol and np.allclose(od[:nsol], d[:nsol], rtol=1e-7, atol=1e-9), "the distances %s, but the closest are %s (%s): %s", d, od[:nsol + 2],
            [x[1].tolist() for x in cl[:nsol]], what)
    return d, len(f)


def ref(ctx, c, kw, seed, which="direct"):
    a = {"which": which, "A": c["A"], "M": c["M"], "kw": dict(kw, dim=c["A"]["dim"], disp=0)}
    r = ctx.ok("latcor", a, seed=seed, cpu=c.get("cpu", 100))
    require(r["text"] == "", "printed with disp = 0: %s", r["text"][:100])
    return r


def check(ctx, c):
    if c["ratio"] is not None:
        c = prepare(c)
    if max(la.cond(g.prim_base(c["A"])), la.cond(g.prim_base(c["M"]))) > c["cond"]:
        return None
    r = ref(ctx, c, c["kw"], c["seed"], c["which"])
    d, n = judge(c, r)
    if c["again"] is not None:
        sl, seed = c["again"]
        kw = dict(c["kw"])
        if sl:
            kw["slice_sz"] = sl
        d2 = [s["d"] for s in ref(ctx, c, kw, seed)["sols"]]
        require(len(d2) >= 1 and np.allclose(d2[:c["kw"].get("nsol", 1)], d[:c["kw"].get("nsol", 1)], rtol=1e-7, atol=1e-9),
                "the distances %s become %s with another random start and slice size %s: %s -> %s, %s", d, d2, sl, c["A"], c["M"], c["kw"])
    return n is not None and n >= 10


def lattices2():
    return g.bravais2(lo=0.8, hi=2.0, k=50)


ratio2 = st.sampled_from([0.6, 0.9, 0.97, 1.0, 1.04, 1.1, 1.31, 1.49, 1.52, 1.9, 2.0, 2.07, 2.9])


def kw2():
    return st.tuples(st.sampled_from([None, 1, 1, 2, 3, 4]), st.sampled_from([None, None, 7, 100, 33])).map(
        lambda t: dict((k, v) for k, v in (("nsol", t[0]), ("slice_sz", t[1])) if v is not None))


def case2():
    return st.fixed_dictionaries({
        "A": lattices2(), "M": lattices2(), "ratio": ratio2, "kw": kw2(), "seed": st.integers(0, 1000), "cond": st.just(6), "which": st.sampled_from(["direct", "default"]),
        "again": st.one_of(st.none(), st.tuples(st.sampled_from([None, 1, 5, 64, 99, 101, 5000]), st.integers(0, 1000)).map(list))})


def tied():
    """lattices with round parameters, and no scaling: many distances are exactly the same"""
    L = st.sampled_from([1.0, 1.0, 1.25, 1.5, 2.0])
    lat = st.tuples(st.sampled_from([1, 1, 2, 2, 3, 4]), L, L).map(lambda t: {"dim": 2, "id": t[0], "par": [t[1]] if t[0] in (1, 4) else [t[1], t[2]]})
    return st.fixed_dictionaries({
        "A": lat, "M": lat, "ratio": st.none(), "kw": st.tuples(st.sampled_from([1, 2, 2, 3, 3, 4, 5]), st.sampled_from([None, 1, 3, 3, 7, 33])).map(lambda t: dict([("nsol", t[0])] + ([("slice_sz", t[1])] if t[1] else []))),
        "seed": st.integers(0, 1000), "cond": st.just(6), "which": st.just("direct"), "again": st.none()}).filter(
        lambda c: 0.45 < abs(la.det(g.prim_base(c["A"])) / la.det(g.prim_base(c["M"]))) < 2.3)


THREE = [
    # fcc -> body centred tetragonal (Bain), bcc -> hexagonal-like orthorhombic, rhombohedral -> cubic
    {"A": {"dim": 3, "id": 2, "par": [2.0]}, "M": {"dim": 3, "id": 7, "par": [1.414, 2.0]}, "ratio": 1.02, "kw": {}},
    {"A": {"dim": 3, "id": 1, "par": [2.0]}, "M": {"dim": 3, "id": 6, "par": [2.0, 2.1]}, "ratio": 1.0, "kw": {}},
    {"A": {"dim": 3, "id": 3, "par": [2.0]}, "M": {"dim": 3, "id": 3, "par": [2.0]}, "ratio": 0.97, "kw": {}},
    {"A": {"dim": 3, "id": 1, "par": [2.0]}, "M": {"dim": 3, "id": 12, "par": [2.0, 2.1, 1.95, 93.0]}, "ratio": 1.01, "kw": {}},
    {"A": {"dim": 3, "id": 6, "par": [2.0, 2.1]}, "M": {"dim": 3, "id": 8, "par": [1.95, 2.05, 2.2]}, "ratio": 1.0, "kw": {}},
    {"A": {"dim": 3, "id": 1, "par": [2.0]}, "M": {"dim": 3, "id": 5, "par": [2.0, 86.0]}, "ratio": 1.0, "kw": {}},
]


def case3():
    def mk(t):
        c, seed, k, jit = t
        M = dict(c["M"], par=[round(p * (1 + 0.01 * j), 4) for p, j in zip(c["M"]["par"], jit)])
        return dict(c, M=M, ratio=round(c["ratio"] + 0.01 * k, 3), seed=seed, cond=6, which="direct", again=None, cpu=250)
    return st.tuples(st.sampled_from(THREE), st.integers(0, 1000), st.integers(-2, 2), st.lists(st.integers(-3, 3), min_size=6, max_size=6)).map(mk)


FACETS = [
    Facet("plane", case2(), check, 240, 6000, shards=8, shrink_s=120),
    Facet("tied", tied(), check, 160, 4000, shards=8, shrink_s=120),
    Facet("space", case3(), check, 24, 600, shards=8, shrink_s=1),
]
