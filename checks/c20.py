"""C20 - search for the optimal lattice-invariant shear."""
import itertools

import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c19 import model, scale
from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is one call, or a history of two or three calls in one process (2D and 3D mixed), each with two bases (Bravais lattices after a change of "
        "basis), a distance, a number of solutions and iteration limits; the first call is repeated at the end; non-trivial: the best solution "
        "is not the starting point, or several solutions are returned")

DIST = {"Cauchy": 0, "strain": 1, "Ericksen": 2}


def shears(n):
    out = []
    for i in range(n):
        for j in range(n):
            if i != j:
                for s in (1, -1):
                    T = np.eye(n, dtype=int)
                    T[i, j] = s
                    out.append(T)
    return out


SHEARS = {2: shears(2), 3: shears(3)}
_words = {}


def words(n, k):
    """all products of at most k shears"""
    if (n, k) not in _words:
        seen = {np.eye(n, dtype=int).tobytes(): np.eye(n, dtype=int)}
        front = list(seen.values())
        for _ in range(k):
            new = []
            for w in front:
                for T in SHEARS[n]:
                    x = w.dot(T)
                    if x.tobytes() not in seen:
                        seen[x.tobytes()] = x
                        new.append(x)
            front = new
        _words[(n, k)] = list(seen.values())
    return _words[(n, k)]


def base0(b):
    """of a Bravais lattice or of any other, then scaled to a unit cell volume of one"""
    if "E" in b:
        E = np.array(b["E"])
        return E / abs(la.det(E)) ** (1.0 / len(E))
    return g.prim_base(b)


def basis(b, ops):
    return base0(b).dot(np.array(g.unimodular(b["dim"], ops), float))


def special_group(b, E):
    Ei = la.inv(E)
    return [np.rint(Ei.dot(Q).dot(E)).astype(int) for Q in g.automorphisms(base0(b)) if la.det(Q) > 0]


ORDER3 = [24, 24, 24, 12, 6, 8, 8, 4, 4, 4, 4, 2, 2, 1]
ORDER2 = [4, 2, 2, 6, 2]


def ordinary(b, G):
    """no more symmetry than its type says (accidental symmetry may lie in any orientation)"""
    if "E" in b:
        return len(G) == {2: 2, 3: 1}[b["dim"]]
    return len(G) == (ORDER3 if b["dim"] == 3 else ORDER2)[b["id"] - 1]


def vdist(E1, E2, Ls, k):
    """many distances at once"""
    Ls = np.asarray(Ls, float)
    n = len(E1)
    if k == 2:
        M = np.einsum("kij,kjl->kil", np.einsum("kji,jl->kil", Ls, E1.T.dot(E1)), Ls) - E2.T.dot(E2)
        return (M ** 2).sum(axis=(1, 2)) / (E2.T.dot(E2) ** 2).sum()
    K = np.einsum("ij,kjl,lm->kim", E1, Ls, la.inv(E2))
    if k == 1:
        return ((la.svd(K, compute_uv=False) - 1) ** 2).sum(axis=1)
    C = np.einsum("kij,klj->kil", K, K) - np.eye(n)
    return (C ** 2).sum(axis=(1, 2))


def limits(kw):
    """no solutions are taken from further away than one step from where descents were started"""
    nsol = kw.get("nsol", 1)
    return kw.get("maxiter", 3 if nsol < 3 else 4 if nsol < 10 else 5) <= kw.get("miniter", 3) + 1


def closest(E1, E2, l, W, k):
    """the best of all products l w"""
    ds = vdist(E1, E2, [l.dot(w) for w in W], k)
    i = int(np.argmin(ds))
    return l.dot(W[i]), ds[i]


def judge(q, E1, E2, r):
    n = len(E1)
    kw = q["kw"]
    nsol = kw.get("nsol", 1)
    k = DIST[kw.get("dist", "Cauchy")]
    what = "E1 = %s, E2 = %s, %s" % (E1.tolist(), E2.tolist(), kw)
    require(r["intact"], "an argument was modified")
    require(r["printed"] == 0 or kw.get("disp", 1) > 0, "printed with disp = 0")
    L, d = [np.asarray(l) for l in r["l"]], r["d"]
    require(len(L) == len(d) and len(d) > 0, "%d matrices and %d distances", len(L), len(d))
    if "maxiter" not in kw:
        require(len(d) >= nsol, "%d solutions, %d were requested: %s", len(d), nsol, what)
    for l, x in zip(L, d):
        require(l.shape == (n, n) and l.dtype.kind == "i" and g.idet(l.tolist()) == 1, "%s is not a unimodular matrix: %s", l.tolist(), what)
        w = model(E1, E2, l.astype(float))[k]
        require(abs(w - x) < 1e-7 * scale(E1, E2, l.astype(float)), "reported distance %.10g, that of %s is %.10g: %s", x, l.tolist(), w, what)
    tol = 1e-9 * (1 + max(d))
    require(all(a <= b + tol for a, b in zip(d, d[1:])), "the distances %s are not sorted: %s", d, what)
    if len(d) > nsol:
        require(d[-1] <= d[nsol - 1] + tol, "%d solutions for nsol = %d that are no ties: %s: %s", len(d), nsol, d, what)
    G1, G2 = special_group(q["b1"], E1), special_group(q["b2"], E2)
    for i in range(len(L) if ordinary(q["b1"], G1) and ordinary(q["b2"], G2) else 0):
        orb = set(a.dot(L[i]).dot(b).tobytes() for a in G1 for b in G2)
        for j in range(i):
            require(L[j].astype(int).tobytes() not in orb, "the solutions %s and %s are equivalent: %s", L[j].tolist(), L[i].tolist(), what)
    # the best one is a local minimum
    st0 = np.rint(np.asarray(r["start"]))
    w = model(E1, E2, st0)[k]
    require(d[0] <= w + 1e-7 * scale(E1, E2, st0), "the best distance is %.10g, that of the LLL-reduced start %.10g: %s", d[0], w, what)
    if limits(kw):
        tol = 1e-7 * (1 + d[0])
        # descents start from every product of up to miniter shears in 2D; in 3D some are left out, but no single one
        W = words(n, kw.get("miniter", 3) + 1 if n == 2 else 2)
        x, v = closest(E1, E2, L[0], W, k)
        if v < d[0] - tol:
            # some other matrix with the same distance may be the local minimum that was found
            best = dict((y.tobytes(), y) for l, z in zip(L, d) if z <= d[0] + tol for a in G1 for b in G2 for y in [a.dot(l).dot(b)])
            best = [y for y, z in zip(best.values(), vdist(E1, E2, list(best.values()), k)) if z <= d[0] + tol]
            require(any(closest(E1, E2, y, W, k)[1] >= d[0] - tol for y in best), "the best solution %s has distance %.10g, but %s has %.10g: %s",
                    L[0].tolist(), d[0], x.tolist(), v, what)
    return len(d) > 1 or not np.array_equal(L[0], np.eye(n))


def check(ctx, c):
    args, bases = [], []
    for q in c["calls"]:
        E1, E2 = basis(q["b1"], q["ops1"]), basis(q["b2"], q["ops2"])
        if max(la.cond(E1), la.cond(E2)) > 200:
            return None
        bases.append((E1, E2))
        args.append({"E1": E1.tolist(), "E2": E2.tolist(), "kw": q["kw"]})
    res = ctx.ok("latopt", {"calls": args + args[:1]})
    nt = False
    for q, (E1, E2), r in zip(c["calls"], bases, res):
        nt = judge(q, E1, E2, r) or nt
    require(len(res[0]["d"]) == len(res[-1]["d"]) and np.allclose(res[0]["d"], res[-1]["d"], rtol=1e-9, atol=1e-12), "the repeated call gives %s, the first gave %s", res[-1]["d"], res[0]["d"])
    return nt


def lat3():
    return g.bravais3(lo=1.0, hi=2.5, k=20)


def lat2():
    return g.bravais2(lo=1.0, hi=2.5, k=20)


def call(n, fast=False):
    b = lat3 if n == 3 else lat2
    if n == 3:
        it = st.sampled_from([{"miniter": 1, "maxiter": 1}, {"miniter": 1, "maxiter": 2}, {"miniter": 2, "maxiter": 2}] if fast else [{}])
    else:
        it = st.sampled_from([{}, {}, {"miniter": 2, "maxiter": 3}, {"miniter": 1, "maxiter": 1}])
    kw = st.tuples(it, st.sampled_from(["Cauchy", "Cauchy", "strain", "Ericksen", None]), st.sampled_from([None, 1, 2, 3, 5, 8])).map(
        lambda t: dict(t[0], disp=0, **dict(([("dist", t[1])] if t[1] else []) + ([("nsol", t[2])] if t[2] else []))))
    return st.fixed_dictionaries({"b1": b(), "b2": b(), "ops1": g.ops_strategy(n, 4, 2), "ops2": g.ops_strategy(n, 3, 1), "kw": kw})


def rough(n):
    """lattices without symmetry whose cells differ a lot in shape: many local minima"""
    b = g.wellcond(n, 2.0, 20, maxcond=8.0).map(lambda E: {"dim": n, "E": E})
    kw = st.tuples(st.sampled_from(["Cauchy", "Cauchy", "strain"]), st.sampled_from([1, 1, 2, 3])).map(lambda t: {"disp": 0, "dist": t[0], "nsol": t[1]})
    return st.fixed_dictionaries({"b1": b, "b2": b, "ops1": g.ops_strategy(n, 2, 1), "ops2": g.ops_strategy(n, 2, 1), "kw": kw})


FACETS = [
    Facet("space_rough", rough(3).map(lambda q: {"calls": [q]}), check, 48, 1600, shards=8, shrink_s=20),
    Facet("plane_rough", rough(2).map(lambda q: {"calls": [q]}), check, 150, 4000),
    Facet("plane", call(2).map(lambda q: {"calls": [q]}), check, 300, 6000),
    Facet("space", call(3, True).map(lambda q: {"calls": [q]}), check, 160, 4000),
    Facet("space_default", call(3).map(lambda q: {"calls": [q]}), check, 24, 800, shards=8),
    Facet("history", st.lists(st.one_of(call(2), call(2), call(3, True)), min_size=2, max_size=3).map(lambda l: {"calls": l}), check, 60, 2000, shards=4),
]
