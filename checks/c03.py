"""C03 - lattice equality."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require, Violation
from harness.gen import (bravais, conv_base, fl, idet, ops_strategy, prim_base, rodrigues, unimodular, wellcond)

RULE = ("a case is a basis and a list of related bases (unimodular change, integer change of index > 1, rational change, "
        "rotation, shear, scaling, other dimension); non-trivial: the list holds both an equal and an unequal lattice")

CLEAR = 1e-3    # a coefficient that far from an integer is no rounding error


def relation(E1, E2):
    """True / False / None (too close to call)"""
    if len(E1) != len(E2):
        return False
    A = la.inv(E1).dot(E2)
    Ai = np.rint(A)
    dev = np.abs(A - Ai).max()
    err = 1e-14 * la.cond(E1) * max(1, np.abs(A).max())       # what rounding may do to a coefficient
    if err > 1e-6 or np.abs(A).max() > 1e6:
        return None
    if dev > max(CLEAR, 1e-7 * np.abs(A).max(), 1e3 * err):
        return False
    if err > 1e-8 or dev > max(1e-9, err):
        return None
    return abs(idet(Ai.astype(int).tolist())) == 1


def derive(E, d):
    n = len(E)
    k = d[0]
    if k == "uni":
        return E.dot(np.array(unimodular(n, d[1])))
    if k == "super":     # E U diag(index) V
        D = np.eye(n)
        D[d[2] % n, d[2] % n] = d[3]
        return E.dot(np.array(unimodular(n, d[1]))).dot(D)
    if k == "sub":
        D = np.eye(n)
        D[d[2] % n, d[2] % n] = 1.0 / d[3]
        return E.dot(np.array(unimodular(n, d[1]))).dot(D)
    if k == "area":      # same volume, but columns scaled by 2 and 1/2
        D = np.eye(n)
        if n > 1:
            D[0, 0], D[1, 1] = d[3], 1.0 / d[3]
        else:
            D[0, 0] = d[3]
        return E.dot(D).dot(np.array(unimodular(n, d[1])))
    if k == "shear":
        D = np.eye(n)
        D[0, -1] += d[2]
        return E.dot(D)
    if k == "big":       # a large shear, by an integer or nearly so, and back to a basis without small numbers
        D = np.eye(n)
        D[0, -1] += d[2] + d[3]
        return E.dot(D).dot(np.array(unimodular(n, d[1])))
    if k == "dense":     # large coefficients everywhere
        rng = np.random.RandomState(d[1])
        lo = np.tril(rng.randint(-d[2], d[2] + 1, (n, n)), -1) + np.eye(n)
        up = np.triu(rng.randint(-d[2], d[2] + 1, (n, n)), 1) + np.eye(n)
        lo[-1, -1] = d[3]
        return E.dot(lo).dot(up)
    if k == "scale":
        return E * d[2]
    if k == "perturb":
        F = E.copy()
        F[d[2] % n, d[3] % n] += d[4]
        return F
    if k == "rot":
        R = np.eye(n)
        if n == 2:
            t = np.radians(d[2])
            R = np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])
        elif n >= 3:
            R[:3, :3] = rodrigues(d[1], np.radians(d[2]))
        return R.dot(E)
    if k == "dim":
        F = np.eye(n + 1)
        F[:n, :n] = E
        return F
    raise ValueError(k)


def deriv_strategy(n):
    ops = ops_strategy(n, 6, 2)
    ax = st.lists(st.integers(-2, 2), min_size=3, max_size=3).filter(any)
    return st.one_of(
        st.tuples(st.just("uni"), ops),
        st.tuples(st.just("uni"), ops),
        st.tuples(st.just("super"), ops, st.integers(0, 5), st.sampled_from([2, 3, 5, -2])),
        st.tuples(st.just("sub"), ops, st.integers(0, 5), st.sampled_from([2, 3, 4])),
        st.tuples(st.just("area"), ops, st.just(0), st.sampled_from([2, 3])),
        st.tuples(st.just("shear"), st.just(0), st.sampled_from([0.5, 0.25, 0.01, 1, -2, 1.0 / 3, 0.003])),
        st.tuples(st.just("big"), ops_strategy(n, 2, 1), st.sampled_from([100, 1000, -3000, 10000, 20000, 50000]), st.sampled_from([0, 0, 0.5, 0.05, -0.01, 0.3])),
        st.tuples(st.just("dense"), st.integers(0, 10 ** 6), st.sampled_from([10, 60, 100, 300]), st.sampled_from([1, 1, -1, 2])),
        st.tuples(st.just("scale"), st.just(0), st.sampled_from([-1, 2, 0.5, 1.01, 1.002, 3])),
        st.tuples(st.just("perturb"), st.just(0), st.integers(0, 5), st.integers(0, 5), st.sampled_from([0.01, -0.02, 0.1])),
        st.tuples(st.just("rot"), ax, st.sampled_from([90, 180, 60, 120, 45, 10, 1])),
        st.tuples(st.just("dim")),
    ).map(list)


def base_strategy():
    def gen(n):
        return st.fixed_dictionaries({
            "E": st.one_of(wellcond(n), st.lists(fl(0.5, 3, 20), min_size=n, max_size=n).map(lambda d: np.diag(d).tolist())),
            "how": st.sampled_from(["array", "list", "tuple", "fortran"]),
            "der": st.lists(deriv_strategy(n), min_size=1, max_size=4)})
    gen_b = bravais().flatmap(lambda b: st.fixed_dictionaries({
        "brav": st.just(b), "der": st.lists(deriv_strategy(b["dim"]), min_size=1, max_size=4)}))
    return st.one_of(st.sampled_from([1, 2, 3, 3, 4, 5, 6]).flatmap(gen), gen_b)


def check(ctx, c):
    if "brav" in c:
        E = prim_base(c["brav"])
        lats = [{"brav": c["brav"]}, {"E": E.tolist()}]
        bases = [E, E]
    else:
        E = np.array(c["E"], float)
        lats = [{"E": c["E"], "how": c["how"]}]
        bases = [E]
    cur = E
    for d in c["der"]:
        F = derive(cur, d)
        if abs(la.det(F)) < 1e-3 or (la.cond(F) > 1e5 and d[0] not in ("big", "dense")):
            continue
        lats.append({"E": F.tolist(), "how": "array"})
        bases.append(F)
        if d[0] == "uni" and np.abs(F).max() < 100:
            cur = F         # chains of bases
    r = ctx.ok("lat_eq", {"lats": lats})
    seen = set()
    for i in range(len(bases)):
        for j in range(len(bases)):
            want = relation(bases[i], bases[j])
            got = r["eq"][i][j]
            require(r["ne"][i][j] == (not got), "!= is not the negation of == for %s and %s", bases[i].tolist(), bases[j].tolist())
            if want is None:
                continue
            if i != j:
                seen.add(want)
            require(got == want, "lattices with bases %s and %s: == gives %s", bases[i].tolist(), bases[j].tolist(), got)
    for o in r["others"]:
        require(o.get("v") is False, "a lattice compared with something else: %s", o)
    return seen == {True, False}


FACETS = [
    Facet("same_points", base_strategy(), check, 1600, 40000, examples=[
        {"E": [[1.0, 0.0], [0.0, 1.0]], "how": "list", "der": [["super", [], 0, 2], ["uni", [[0, 1, 1]]], ["sub", [], 1, 2]]},
        {"E": [[2.0, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 2.0]], "how": "list", "der": [["super", [], 1, -2], ["area", [], 0, 2], ["dim"]]},
        {"brav": {"dim": 3, "id": 2, "par": [2.0]}, "der": [["super", [], 1, 2], ["rot", [0, 0, 1], 90], ["rot", [0, 0, 1], 45]]}]),
]
