"""C17 - rank-one connections."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c15 import sym
from harness.core import Facet, require
from harness import gen as g

RULE = ("solvers: a matrix C with eigenvalues l1 < 1 < l3, middle one equal to or different from one, or made asymmetric, in an arbitrary frame; "
        "compatibility: pairs of matrices made compatible by construction, random ones, and near misses; non-trivial: the eigenvalue condition "
        "holds, or fails by less than 0.05")


def C_of(c):
    R = g.rot_of(c["rot"])
    return sym((R * np.array(c["ev"])).dot(R.T))


def check_solver(ctx, c):
    C = C_of(c)
    ev = np.sort(c["ev"])
    if c["asym"]:
        i, j = c["asym"][:2]
        C[i, j] += c["asym"][2]
        err = "CompatibilityError" if c["solver"] == "am" else "TypeError"
        ctx.raises("rank1", {"C": C.tolist(), "solver": c["solver"]}, [err])
        return "asymmetric"
    d = abs(ev[1] - 1)
    if d > 1e-13:
        if c["solver"] != "am" or d < 2e-4 or not (ev[0] < 1 - 1e-6 and ev[2] > 1 + 1e-6):
            return None
        r = ctx.ok("rank1", {"C": C.tolist(), "solver": "am"})
        require(r["r"] is None, "C = %s has the middle eigenvalue %g, the solution was %s", C.tolist(), ev[1], r["r"])
        require(r["intact"], "the argument was modified")
        return d < 0.05
    if ev[0] > 1 - 1e-3 or ev[2] < 1 + 1e-3:
        return None
    r = ctx.ok("rank1", {"C": C.tolist(), "solver": c["solver"]})
    require(r["intact"], "the argument was modified")
    require(r["r"] is not None and len(r["r"]) == 2, "C = %s: %s, two solutions expected", C.tolist(), r["r"])
    S = []
    for b, m in r["r"]:
        b, m = np.asarray(b), np.asarray(m)
        F = np.eye(3) + np.outer(b, m)
        require(abs(la.norm(m) - 1) < 1e-8, "|m| = %g", la.norm(m))
        require(np.abs(F.T.dot(F) - C).max() < 1e-6, "C = %s, b = %s, m = %s: residual %g", C.tolist(), b.tolist(), m.tolist(), np.abs(F.T.dot(F) - C).max())
        require(la.det(F) > 0, "I + b m^T reverses orientation for C = %s", C.tolist())
        S.append(np.outer(b, m))
    require(np.abs(S[0] - S[1]).max() > 1e-5, "the two solutions coincide for C = %s", C.tolist())
    return True


def solver():
    lo, hi = g.fl(0.3, 0.999), g.fl(1.001, 2.5)
    mid = st.one_of(st.just(1.0), st.just(1.0), st.sampled_from([1.01, 0.98, 1.001, 0.9995, 1.05]))
    ev = st.tuples(lo, mid, hi).flatmap(lambda t: st.permutations(list(t)))
    return st.fixed_dictionaries({
        "ev": ev, "rot": g.rotation_case(), "solver": st.sampled_from(["am", "r1"]),
        "asym": st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from([(0, 1), (1, 0), (0, 2), (2, 1)]), st.sampled_from([1e-3, 0.1, -0.05, 1e-4])).map(lambda t: list(t[0]) + [t[1]]))})


def check_compat(ctx, c):
    B = np.array(c["B"])
    if la.det(B) < 0:
        B[:, 0] *= -1
    if c["k"] == "random":
        A = np.array(c["A"])
    else:
        A = B + np.outer(c["a"], c["n"])
        if c["k"] == "miss":
            A = A * c["s"]
        A = g.rot_of(c["rot"]).dot(A)
    if la.det(A) < 0.02 or la.cond(A) > 100 or la.cond(B) > 100:
        return None
    X = A.dot(la.inv(B))
    ev = la.eigvalsh(X.T.dot(X))
    d = abs(ev[1] - 1)
    if 1e-8 < d < 1e-4:
        return None
    got = ctx.ok("compatible", {"A": A.tolist(), "B": B.tolist()})
    require(got is bool(d <= 1e-8), "A = %s, B = %s: the middle eigenvalue is %.8g, isCompatible() is %s", A.tolist(), B.tolist(), ev[1], got)
    # symmetric in A and B
    got2 = ctx.ok("compatible", {"A": B.tolist(), "B": A.tolist()})
    require(got2 is got, "isCompatible(A, B) is %s, isCompatible(B, A) is %s", got, got2)
    return d < 0.05


vec = st.lists(g.fl(-1, 1, 20), min_size=3, max_size=3)
compat = st.one_of(
    st.fixed_dictionaries({"k": st.just("made"), "B": g.wellcond(3, 2.0), "a": vec, "n": vec, "rot": g.rotation_case()}),
    st.fixed_dictionaries({"k": st.just("miss"), "B": g.wellcond(3, 2.0), "a": vec, "n": vec, "rot": g.rotation_case(), "s": st.sampled_from([1.01, 0.99, 1.001, 1.2, 0.7])}),
    st.fixed_dictionaries({"k": st.just("random"), "B": g.wellcond(3, 2.0), "A": g.wellcond(3, 2.0)}))

FACETS = [
    Facet("solvers", solver(), check_solver, 1500, 40000),
    Facet("compatible", compat, check_compat, 1500, 40000),
]
