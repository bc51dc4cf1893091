"""C09 - LLL reduction."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a well-conditioned basis in dimension 2-5 times a random product of shears; non-trivial: the given basis is "
        "not already reduced")


def gso(B):
    n = len(B)
    Bo = np.zeros((n, n))
    mu = np.eye(n)
    for i in range(n):
        v = B[:, i].copy()
        for j in range(i):
            mu[i, j] = B[:, i].dot(Bo[:, j]) / Bo[:, j].dot(Bo[:, j])
            v = v - mu[i, j] * Bo[:, j]
        Bo[:, i] = v
    return Bo, mu


def reduced(B, eps=1e-6):
    Bo, mu = gso(B)
    n = len(B)
    for i in range(n):
        for j in range(i):
            if abs(mu[i, j]) > 0.5 + eps:
                return "|mu_%d%d| = %g" % (i + 1, j + 1, abs(mu[i, j]))
    for i in range(n - 1):
        lhs = Bo[:, i].dot(Bo[:, i])
        rhs = Bo[:, i + 1].dot(Bo[:, i + 1]) + mu[i + 1, i] ** 2 * lhs
        if lhs > (4.0 / 3 + eps) * rhs:
            return "Lovasz condition fails at %d: %g > 4/3 %g" % (i + 1, lhs, rhs)
    return ""


def check(ctx, c):
    n = len(c["E"])
    U = np.array(g.unimodular(n, c["ops"]), float)
    if np.abs(U).max() > 3e4:
        return None
    E = np.array(c["E"]).dot(U)
    if c["how"] in ("int", "list"):
        E = np.array(g.imul(c["E"], g.unimodular(n, c["ops"])))
    if la.cond(E) > 1e9:
        return None
    r = ctx.ok("lll", {"E": E.tolist(), "how": c["how"]})
    require(r["intact"], "the input basis was modified")
    B = r["B"]
    require(isinstance(B, np.ndarray) and B.shape == (n, n), "no basis returned: %s", str(B)[:200])
    A = la.inv(np.array(c["E"])).dot(B)     # the well-conditioned basis of the same lattice
    Ai = np.rint(A)
    tol = 1e-13 * np.abs(U).max() * max(1, la.cond(E)) ** 0.5 + 1e-6
    require(np.abs(A - Ai).max() < tol, "not vectors of the lattice: %s", B.tolist())
    d = g.idet(Ai.astype(int).tolist())
    require(abs(d) == 1, "spans a sublattice of index %d", abs(d))
    require(np.sign(la.det(B)) == np.sign(la.det(np.array(c["E"])) * g.idet(g.unimodular(n, c["ops"]))), "orientation changed")
    why = reduced(B)
    require(not why, "not reduced: %s, input %s, output %s", why, E.tolist(), B.tolist())
    return bool(reduced(E))


def case(n):
    long = st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(-2, 2)).map(list), min_size=4, max_size=14)
    return st.fixed_dictionaries({
        "E": st.one_of(g.wellcond(n), st.lists(g.fl(0.3, 3, 100), min_size=n, max_size=n).map(lambda d: np.diag(d).tolist())),
        "ops": st.one_of(g.ops_strategy(n, 8, 3), long), "how": st.sampled_from(["array", "fortran", "view"])})


def intcase(n):
    return st.fixed_dictionaries({
        "E": st.one_of(st.lists(st.lists(st.integers(-4, 4), min_size=n, max_size=n), min_size=n, max_size=n)
                       .filter(lambda M: g.idet(M) != 0), st.just(g.ieye(n))),
        "ops": g.ops_strategy(n, 8, 2), "how": st.sampled_from(["int", "list"])})


def thin():
    """skewed 2D/3D bases that need many swaps: products of Fibonacci-like shears"""
    return st.integers(2, 3).flatmap(lambda n: st.fixed_dictionaries({
        "E": g.wellcond(n),
        "ops": st.lists(st.sampled_from([[0, 1, 1], [1, 0, 1], [0, 1, 2], [1, 0, 2], [1, 0, -1], [0, 1, -1]] +
                                        ([[2, 0, 1], [0, 2, 1], [1, 2, 1], [2, 1, -1]] if n == 3 else [])), min_size=6, max_size=18),
        "how": st.just("array")}))


FACETS = [
    Facet("reduction", st.sampled_from([2, 3, 3, 3, 4, 5]).flatmap(case), check, 1500, 40000, examples=[
        {"E": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "ops": [[2, 0, 3], [2, 1, 3], [1, 0, 3], [2, 1, -3]], "how": "array"}]),
    Facet("integer_basis", st.integers(2, 4).flatmap(intcase), check, 300, 8000, examples=[
        {"E": [[1, 0], [0, 1]], "ops": [[0, 1, 5]], "how": "int"}]),
    Facet("skewed", thin(), check, 500, 10000),
]
