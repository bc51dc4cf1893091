"""C28 - the bound of the direct search: minimum of the quartic form."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st
from scipy.optimize import minimize

from checks.c21 import prepare
from harness import gen as g
from harness.core import Facet, require

RULE = ("a case is a pair of lattices, an ordering of the indices of the fourth-order tensor and the states of the random number generator; "
        "the oracle is the smallest of many descents with exact gradients; non-trivial: the minimum is below 0.9 times the value at the direction of the "
        "identity and the singular values of the two bases differ")


def oracle(E1, E2, starts):
    n = len(E1)
    F = la.inv(E2)

    def f(x):
        L = x.reshape(n, n)
        K = E1.dot(L).dot(F)
        C = K.dot(K.T)
        r = (x * x).sum()
        v = (C * C).sum() / r ** 2
        return v, ((4 * E1.T.dot(C).dot(K).dot(F.T)).ravel() - 4 * v * r * x) / r ** 2
    best = None
    rng = np.random.RandomState(5)
    # the best directions of the isotropic problem, and random ones
    X0 = [la.inv(E1).dot(E2).ravel()] + [rng.randn(n * n) for _ in range(starts)]
    for x in X0:
        r = minimize(f, x / la.norm(x), jac=True, method="L-BFGS-B", options={"maxiter": 500, "ftol": 1e-14, "gtol": 1e-10})
        best = r.fun if best is None else min(best, r.fun)
    return best, f(np.eye(n).ravel())[0]


def check(ctx, c):
    c = prepare(c)
    E1, E2 = g.prim_base(c["A"]), g.prim_base(c["M"])
    n = len(E1)
    if max(la.cond(E1), la.cond(E2)) > 6:
        return None
    E1 = E1.dot(np.array(g.unimodular(n, c["ops"][0])))
    E2 = E2.dot(np.array(g.unimodular(n, c["ops"][1])))
    if max(la.cond(E1), la.cond(E2)) > 6:
        return None
    a = {"E1": E1.tolist(), "E2": E2.tolist(), "axes": c["axes"], "sym": c["sym"], "seeds": c["seeds"]}
    r = ctx.ok("quart", a, cpu=150)
    w, one = oracle(E1, E2, 20 if n == 2 else 40)
    require(r["intact"], "quart_min modified its argument")
    for s, q in zip(c["seeds"], r["q"]):
        require(q <= 1.02 * w, "quart_min = %.8g with seed %d, but the form takes the value %.8g at a unit vector: E1 = %s, E2 = %s", q, s, w, a["E1"], a["E2"])
        require(q >= 0.98 * w, "quart_min = %.8g with seed %d, but the minimum over unit vectors is %.8g: E1 = %s, E2 = %s", q, s, w, a["E1"], a["E2"])
    return w < 0.9 * one


def case(dim, nseeds):
    b = (g.bravais2 if dim == 2 else g.bravais3)(lo=0.8, hi=2.0, k=50)
    return st.fixed_dictionaries({
        "A": b, "M": b, "ratio": st.sampled_from([0.6, 0.9, 0.97, 1.0, 1.04, 1.1, 1.5, 2.0]), "ops": st.tuples(g.ops_strategy(dim, 1, 1), g.ops_strategy(dim, 1, 1)).map(list),
        "axes": st.permutations([0, 1, 2, 3]), "sym": st.booleans(), "seeds": st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=nseeds)})


FACETS = [
    Facet("plane", case(2, 3), check, 200, 6000, shards=8, shrink_s=60),
    Facet("space", case(3, 1), check, 40, 1200, shards=8, shrink_s=1),
]
