"""C19 - distances between lattices."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is two bases (2D/3D, random or of Bravais lattices) and integer matrices L; metamorphic cases rotate both lattices and replace L by "
        "symmetry-equivalent ones; batches have 1-300 matrices; non-trivial: some L is nonsingular and no distance is zero, or the "
        "lattices are equal up to rotation")


def model(E1, E2, L):
    K = E1.dot(L).dot(la.inv(E2))
    n = len(K)
    s = la.svd(K, compute_uv=False)
    G2 = E2.T.dot(E2)
    M = L.T.dot(E1.T).dot(E1).dot(L) - G2
    return (float((((K.dot(K.T)) - np.eye(n)) ** 2).sum()), float(((s - 1) ** 2).sum()), float((M ** 2).sum() / (G2 ** 2).sum()))


def close(x, w, K=1.0):
    return np.isreal(x) and abs(x - w) <= 1e-8 * max(1.0, K)


def scale(E1, E2, L):
    return max(1.0, la.norm(E1.dot(L).dot(la.inv(E2))) ** 4, la.norm(E1.dot(L)) ** 4 / la.norm(E2) ** 4)


NAMES = ("cauchy", "strain", "eric")


def compare(ctx, E1, E2, Ls):
    r = ctx.ok("dists", {"E1": E1.tolist(), "E2": E2.tolist(), "Ls": [np.asarray(L).ravel().tolist() for L in Ls]})
    require(r["intact"], "an argument was modified")
    for k, L in enumerate(Ls):
        L = np.asarray(L, float)
        w = model(E1, E2, L)
        sc = scale(E1, E2, L) * max(la.cond(E2), la.cond(E1))
        for name, want in zip(NAMES, w):
            x = r[name][k]
            tol = sc * (1e-8 if name != "strain" else 1e-7)
            if name == "strain" and abs(la.det(L)) < 0.5:
                tol = 1e-6 * sc      # square roots of rounding errors
            require(abs(x - want) <= tol, "%s distance of E1 = %s, E2 = %s, L = %s: %.12g, expected %.12g", name, E1.tolist(), E2.tolist(), L.tolist(), x, want)
        require(abs(r["cauchy_m"][k] - r["cauchy"][k]) <= sc * 1e-10, "the Cauchy distance depends on the shape of the argument")
    return r


def check_values(ctx, c):
    E1, E2 = np.array(c["E1"]), np.array(c["E2"])
    compare(ctx, E1, E2, [np.array(L) for L in c["Ls"]])
    return any(g.idet(L) != 0 for L in c["Ls"])


def ints(n, lim=3):
    return g.int_matrix(n, lim)


values = st.sampled_from([2, 3, 3]).flatmap(lambda n: st.fixed_dictionaries({
    "E1": g.wellcond(n), "E2": g.wellcond(n), "Ls": st.lists(ints(n), min_size=1, max_size=4)}))


def check_zero(ctx, c):
    """E2 = Q E1 L: all distances vanish; a stretch on top: none does"""
    E1 = np.array(c["E1"])
    n = len(E1)
    L = np.array(g.unimodular(n, c["ops"]))
    if c["neg"]:
        L = L.dot(np.diag([c["neg"]] + [1] * (n - 1)))
    Q = g.rot_of(c["rot"]) if n == 3 else g.rodrigues([0, 0, 1], np.radians(c["rot"][1]))[:2, :2]
    S = np.eye(n)
    S[0, 0] = c["stretch"]
    E2 = S.dot(Q).dot(E1).dot(L)
    if la.cond(E2) > 1e3:
        return None
    r = compare(ctx, E1, E2, [L])
    for name, w in zip(NAMES, model(E1, E2, L.astype(float))):
        x = r[name][0]
        if c["stretch"] == 1:
            require(abs(x) < 1e-7, "E1 L is a rotation of E2, but the %s distance is %g (E1 = %s, E2 = %s, L = %s)", name, x, E1.tolist(), E2.tolist(), L.tolist())
        else:
            require(x > 0.5 * w or w < 1e-11, "E1 L is no rotation of E2, but the %s distance is %g", name, x)
    return True


zero = st.sampled_from([2, 3]).flatmap(lambda n: st.fixed_dictionaries({
    "E1": g.wellcond(n), "ops": g.ops_strategy(n, 4, 2), "rot": g.rotation_case(), "stretch": st.sampled_from([1, 1, 1.1, 0.9, 1.01]),
    "neg": st.sampled_from([0, 0, -1, 2])}))


def check_inv(ctx, c):
    """rotations of both lattices, and L -> M1 L M2"""
    E1, E2 = g.prim_base(c["b1"]), g.prim_base(c["b2"])
    n = len(E1)

    def rot(t):
        return g.rot_of(t) if n == 3 else g.rodrigues([0, 0, 1], np.radians(t[1]))[:2, :2]
    Q1, Q2 = rot(c["q1"]), rot(c["q2"])
    L = np.array(c["L"])
    if g.idet(c["L"]) == 0 or max(la.cond(E1), la.cond(E2)) > 50:
        return None
    g1 = [np.rint(la.inv(E1).dot(Q).dot(E1)) for Q in g.automorphisms(E1)]
    g2 = [np.rint(la.inv(E2).dot(Q).dot(E2)) for Q in g.automorphisms(E2)]
    # the Ericksen distance depends on the basis of the second lattice: only M1 there
    Ls = [L] + [g1[i % len(g1)].dot(L).astype(int) for i, j in c["m"]] + [g1[i % len(g1)].dot(L).dot(g2[j % len(g2)]).astype(int) for i, j in c["m"]]
    k = 1 + len(c["m"])
    r0 = compare(ctx, E1, E2, Ls)
    r1 = compare(ctx, Q1.dot(E1), Q2.dot(E2), Ls)
    sc = scale(E1, E2, L) * max(la.cond(E2), la.cond(E1))
    for name in NAMES:
        vals = list(r0[name]) + list(r1[name]) if name != "eric" else list(r0[name])[:k] + list(r1[name])[:k]
        require(max(vals) - min(vals) <= 1e-6 * sc, "the %s distance is not invariant: %s (b1 = %s, b2 = %s, L = %s)", name, vals, c["b1"], c["b2"], c["L"])
        require(min(vals) > -1e-9 * sc, "negative %s distance", name)
    return True


def inv_case(n):
    b = g.bravais3 if n == 3 else g.bravais2
    return st.fixed_dictionaries({"b1": b(), "b2": b(), "L": ints(n, 2), "q1": g.rotation_case(), "q2": g.rotation_case(),
                                  "m": st.lists(st.tuples(st.integers(0, 47), st.integers(0, 47)).map(list), min_size=1, max_size=4)})


def check_vec(ctx, c):
    rng = np.random.RandomState(c["seed"])
    E1, E2 = np.array(c["E1"]), np.array(c["E2"])
    n = len(E1)
    xs = rng.randint(-c["lim"], c["lim"] + 1, (c["n"], n * n))
    r = ctx.ok("dists", {"E1": c["E1"], "E2": c["E2"], "Ls": xs.tolist(), "vec": True})
    require(r["intact"], "an argument was modified")
    v, s = np.asarray(r["vec"]), np.asarray(r["scalar"])
    require(v.shape == (c["n"],), "%d matrices gave distances of shape %s", c["n"], v.shape)
    w = np.array([model(E1, E2, x.reshape(n, n).astype(float))[0] for x in xs])
    tol = 1e-9 * max(1.0, w.max()) * la.cond(E2)
    require(np.abs(v - w).max() <= tol, "vectorized Cauchy distance of batch of %d (E1 = %s, E2 = %s, L = %s): %.10g, expected %.10g", c["n"], c["E1"], c["E2"],
            xs[np.abs(v - w).argmax()].tolist(), v[np.abs(v - w).argmax()], w[np.abs(v - w).argmax()])
    require(np.abs(v - s).max() <= tol, "vectorized and scalar Cauchy distance differ")
    return True


vec = st.sampled_from([2, 3]).flatmap(lambda n: st.fixed_dictionaries({
    "E1": g.wellcond(n), "E2": g.wellcond(n), "seed": st.integers(0, 10 ** 6), "lim": st.integers(1, 6),
    "n": st.one_of(st.integers(1, 300), st.sampled_from([1, 99, 100, 101]))}))

FACETS = [
    Facet("values", values, check_values, 1000, 30000),
    Facet("zero", zero, check_zero, 600, 15000),
    Facet("invariance", st.one_of(inv_case(3), inv_case(2)), check_inv, 400, 10000),
    Facet("vectorized", vec, check_vec, 200, 5000, examples=[
        {"E1": [[1.0, 0.2], [0.0, 1.5]], "E2": [[1.0, 0.0], [0.3, 1.0]], "seed": 1, "lim": 3, "n": k} for k in (1, 2, 99, 100, 101, 250)]),
]
