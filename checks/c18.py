"""C18 - directions and planes under a correspondence."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is an invertible correspondence (integer, half-integer or real, 2D or 3D) and 1-6 directions and planes, integer or real, as a "
        "list, tuple or array, or a single vector; non-trivial: the correspondence is not the identity and several vectors are given")


def check(ctx, c):
    L = np.array(c["L"], float)
    n = len(L)
    if abs(la.det(L)) < 0.05 or la.cond(L) > 1e4:
        return None
    D, P = np.array(c["d"], float), np.array(c["p"], float)
    arg = dict(c)
    if c["single"]:
        arg["d"], arg["p"] = c["d"][0], c["p"][0]
        D, P = D[:1], P[:1]
    r = ctx.ok("orient", arg)
    require(r["intact"], "the correspondence was modified")
    d, p, db, pb = (np.asarray(r[k], float) for k in ("d", "p", "d_back", "p_back"))
    if c["single"]:
        require(d.shape == (n,) and p.shape == (n,), "a single vector became %s / %s", d.tolist(), p.tolist())
    elif len(D) > 1:
        require(d.shape == (len(D), n), "%d directions became %s", len(D), d.tolist())
    if not c["single"] and len(P) > 1:
        require(p.shape == (len(P), n), "%d planes became %s", len(P), p.tolist())
    d, p, db, pb = (x.reshape(-1, n) for x in (d, p, db, pb))
    require(len(d) == len(D) and len(p) == len(P), "a different number of vectors")
    s = 1 + np.abs(L).max() * max(1, np.abs(D).max(), np.abs(P).max()) * la.cond(L)
    for x, y in zip(D, d):
        require(np.allclose(L.dot(y), x, atol=1e-9 * s), "L = %s: direction %s became %s", c["L"], x.tolist(), y.tolist())
    for x, y in zip(P, p):
        require(np.allclose(L.T.dot(x), y, atol=1e-9 * s), "L = %s: plane %s became %s", c["L"], x.tolist(), y.tolist())
    require(np.allclose(P.dot(D.T), p.dot(d.T), atol=1e-8 * s * s), "products of planes and directions changed: L = %s, %s, %s", c["L"], c["d"], c["p"])
    require(np.allclose(db, D, atol=1e-8 * s * s) and np.allclose(pb, P, atol=1e-8 * s * s), "the inverse correspondence does not undo the transformation")
    return bool(np.abs(L - np.eye(n)).max() > 0 and (len(D) > 1 or len(P) > 1))


def case():
    def mk(n):
        ent = st.one_of(st.integers(-5, 5), g.fl(-3, 3, 10))
        vec = st.one_of(st.lists(st.integers(-5, 5), min_size=n, max_size=n), st.lists(g.fl(-3, 3, 10), min_size=n, max_size=n))
        half = g.int_matrix(n, 4).map(lambda M: (np.array(M) / 2).tolist())
        return st.fixed_dictionaries({
            "L": st.one_of(g.wellcond(n), half, g.int_matrix(n, 3), g.ops_strategy(n, 4, 2).map(lambda o: g.unimodular(n, o))),
            "d": st.lists(vec, min_size=1, max_size=6), "p": st.lists(vec, min_size=1, max_size=6),
            "single": st.booleans().map(bool), "how": st.sampled_from(["list", "array", "tuple"])})
    return st.sampled_from([3, 3, 2]).flatmap(mk)


FACETS = [Facet("transform", case(), check, 2000, 60000)]
