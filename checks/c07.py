"""C07 - Miller index conversion."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a Bravais lattice and one index or a list of 1-6 indices (integer, half-integer or real) in some container; "
        "non-trivial: the lattice is centred and the index is not zero")


def check(ctx, c):
    r = ctx.ok("miller", c)
    E, C = r["E"], r["C"]
    n = c["brav"]["dim"]
    idx = np.array(c["idx"], float)
    single = idx.ndim == 1
    rows = idx.reshape(-1, n)
    scale = max(1.0, np.abs(rows).max()) * max(1.0, np.abs(C).max())
    for name in ("prim", "conv", "round1", "round2"):
        a = np.asarray(r[name])
        if single:
            require(a.shape == (n,), "%s of a single index has shape %s", name, a.shape)
        elif len(rows) > 1:
            require(a.shape == rows.shape, "%s of a list has shape %s", name, a.shape)
        require(a.size == rows.size, "%s has shape %s", name, a.shape)
    p = np.asarray(r["prim"], float).reshape(-1, n)
    q = np.asarray(r["conv"], float).reshape(-1, n)
    for k in range(len(rows)):
        require(np.allclose(E.dot(p[k]), C.dot(rows[k]), atol=1e-8 * scale), "conventional %s -> primitive %s is another vector", rows[k].tolist(), p[k].tolist())
        require(np.allclose(C.dot(q[k]), E.dot(rows[k]), atol=1e-8 * scale), "primitive %s -> conventional %s is another vector", rows[k].tolist(), q[k].tolist())
    for name in ("round1", "round2"):
        require(np.allclose(np.asarray(r[name], float).reshape(-1, n), rows, atol=1e-9 * scale), "round trip of %s gives %s", c["idx"], np.asarray(r[name]).tolist())
    return bool(g.centering(c["brav"])) and bool(np.any(rows))


def case():
    def mk(b):
        n = b["dim"]
        ent = st.one_of(st.integers(-9, 9), st.integers(-9, 9), st.integers(-7, 7).map(lambda x: x / 2), g.fl(-3, 3, 100))
        v = st.lists(ent, min_size=n, max_size=n)
        vi = st.lists(st.integers(-9, 9), min_size=n, max_size=n)
        return st.fixed_dictionaries({"brav": st.just(b), "how": st.sampled_from(["list", "array", "tuple", "float"]),
                                      "idx": st.one_of(v, vi, st.lists(v, min_size=1, max_size=6), st.lists(vi, min_size=n, max_size=n))})
    cent = st.one_of(g.bravais3(ids=[2, 3, 7, 9, 10, 11, 13]), g.bravais2(ids=[3]))
    return st.one_of(g.bravais(), cent, cent).flatmap(mk)


def check_err(ctx, c):
    for o in ctx.ok("miller_err", c):
        require("e" in o and "ValueError" in o["mro"], "index %s on a %dD lattice: %s", c["idx"], c["brav"]["dim"], o)
    return True


def err_case():
    def mk(b):
        n = b["dim"]
        bad = st.integers(1, 5).filter(lambda k: k != n).flatmap(lambda k: st.one_of(
            st.lists(st.integers(-4, 4), min_size=k, max_size=k),
            st.lists(st.lists(st.integers(-4, 4), min_size=k, max_size=k), min_size=1, max_size=4)))
        # (rectangular, numpy makes ragged lists into arrays of lists or rejects them, depending on its version)
        deep = st.tuples(st.integers(1, 2), st.integers(1, 2)).flatmap(lambda ab: st.lists(st.lists(
            st.lists(st.integers(-4, 4), min_size=n, max_size=n), min_size=ab[1], max_size=ab[1]), min_size=ab[0], max_size=ab[0]))
        return st.fixed_dictionaries({"brav": st.just(b), "idx": st.one_of(bad, bad, deep)})
    return g.bravais().flatmap(mk)


FACETS = [
    Facet("conversion", case(), check, 2000, 40000),
    Facet("wrong_dimension", err_case(), check_err, 200, 4000),
]
