"""C13 - batched matrix arithmetic."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is two lists of 1-50 d x d matrices (d = 1-6), integer or real; or rows for the distinct-rows function; or n for the "
        "divisors; non-trivial: d > 1 and no zero matrix / repeated rows / composite n")


def check(ctx, c):
    d = c["d"]
    r = ctx.ok("matmath", c)
    a = np.array(c["a"], float).reshape(-1, d, d)
    b = np.array(c["b"], float).reshape(-1, d, d)
    require(r["intact"], "an argument was modified")
    sc = max(1.0, np.abs(a).max(), np.abs(b).max())
    flat = lambda x: x.reshape(len(a), -1)
    require(r["dot"].shape == (len(a), d * d) and np.allclose(r["dot"], flat(np.einsum("nij,njk->nik", a, b)), atol=1e-9 * sc ** 2), "batched product of %s and %s: %s", c["a"], c["b"], r["dot"].tolist())
    require(np.allclose(r["T"], flat(a.transpose(0, 2, 1)), atol=0), "batched transpose")
    require(np.asarray(r["tr"]).shape == (len(a),) and np.allclose(r["tr"], np.einsum("nii->n", a), atol=1e-9 * sc), "batched trace of %s: %s", c["a"], np.asarray(r["tr"]).tolist())
    require(np.asarray(r["det"]).shape == (len(a),) and np.allclose(r["det"], [la.det(x) for x in a], atol=1e-9 * (4 * sc) ** d), "batched determinant of %s: %s", c["a"], np.asarray(r["det"]).tolist())
    s = a + a.transpose(0, 2, 1)
    e = np.sort(np.asarray(r["eig"]), axis=1)
    require(np.allclose(e, [la.eigvalsh(x) for x in s], atol=1e-6 * sc), "batched eigenvalues")
    for x, cof in zip(a, r.get("cof", [])):
        require(np.allclose(x.dot(np.asarray(cof).T), la.det(x) * np.eye(d), atol=1e-9 * (4 * sc) ** d), "cofactor matrix of %s: %s", x.tolist(), cof.tolist())
    for key in ("es1", "es2"):
        for x, (ev, vec) in zip(s, r.get(key, [])):
            ev, vec = np.asarray(ev), np.asarray(vec)
            require(np.all(np.diff(ev) >= -1e-9 * sc) and np.allclose(np.sort(ev), la.eigvalsh(x), atol=1e-6 * sc), "sorted eigenvalues of %s: %s", x.tolist(), ev.tolist())
            for l, v in zip(ev, vec):
                require(abs(la.norm(v) - 1) < 1e-6 and np.allclose(x.dot(v), l * v, atol=1e-5 * sc), "%s is no eigenvector of %s for %s", v.tolist(), x.tolist(), l)
    return d > 1 and bool(np.all(np.abs(a).sum(axis=(1, 2)) > 0))


def case():
    def mk(t):
        d, n, integer, bint = t
        m, mb = (st.lists(st.integers(-9, 9) if i else g.fl(-5, 5, 100), min_size=d * d, max_size=d * d) for i in (integer, bint))
        return st.fixed_dictionaries({"d": st.just(d), "int": st.just(integer), "bint": st.just(bint), "a": st.lists(m, min_size=n, max_size=n), "b": st.lists(mb, min_size=n, max_size=n)})
    return st.tuples(st.sampled_from([1, 2, 3, 3, 4]), st.sampled_from([1, 2, 3, 7]), st.booleans(), st.booleans()).flatmap(mk)


def check_big(ctx, c):
    rng = np.random.RandomState(c["seed"])
    d = c["d"]
    a = rng.randint(-9, 10, (c["n"], d * d))
    b = rng.randint(-9, 10, (c["n"], d * d))
    return check(ctx, {"d": d, "int": c["int"], "a": a.tolist(), "b": b.tolist()})


big = st.fixed_dictionaries({"seed": st.integers(0, 10 ** 6), "d": st.sampled_from([1, 2, 3, 4, 5, 6]), "n": st.integers(4, 50), "int": st.booleans()})


def check_uniq(ctx, c):
    r = ctx.ok("uniq", c)
    rows, idx = np.asarray(r["rows"]), np.asarray(r["idx"])
    want = set(tuple(x) for x in c["rows"])
    got = [tuple(x) for x in rows.tolist()]
    require(len(got) == len(set(got)) and set(got) == want, "distinct rows of %s: %s", c["rows"], got)
    require([tuple(c["rows"][int(i)]) for i in idx] == got, "the indices %s do not give the rows", idx.tolist())
    return len(want) < len(c["rows"])


uniq = st.tuples(st.integers(1, 4), st.sampled_from([st.integers(-1, 1), st.sampled_from([0.0, -0.0, 0.5, -1.0])])).flatmap(lambda t: st.fixed_dictionaries({
    "rows": st.lists(st.lists(t[1], min_size=t[0], max_size=t[0]), min_size=1, max_size=20)}))


def check_div(ctx, c):
    n = c["n"]
    got = ctx.ok("divisors", c)
    require(got == [k for k in range(1, n + 1) if n % k == 0], "divisors of %d: %s", n, got[:20])
    return len(got) > 2


FACETS = [
    Facet("batched", case(), check, 800, 16000),
    Facet("large_batches", big, check_big, 100, 3000),
    Facet("distinct_rows", uniq, check_uniq, 300, 6000),
    Facet("divisors", st.one_of(st.integers(1, 5000), st.integers(1, 70).map(lambda x: x * x)).map(lambda n: {"n": n}), check_div, 500, 5000,
          examples=[{"n": n} for n in range(1, 130)]),
]
