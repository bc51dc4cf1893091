"""C01 - enumeration of Hermite normal forms is complete, duplicate-free and canonical."""
import itertools
from functools import reduce
from operator import mul

import numpy as np
from hypothesis import strategies as st

from harness.core import Facet, require
from harness.gen import idet

RULE = ("a case is a determinant and a dimension (or a diagonal, or an integer matrix); non-trivial: more than one "
        "form exists / the matrix has |det| > 1")
MODS = st.sampled_from(["hnf", "sublattice", "alias"])


def canonical(H):
    n = len(H)
    for i in range(n):
        if H[i][i] <= 0 or any(H[i][j] != 0 for j in range(i + 1, n)):
            return False
        if any(not (-H[i][i] < H[i][j] <= 0) for j in range(i)):
            return False
    return True


def forms_diag(diag):
    n = len(diag)
    rows = []
    for i, d in enumerate(diag):
        rows.append([list(r) + [d] + [0] * (n - 1 - i) for r in itertools.product(range(-d + 1, 1), repeat=i)])
    return set(tuple(itertools.chain(*m)) for m in itertools.product(*rows))


def diags(n, N):
    if N == 1:
        yield (n,)
        return
    for d in range(1, n + 1):
        if n % d == 0:
            for r in diags(n // d, N - 1):
                yield (d,) + r


def forms_det(n, N):
    out = set()
    for d in diags(n, N):
        out |= forms_diag(d)
    return out


def as_list(A, N):
    A = np.asarray(A)
    require(A.ndim == 3 and A.shape[1:] == (N, N), "shape %s", A.shape)
    require(np.array_equal(A, np.rint(A.astype(float)).astype(object)), "entries are not integers")
    return [tuple(int(x) for x in m.ravel()) for m in A]


def compare(got, want, what):
    require(len(set(got)) == len(got), "%s: %d forms listed twice", what, len(got) - len(set(got)))
    extra, miss = set(got) - want, want - set(got)
    require(not extra, "%s: not a canonical form of this determinant: %s", what, sorted(extra)[:2])
    require(not miss, "%s: missing %d of %d forms, e.g. %s", what, len(miss), len(want), sorted(miss)[:2])


LIMIT = {1: 10000, 2: 300, 3: 40, 4: 9, 5: 4}


def check_det(ctx, c):
    A = ctx.ok("hnf_det", c)
    want = forms_det(c["n"], c["N"])
    compare(as_list(A, c["N"]), want, "det %d dim %d" % (c["n"], c["N"]))
    return len(want) > 1


det_case = st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5]).flatmap(
    lambda N: st.fixed_dictionaries({"mod": MODS, "N": st.just(N), "n": st.integers(1, LIMIT[N]),
                                     "default": st.booleans()}))


def check_diag(ctx, c):
    A = ctx.ok("hnf_diag", c)
    want = forms_diag(c["diag"])
    compare(as_list(A, len(c["diag"])), want, "diag %s" % c["diag"])
    return len(want) > 1


def cap(d):
    d = list(d)
    while reduce(mul, [x ** i for i, x in enumerate(d)]) > 3000:
        k = d.index(max(d[1:]), 1)
        d[k] = max(1, d[k] // 2)
    return d


diag_case = st.fixed_dictionaries({
    "mod": st.sampled_from(["hnf", "sublattice"]), "how": st.sampled_from(["list", "array", "tuple"]),
    "diag": st.integers(1, 5).flatmap(lambda n: st.lists(st.integers(1, 12), min_size=n, max_size=n).map(cap))})


def check_member(ctx, c):
    """every integer matrix of that determinant belongs to exactly one listed form"""
    M = c["M"]
    n = abs(idet(M))
    if n == 0 or n > LIMIT[len(M)]:
        return None
    A = as_list(ctx.ok("hnf_det", {"mod": c["mod"], "N": len(M), "n": n}), len(M))
    H = ctx.ok("hnfd", {"mod": c["mod"], "M": M, "how": "list"})["H"]
    key = tuple(int(x) for x in np.asarray(H).ravel())
    require(A.count(key) == 1, "the form of %s is listed %d times for determinant %d", M, A.count(key), n)
    return n > 1


member_case = st.integers(2, 4).flatmap(lambda N: st.fixed_dictionaries({
    "mod": MODS, "M": st.lists(st.lists(st.integers(-5 + N, 5 - N), min_size=N, max_size=N), min_size=N, max_size=N)}))


def check_neg(ctx, c):
    ctx.raises("hnf_det", c, ["ValueError"])
    return True


neg_case = st.fixed_dictionaries({"mod": MODS, "N": st.integers(1, 5), "n": st.integers(-200, -1)})

FACETS = [
    Facet("by_determinant", det_case, check_det, 500, 6000,
          examples=[{"mod": m, "N": N, "n": n} for m in ("hnf", "sublattice") for N, k in ((2, 40), (3, 16), (4, 6))
                    for n in range(1, k + 1)]),
    Facet("by_diagonal", diag_case, check_diag, 600, 10000),
    Facet("every_matrix_has_its_form", member_case, check_member, 500, 10000),
    Facet("negative_determinant", neg_case, check_neg, 60, 500),
]
