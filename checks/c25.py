"""C25 - invalid input is rejected."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c14 import CUB, sym_matrix
from harness.core import Facet, HarnessError, require
from harness import gen as g

RULE = ("a case is a valid set of arguments of a constructor, setter or function with at most one mutation (shape, count, sign, range, type, symmetry, singularity, "
        "an impossible angle); it must be accepted without and rejected with the documented exception with the mutation; non-trivial: mutated")
NAN = float("nan")


def check(ctx, c):
    r = ctx.ok("construct", c)
    if "e" in r and "adapter bug" in r.get("msg", ""):
        raise HarnessError(r["msg"])
    want = c["want"]
    if want is None:
        require("ok" in r, "valid input is rejected with %s (%s): %s %s", r.get("e"), r.get("msg"), c["kind"], c["args"])
        return False
    require("e" in r, "invalid input (%s) is accepted: %s %s", c["mut"], c["kind"], c["args"])
    require(want in r["mro"], "invalid input (%s) gives %s, not %s: %s %s", c["mut"], r["e"], want, c["kind"], c["args"])
    return True


# ---- lattices
def lattice():
    def mk(t):
        n, E, mut, how, i, j = t
        i, j = i % n, j % n
        want = "ValueError"
        how2 = how
        if mut == "none":
            want = None
        elif mut == "ragged" and n > 1:
            E = [list(r) for r in E]
            E[i] = E[i][:-1]
            how2 = "list"
        elif mut == "wide":
            E = [r + [1.0] for r in E]
        elif mut == "short" and n > 1:
            E = E[:-1]
        elif mut == "flat":
            E = E[0]
        elif mut == "deep":
            E = [E]
        elif mut == "scalar":
            E, how2 = 3.0, "list"
        elif mut == "text":
            E, how2 = [["a" for _ in r] for r in E], "list"
        elif mut == "none_entry":
            E = [list(r) for r in E]
            E[i][j] = None
            how2 = "list"
        elif mut == "word":
            E, how2 = "base", "list"
        elif mut == "None":
            E, how2 = None, "list"
        elif mut == "empty":
            E, how2 = [], "list"
        elif mut == "nan":
            E = [list(r) for r in E]
            E[i][j] = NAN
        elif mut == "zero_row":
            E = [list(r) for r in E]
            E[i] = [0.0] * n
        elif mut == "zero_col":
            E = [[0.0 if k == j else x for k, x in enumerate(r)] for r in E]
        else:
            mut, want = "none", None
        return {"kind": "lattice", "args": [E], "how": how2, "mut": mut, "want": want}
    muts = ["none", "ragged", "wide", "short", "flat", "deep", "scalar", "text", "none_entry", "word", "None", "empty", "nan", "zero_row", "zero_col"]
    return st.integers(1, 5).flatmap(lambda n: st.tuples(st.just(n), g.wellcond(n), st.sampled_from(muts), st.sampled_from(["list", "array", "tuple", "fortran"]),
                                                         st.integers(0, 4), st.integers(0, 4))).map(mk)


# ---- Bravais lattices
def bravais():
    def mk(t):
        b, mut, how, x, k = t
        i, p, dim = b["id"], list(b["par"]), b["dim"]
        want = "ValueError"
        k = k % len(p)
        top = 14 if dim == 3 else 5
        if mut == "none":
            want = None
        elif mut == "id":
            i = x if not 1 <= x <= top else top + 1
        elif mut == "idtype":
            i = [None, 1.5, "1", i + 0.5][x % 4]
        elif mut == "more":
            p = p + [1.3]
            if len(p) > 6:
                p = p[:-3]
        elif mut == "less":
            p = p[:-1]
        elif mut == "negative":
            p[k] = -p[k]
        elif mut == "zero":
            p[k] = 0.0
        elif mut == "nested":
            p = [p]
        elif mut == "word":
            p = "abc"
        elif mut == "None":
            p = None
        elif mut == "nan":
            p[k] = NAN
        elif mut == "dim":
            dim = [0, 1, 4, 5, -3, None][x % 5]
        elif mut == "angles":
            if dim == 3 and i == 5:
                p[1] = 120.5 + abs(x)
            elif dim == 3 and i == 14:
                p[3:] = [[150.0, 40.0, 60.0], [170.0, 170.0, 170.0], [30.0, 80.0, 120.0], [100.0, 130.0, 135.0]][x % 4]
            else:
                mut, want = "none", None
        if mut == "dim" and dim is None:
            mut, want = "none", None
        return {"kind": "bravais", "args": [i, p, dim if (dim != 3 or how == "array") else None], "how": how, "mut": mut, "want": want}
    muts = ["none", "id", "idtype", "more", "less", "negative", "zero", "nested", "word", "None", "nan", "dim", "angles", "angles"]
    return st.tuples(g.bravais(), st.sampled_from(muts), st.sampled_from(["list", "array"]), st.sampled_from([-1, 0, 6, 15, 16, -14, 14, 99, 7, 3]), st.integers(0, 5)).map(mk)


# ---- rotations
def euler():
    def mk(t):
        a, o, mut, x = t
        want = "ValueError"
        if mut == "none":
            want = None
        elif mut == "angles":
            a = (a + [10.0, 20.0])[:[0, 1, 2, 4, 5][x % 5]]
        elif mut == "order":
            o = (o + "XY")[:[0, 1, 2, 4, 5][x % 5]]
        elif mut == "both":
            a, o = a[:2], o[:2]
        elif mut == "axis":
            o = o[:x % 3] + "WABwabcd 10_-"[x % 13] + o[x % 3 + 1:]
        return {"kind": "euler", "args": [a, o], "mut": mut, "want": want}
    return st.tuples(st.lists(g.fl(-180, 180, 1), min_size=3, max_size=3), st.lists(st.sampled_from("XYZxyz"), min_size=3, max_size=3).map("".join),
                     st.sampled_from(["none", "angles", "order", "both", "axis", "axis"]), st.integers(0, 200)).map(mk)


# ---- stretches
def definite(M):
    return la.eigvalsh(np.array(M))[0] > 1e-2


def spoil(U, mut, x, i, j):
    """-> (U, is it still valid)"""
    i, j = i % 3, j % 3
    U = [list(r) for r in U]
    if mut == "skew":
        U[i][(i + 1) % 3] += [0.01, -0.02, 0.5, 0.001][x % 4]
    elif mut == "negative":
        U = (-np.array(U)).tolist()
    elif mut == "indefinite":
        e, v = la.eigh(np.array(U))
        e[i] = -e[i]
        U = ((v * e).dot(v.T))
        U = ((U + U.T) / 2).tolist()
    elif mut == "small":
        U = [r[:2] for r in U[:2]]
    elif mut == "wide":
        U = [r + [0.0] for r in U]
    elif mut == "short":
        U = U[:2]
    elif mut == "flat":
        U = U[0]
    else:
        return U, True
    return U, False


SPOIL = ["none", "skew", "skew", "negative", "indefinite", "small", "wide", "short", "flat"]


def pair():
    def mk(t):
        U, V, mut, x, i, j, second = t
        W, ok = spoil(V if second else U, mut, x, i, j)
        a = [U, W] if second else [W, V]
        return {"kind": "pair", "args": a, "how": "array", "mut": mut, "want": None if ok else "ValueError"}
    ok = sym_matrix().filter(definite)
    return st.tuples(ok, ok, st.sampled_from(SPOIL), st.integers(0, 9), st.integers(0, 2), st.integers(0, 2), st.booleans()).map(mk)


def rank1():
    def mk(t):
        lo, hi, rot, mut, x, i, j = t
        R = g.rot_of(rot)
        C = (R * np.array([lo, 1.0, hi])).dot(R.T)
        C, ok = spoil(((C + C.T) / 2).tolist(), mut, x, i, j)
        return {"kind": "rank1", "args": [C], "mut": mut, "want": None if ok else "TypeError"}
    return st.tuples(g.fl(0.5, 0.9, 20), g.fl(1.1, 2, 20), g.rotation_case(), st.sampled_from(SPOIL), st.integers(0, 9), st.integers(0, 2), st.integers(0, 2)).map(mk)


def twin_type():
    def mk(t):
        kind, ty = t
        ok = ty in ("I", "II", "C")
        # a pair that has habit planes of all kinds
        U = [[1.04245, 0, 0.01945], [0, 0.9178, 0], [0.01945, 0, 1.04245]]
        Q = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1]])
        V = Q.dot(U).dot(Q.T).tolist()
        return {"kind": kind, "args": [U, V, ty], "mut": "none" if ok else "type", "want": None if ok else "ValueError"}
    return st.tuples(st.sampled_from(["iscompatible", "iscompatible", "habitplanes"]), st.sampled_from(["I", "II", "C", "III", "i", "c", "", "IC", "X", None, 1])).map(mk)


def setters():
    def mkU(t):
        U, mut, x, i, j, how = t
        U, ok = spoil(U, mut, x, i, j)
        return {"kind": "setU", "args": [U], "how": how, "mut": mut, "want": None if ok else "TypeError"}
    u = st.tuples(sym_matrix().filter(definite), st.sampled_from(SPOIL), st.integers(0, 9), st.integers(0, 2), st.integers(0, 2), st.sampled_from(["list", "array"])).map(mkU)
    nums = st.tuples(st.lists(g.fl(0.8, 1.2, 100), min_size=0, max_size=7), st.booleans()).map(
        lambda t: {"kind": "setU", "args": [0.01 if (len(t[0]) in (3, 4) and k == 1) else (-x if t[1] and k == 0 else x) for k, x in enumerate(t[0])], "how": "list",
                   "mut": "none" if 1 <= len(t[0]) <= 4 and not t[1] else "count or sign", "want": None if 1 <= len(t[0]) <= 4 and not t[1] else "TypeError"})
    words = st.sampled_from([["a"], ["a", "b"], [None], [[["a", "b", "c"]] * 3]]).map(lambda a: {"kind": "setU", "args": a, "how": "list", "mut": "type", "want": "TypeError"})
    laue = st.one_of(st.integers(1, 14), st.sampled_from([0, -1, 15, 100, 1.0, 3.5, "1", None, "cubic", [1], [[[1, 0, 0], [0, 1, 0], [0, 0, 1]]]])).map(
        lambda x: {"kind": "setLaue", "args": [x], "mut": "none" if type(x) is int and 1 <= x <= 14 else "range or type",
                   "want": None if type(x) is int and 1 <= x <= 14 else "ValueError"})
    return st.one_of(u, u, nums, words, laue)


def correspondences():
    def mk(t):
        a, mut, which = t
        A, M = (1, [1.0]), (4, [1.07])
        kw = {"dim": 2}
        want = "ValueError"
        if mut == "none":
            want = None
        elif mut == "id":
            A = ([0, 6, -2][a % 3], [1.0])
        elif mut == "idM":
            M = ([0, 6, 14][a % 3], [1.0])
        elif mut == "count":
            M = (4, [1.0, 1.1])
        elif mut == "sign":
            A = (1, [-1.0])
        elif mut == "dim":
            kw = {"dim": [1, 4][a % 2]}
        if which == "hnf":
            kw["maxiter"], kw["miniter"] = 1, 1
        return {"kind": "latcor", "which": which, "args": list(A) + list(M), "kw": kw, "mut": mut, "want": want}
    return st.tuples(st.integers(0, 5), st.sampled_from(["none", "id", "idM", "count", "sign", "dim"]), st.sampled_from(["hnf", "direct"])).map(mk)


FACETS = [
    Facet("lattice", lattice(), check, 1000, 20000),
    Facet("bravais", bravais(), check, 1500, 30000),
    Facet("euler", euler(), check, 500, 8000, shards=4),
    Facet("pair", pair(), check, 600, 12000, shards=4),
    Facet("rank1", rank1(), check, 300, 8000, shards=4),
    Facet("twin_type", twin_type(), check, 100, 500, shards=2),
    Facet("setters", setters(), check, 600, 12000, shards=4),
    Facet("correspondences", correspondences(), check, 60, 300, shards=4),
]
