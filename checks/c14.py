"""C14 - martensite variants."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a history of operations on a family of martensite objects: set the stretch (1-4 numbers, matrix in several "
        "containers, invalid ones), set the Laue group (type number, group, out of range), and queries in any order; a model keeps "
        "(U, G) per object; non-trivial: some queried object has more than one variant or is irreversible")

CUB = [np.array(M, float) for M in g.CUBIC_ROT]
GENERIC = {1: [2.0], 2: [2.0], 3: [2.0], 4: [2.0, 3.3], 5: [2.0, 77.0], 6: [1.3, 2.1], 7: [1.3, 2.1], 8: [1.3, 1.7, 2.1], 9: [1.3, 1.7, 2.1],
           10: [1.3, 1.7, 2.1], 11: [1.3, 1.7, 2.1], 12: [1.3, 1.7, 2.3, 83.0], 13: [1.3, 1.7, 2.3, 83.0], 14: [1.3, 1.7, 2.3, 83.0, 79.0, 95.0]}
_laue = {}


def laue_of(i):
    if i not in _laue:
        E = g.prim_base({"dim": 3, "id": i, "par": GENERIC[i]})
        _laue[i] = [Q for Q in g.automorphisms(E) if la.det(Q) > 0]
    return _laue[i]


def group_of(spec):
    """the elements, as a list or (for type numbers) a set in unknown order"""
    if isinstance(spec, int):
        return laue_of(spec)
    if "name" in spec:
        return CUB if spec["name"] == "CUBIC_LAUE_GROUP" else g.HEX_ROT
    return [np.array(m, float) for m in spec["mats"]]


def subgroup_spec(draw_idx, order):
    els = g.closure([CUB[i] for i in draw_idx], 3)
    # deterministic shuffle, the identity need not be first
    k = order % len(els)
    els = els[k:] + els[:k]
    return {"mats": [np.rint(e).astype(int).tolist() for e in els]}


def laue_spec():
    return st.one_of(
        st.integers(1, 14),
        st.just({"name": "CUBIC_LAUE_GROUP"}),
        st.just({"name": "HEX_LAUE_GROUP"}),
        st.tuples(st.lists(st.integers(0, 23), max_size=3), st.integers(0, 23), st.sampled_from(["list", "array"])).map(
            lambda t: dict(subgroup_spec(t[0], t[1]), how=t[2])))


def model_U(args):
    """-> matrix or None if it must be a TypeError, 'skip' if too close to call"""
    a = args
    if isinstance(a[0], list):
        M = a[0]
        if len(M) != 3 or any(not isinstance(r, list) or len(r) != 3 for r in M):
            return None
        U = np.array(M, float)
    elif len(a) == 1:
        U = np.diag([a[0]] * 3).astype(float)
    elif len(a) == 2:
        U = np.diag([a[0], a[0], a[1]]).astype(float)
    elif len(a) == 3:
        U = np.array([[a[0], a[1], 0], [a[1], a[0], 0], [0, 0, a[2]]], float)
    elif len(a) == 4:
        U = np.array([[a[0], a[1], 0], [a[1], a[2], 0], [0, 0, a[3]]], float)
    else:
        return None
    asym = np.abs(U - U.T).max()
    if asym > 0:
        return None if asym > 1e-4 else "skip"
    e = la.eigvalsh(U)[0]
    if e < -1e-6:
        return None
    if e < 1e-3:
        return "skip"
    return U


def stab(U, G, tol=1e-9):
    return [Q for Q in G if np.abs(Q.dot(U).dot(Q.T) - U).max() < tol]


def clear(U):
    """is every yes/no question about U far from the tolerances?"""
    Ui = la.inv(U)
    if la.cond(U) > 30:
        return False
    for Q in CUB + g.HEX_ROT:
        d = np.abs(Q.dot(U).dot(Q.T) - U).max()
        if 1e-9 < d < 1e-3:
            return False
        M = Ui.dot(Q).dot(U)
        x = np.abs(M - np.rint(M)).max()
        cub = np.abs(Q - np.rint(Q)).max() < 1e-6
        if d <= 1e-9 and not cub:
            return False            # symmetric under a hexagonal rotation the lattice of U does not have
        if d > 1e-9 and x < 1e-3 * max(1, np.abs(M).max()):
            return False            # an accidental symmetry of the lattice of U
    return True


def check(ctx, c):
    # the model
    objs = [(None, {"name": "CUBIC_LAUE_GROUP"})]
    ops, want = [], []
    for op in c["ops"]:
        k = op[1] % len(objs)
        U, G = objs[k]
        if op[0] == "setU":
            V = model_U(op[3])
            if isinstance(V, str):
                continue
            if V is None:
                want.append(("TypeError",))
            else:
                objs.append((V, G))
                want.append(("ok",))
        elif op[0] == "setLaue":
            if isinstance(op[2], int) and not 1 <= op[2] <= 14:
                want.append(("ValueError",))
            else:
                objs.append((U, op[2]))
                want.append(("ok",))
        elif op[0] == "new":
            V = model_U([op[2]])
            if V is None or isinstance(V, str):
                continue
            objs.append((V, op[3] or {"name": "CUBIC_LAUE_GROUP"}))
            want.append(("ok",))
        else:
            if op[2] != "Laue" and U is not None and not clear(U):
                continue
            want.append(("query", op[2], U, G))
        ops.append([op[0], k] + op[2:])
    if not ops:
        return None
    # every list of variants needs the elements in the order of the group
    got = ctx.ok("mart_history", {"ops": ops})
    nontriv = False
    for op, w, r in zip(ops, want, got):
        if w[0] in ("TypeError", "ValueError"):
            require("e" in r and w[0] in r["mro"], "%s must be a %s: %s", op, w[0], r)
            continue
        if w[0] == "ok":
            require(r.get("v") is True, "%s: %s", op, r)
            continue
        _, what, U, G = w
        mats = group_of(G)
        if what == "Laue":
            require("v" in r and g.same_set(list(r["v"]), mats), "Laue group of %s: %s", G, r.get("e", "differs"))
            if not isinstance(G, int) and "mats" in G:
                require(all(g.same(np.asarray(a, float), np.asarray(b, float)) for a, b in zip(r["v"], mats)), "Laue group %s: order of elements", G)
            continue
        if U is None:
            require("e" in r and "AttributeError" in r["mro"], "%s without U: %s", what, r)
            continue
        S = stab(U, CUB)
        rev = all(g.member(Q, mats) for Q in S)
        if what == "rev":
            require(r.get("v") is rev, "isreversible() of U = %s, G = %s: %s, expected %s", U.tolist(), G, r, rev)
            nontriv = nontriv or not rev
            continue
        if what == "U":
            require("v" in r and np.allclose(r["v"], U, atol=1e-12), "getU(): %s, U = %s", r, U.tolist())
            continue
        if not rev:
            require("e" in r and "AttributeError" in r["mro"], "%s of an irreversible transformation (U = %s, G = %s): %s", what, U.tolist(), G, r)
            nontriv = True
            continue
        require("v" in r, "%s of U = %s, G = %s: %s", what, U.tolist(), G, r)
        orbit = []
        for Q in mats:
            V = Q.dot(U).dot(Q.T)
            if not g.member(V, orbit, 1e-6):
                orbit.append(V)
        nontriv = nontriv or len(orbit) > 1
        if what in ("variants", "each"):
            V = [np.asarray(v) for v in r["v"]]
            require(len(V) == len(orbit) and g.same_set(V, orbit, 1e-7), "variants of U = %s, G = %s: %d, expected %d", U.tolist(), G, len(V), len(orbit))
            require(np.allclose(V[0], U, atol=1e-9), "the first variant is not U")
        elif what == "idx":
            idx = r["v"]
            flat = sorted(i for x in idx for i in x)
            require(len(idx) == len(orbit) and flat == list(range(len(mats))), "index lists %s do not partition %d elements into %d variants", idx, len(mats), len(orbit))
            if not isinstance(G, int) and "mats" in G:
                images = []
                for x in idx:
                    V = [mats[i].dot(U).dot(mats[i].T) for i in x]
                    require(all(g.same(v, V[0], 1e-6) for v in V), "the elements %s map U = %s to different variants", x, U.tolist())
                    images.append(V[0])
                require(g.same(images[0], U, 1e-6), "the elements %s do not fix U", idx[0])
                require(g.distinct(images), "two index lists for one variant")
            else:
                require(len(idx[0]) == len(stab(U, mats)), "%d elements fix U, expected %d", len(idx[0]), len(stab(U, mats)))
    return nontriv


def check_order(ctx, c):
    """the index lists and the list of variants belong together"""
    q = [["setLaue", 0, c["G"]], ["setU", 1, "list", [c["U"]]], ["q", 2, "Laue"], ["q", 2, "variants"], ["q", 2, "idx"], ["q", 2, "each"], ["q", 2, "rev"]]
    U = np.array(c["U"])
    if isinstance(model_U([c["U"]]), str) or model_U([c["U"]]) is None or not clear(U):
        return None
    r = ctx.ok("mart_history", {"ops": q})
    mats = [np.asarray(m, float) for m in r[2]["v"]]
    require(g.same_set(mats, group_of(c["G"])), "Laue group %s", c["G"])
    rev = all(g.member(Q, mats) for Q in stab(U, CUB))
    require(r[6].get("v") is rev, "isreversible() of U = %s, G = %s: %s, expected %s", c["U"], c["G"], r[6], rev)
    if not rev:
        for k in (3, 4, 5):
            require("AttributeError" in r[k].get("mro", ()), "irreversible, but %s", r[k])
        return True
    V, idx, each = r[3]["v"], r[4]["v"], r[5]["v"]
    require(len(V) == len(idx) == len(each), "%d variants, %d index lists", len(V), len(idx))
    require(sorted(i for x in idx for i in x) == list(range(len(mats))), "index lists %s", idx)
    for v, x, e in zip(V, idx, each):
        require(np.allclose(v, e, atol=1e-12), "getvariant() differs from getvariants()")
        require(len(x) > 0, "empty index list")
        for i in x:
            require(np.allclose(mats[i].dot(U).dot(mats[i].T), v, atol=1e-7), "element %d does not map U = %s to its variant", i, c["U"])
    require(g.distinct(list(V)), "a variant is listed twice")
    require(np.allclose(V[0], U, atol=1e-9), "the first variant is not U")
    return len(V) > 1


num = g.fl(0.6, 1.5, 100)
off = st.one_of(st.just(0.0), g.fl(-0.12, 0.12, 100))


def sym_matrix():
    def mk(t):
        a, b, c, d, e, f, ax = t
        U = np.array([[a, d, e], [d, b, f], [e, f, c]])
        if ax is not None:      # made symmetric under some cubic rotation
            P = CUB[ax]
            R = [np.eye(3)]
            while not g.same(R[-1].dot(P), np.eye(3)):
                R.append(R[-1].dot(P))
            U = sum(Q.dot(U).dot(Q.T) for Q in R) / len(R)
            U = ((U + U.T) / 2).round(6)
            U = (U + U.T) / 2
        return U.tolist()
    return st.tuples(num, num, num, off, off, off, st.one_of(st.none(), st.integers(0, 23))).map(mk)


def setU_args():
    mats = sym_matrix()
    bad = st.one_of(
        st.tuples(sym_matrix(), st.sampled_from([(0, 1), (1, 2), (2, 0)]), st.sampled_from([0.01, -0.3, 0.001])).map(_perturb),
        sym_matrix().map(lambda M: [(np.array(M) - 2 * np.eye(3)).tolist()]),
        sym_matrix().map(lambda M: [(np.array(M) * np.array([1, 1, -1])).tolist()]),
        sym_matrix().map(lambda M: [M[:2]]), sym_matrix().map(lambda M: [[r[:2] for r in M]]), sym_matrix().map(lambda M: [M[0]]),
        st.lists(num, min_size=5, max_size=7), st.lists(num, min_size=1, max_size=4).map(lambda l: [-x for x in l]))
    return st.one_of(mats.map(lambda M: [M]), mats.map(lambda M: [M]), st.lists(num, min_size=1, max_size=2),
                     st.tuples(num, off, num).map(list), st.tuples(num, off, num, num).map(list), bad)


def _perturb(t):
    M, (i, j), d = t
    M = [list(r) for r in M]
    M[i][j] += d
    return [M]


def op():
    k = st.integers(0, 30)
    return st.one_of(
        st.tuples(st.just("setU"), k, st.sampled_from(["list", "array", "fortran"]), setU_args()),
        st.tuples(st.just("setLaue"), k, st.one_of(laue_spec(), laue_spec(), st.sampled_from([0, -1, 15, 99]))),
        st.tuples(st.just("new"), k, sym_matrix(), st.one_of(st.none(), laue_spec().filter(lambda s: not isinstance(s, int)))),
        st.tuples(st.just("q"), k, st.sampled_from(["U", "Laue", "variants", "each", "idx", "rev", "calc"])),
        st.tuples(st.just("q"), k, st.sampled_from(["variants", "each", "idx", "rev"])),
        st.tuples(st.just("q"), k, st.sampled_from(["variants", "each", "idx", "rev"])),
    ).map(list)


def check_micro(ctx, c):
    """the in-place setters of Microstructure"""
    r = ctx.ok("micro_history", c)
    U = np.array(c["U"])
    G = CUB if c["G"] is None else group_of(c["G"])
    for k, (u, lg, err) in enumerate(r):
        if k:
            what, a = c["ops"][k - 1]
            if what == "U":
                bad = not 1 <= len(a) <= 4
                if not bad:
                    U = (np.array(a[0]) if isinstance(a[0], list) else np.diag([a[0]] * 3) if len(a) == 1 else np.diag([a[0], a[0], a[1]]) if len(a) == 2 else
                         np.array([[a[0], a[1], 0], [a[1], a[0], 0], [0, 0, a[2]]]) if len(a) == 3 else np.array([[a[0], a[1], 0], [a[1], a[2], 0], [0, 0, a[3]]]))
            else:
                bad = not 1 <= a[0] <= 14
                if not bad:
                    G = group_of(a[0])
            require((err is not None and "MartensiteError" in err) if bad else err is None, "%s%s: %s", what, a, err)
        require(np.asarray(u).shape == (3, 3) and np.allclose(u, U, atol=1e-12), "U = %s, expected %s after %s", np.asarray(u).tolist(), U.tolist(), c["ops"][:k])
        require(g.same_set([np.asarray(m, float) for m in lg], G), "the Laue group is not the one expected after %s", c["ops"][:k])
    return len(c["ops"]) > 0


def micro():
    n = st.lists(num, min_size=0, max_size=6)
    o = st.one_of(st.tuples(st.just("U"), st.one_of(n, sym_matrix().map(lambda M: [M]))), st.tuples(st.just("G"), st.integers(-1, 16).map(lambda i: [i])))
    return st.fixed_dictionaries({"U": sym_matrix(), "G": st.one_of(st.none(), laue_spec().filter(lambda s: not isinstance(s, int))),
                                  "ops": st.lists(o.map(list), max_size=6)})


FINAL = [["q", -1, "variants"], ["q", -2, "idx"], ["q", -1, "rev"], ["q", -3, "each"], ["q", -1, "U"]]     # of the newest objects

FACETS = [
    Facet("orbit", st.fixed_dictionaries({"G": laue_spec(), "U": sym_matrix()}), check_order, 800, 20000,
          examples=[{"G": i, "U": U} for i in range(1, 15) for U in ([[1.1, 0.0, 0.0], [0.0, 0.9, 0.0], [0.0, 0.0, 1.02]], [[1.1, 0.02, 0.03], [0.02, 0.9, 0.05], [0.03, 0.05, 1.02]])]),
    Facet("history", st.lists(op(), min_size=2, max_size=14).map(lambda o: {"ops": o + FINAL}), check, 1200, 30000),
    Facet("microstructure", micro(), check_micro, 300, 5000),
]
