"""C29 - the numbers count, not the container they come in."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c24 import equal, short
from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is an operation and its numerical arguments, which are handed over in all supported ways, one argument at a time and together (lists, tuples, arrays of integers or floats, in C or Fortran "
        "order, strided, reversed or read-only views; integers as floats, lists of both); non-trivial: a number is not zero")

ND = ["fortran", "strided", "reversed", "readonly"]
ANY = ND + ["list", "mixed", "tuple", "array", "floats"]
INT = ["int", "int32"]


def integral(x):
    return all(integral(v) for v in x) if isinstance(x, list) else float(x).is_integer()


def flat(x):
    return [z for v in x for z in flat(v)] if isinstance(x, list) else [x]


def same(op, a, b):
    if op == "LLL":
        a, b = np.asarray(a["basis"]), np.asarray(b["basis"])
        if a.shape != b.shape:
            return False
        T = la.solve(a, b)
        return bool(np.allclose(T, np.rint(T), atol=1e-6) and abs(abs(la.det(T)) - 1) < 1e-6)
    return equal(a, b)


def check(ctx, c):
    r = ctx.ok("given", c)
    base = r[0]
    for hows, x in zip(c["forms"][1:], r[1:]):
        if "e" in base or "e" in x:
            require("e" in base and "e" in x and base["e"] == x["e"], "%s%s: given as %s %s, as float arrays %s", c["op"], tuple(c["args"]), hows,
                    short(x), short(base))
        else:
            require(same(c["op"], base["v"], x["v"]), "%s%s: given as %s %s, as float arrays %s", c["op"], tuple(c["args"]), hows, short(x["v"]), short(base["v"]))
    require("e" not in base or c.get("may_fail"), "%s%s fails: %s", c["op"], tuple(c["args"]), base)
    return any(any(flat(a)) for a in c["args"] if isinstance(a, list))


def ways(op, args, allowed):
    """every argument in every allowed container, one at a time and together; None for scalars"""
    first = ["float" if isinstance(a, list) else "-" for a in args]
    names = [list(al) + (INT if integral(a) else []) if al is not None and isinstance(a, list) else [] for a, al in zip(args, allowed)]
    out = []
    for k, al in enumerate(names):
        out += [first[:k] + [h] + first[k + 1:] for h in al]
    if sum(bool(al) for al in names) > 1:
        out += [[h if h in al else f for f, al in zip(first, names)] for h in sorted(set(sum(names, [])))]
        # different ones together
        out += [[al[(i + 3 * k) % len(al)] if al else f for k, (f, al) in enumerate(zip(first, names))] for i in range(4)]
    return st.just({"op": op, "args": args, "forms": [first] + out})


def vec(n, lo=-5, hi=5):
    return st.one_of(st.lists(st.one_of(st.integers(lo, hi), g.fl(lo, hi, 4)), min_size=n, max_size=n), st.lists(st.integers(lo, hi), min_size=n, max_size=n), st.lists(g.fl(lo, hi, 4), min_size=n, max_size=n))


def nzvec(n):
    return vec(n).filter(lambda v: sum(x * x for x in v) > 0.2)


def basis(n):
    return st.one_of(g.int_matrix(n, 3).filter(lambda M: g.idet(M) != 0), g.wellcond(n))


def spd(n=3):
    """symmetric positive definite"""
    d = st.lists(st.sampled_from([0.75, 1, 1.25, 2, 1, 3]), min_size=3, max_size=3).map(lambda d: np.diag(d).tolist())
    h = st.tuples(*[g.fl(-0.2, 0.2, 20)] * 3, *[g.fl(0.8, 1.3, 20)] * 3).map(lambda t: [[t[3], t[0], t[1]], [t[0], t[4], t[2]], [t[1], t[2], t[5]]])
    return st.one_of(d, h).filter(lambda U: la.eigvalsh(np.array(U)).min() > 0.2)


def variants():
    """two different variants"""
    def mk(t):
        U, k = t
        U = np.array(U)
        for Q in g.CUBIC_ROT[k:] + g.CUBIC_ROT[:k]:
            V = Q.dot(U).dot(Q.T)
            if np.abs(U - V).max() > 1e-3:
                return [U.tolist(), V.tolist()]
        return None
    return st.tuples(spd(), st.integers(0, 23)).map(mk).filter(lambda x: x is not None)


def mats(n, k):
    return st.one_of(st.lists(st.lists(st.integers(-5, 5), min_size=n * n, max_size=n * n), min_size=k, max_size=k),
                     st.lists(st.lists(g.fl(-4, 4, 4), min_size=n * n, max_size=n * n), min_size=k, max_size=k))


def ops():

    def lat(t):
        E, Q, M = t
        return ways("lattice", [E, Q, M], [ANY, ANY, ANY])
    lattice = st.sampled_from([2, 3]).flatmap(lambda n: st.tuples(
        st.one_of(basis(n), st.integers(1, 3).map(lambda k: (k * np.eye(n)).tolist())), st.sampled_from([M.tolist() for M in (g.CUBIC_ROT if n == 3 else g.SQUARE_ALL)]),
        st.one_of(st.sampled_from([M.tolist() for M in (g.CUBIC_ROT if n == 3 else g.SQUARE_ALL)]), g.int_matrix(n, 1)))).flatmap(lat)

    def par_int(b):
        """round the lengths"""
        return dict(b, par=[float(max(1, round(x))) for x in b["par"]]) if b["id"] not in (5, 12, 13, 14) and b["dim"] == 3 or b["dim"] == 2 and b["id"] < 5 else b
    brav = st.tuples(g.bravais(), st.booleans()).map(lambda t: par_int(t[0]) if t[1] else t[0])
    bravais = brav.flatmap(lambda b: vec(b["dim"]).flatmap(lambda i: ways("bravais", [b["id"], b["dim"], b["par"], i], [None, None, ["list", "mixed", "array", "floats"] + ND, ANY])))
    cell = brav.flatmap(lambda b: st.tuples(vec(b["dim"]), vec(b["dim"])).flatmap(
        lambda o: ways("cell", [o[0], b["dim"], b["id"], b["par"], o[1]], [ANY, None, None, ["list", "array"] + ND, ANY])))
    intm = st.sampled_from([2, 3, 4]).flatmap(lambda n: g.int_matrix(n, 9).filter(lambda M: g.idet(M) != 0))
    hnfd = intm.flatmap(lambda M: ways("hnfd", [M], [ANY]))
    diag = st.lists(st.integers(1, 4), min_size=1, max_size=3).flatmap(lambda d: ways("hnf_diag", [d], [["list", "tuple", "array", "int32"]]))
    lll = st.sampled_from([2, 3, 4]).flatmap(basis).flatmap(lambda E: ways("LLL", [E], [ANY]))
    rows = st.sampled_from([2, 3]).flatmap(lambda n: st.tuples(vec(n), basis(n), st.lists(vec(n), min_size=1, max_size=6)))
    vertex = rows.flatmap(lambda t: ways("vertex", [t[0], t[1]], [ANY, ANY]))
    box = rows.flatmap(lambda t: ways("box", [t[2], t[1]], [ANY, ANY]))
    bonds = st.sampled_from([(8, 3), (4, 2)]).flatmap(lambda s: st.lists(vec(s[1]), min_size=s[0], max_size=s[0])).flatmap(lambda v: ways("bonds", [v], [ANY]))
    grp = st.sampled_from([[np.eye(3).tolist()], [M.tolist() for M in g.CUBIC_ROT], [np.eye(3).tolist(), np.diag([-1, -1, 1]).tolist()], [np.eye(3).tolist(), np.diag([-1, 1, -1]).tolist()],
                           [np.eye(2).tolist(), (-np.eye(2)).tolist()], [M.tolist() for M in g.SQUARE_ALL], [M.tolist() for M in g.CUBIC_ROT if abs(M[2, 2]) == 1]])
    group = st.tuples(grp, grp).flatmap(lambda t: ways("group", list(t), [ANY + ["rows"], ANY + ["rows"]]))

    rotation = st.tuples(g.fl(-180, 180, 2), nzvec(3)).flatmap(lambda t: ways("rotation", [t[0], t[1]], [None, ANY]))
    euler = st.tuples(vec(3, -180, 180), st.sampled_from(["ZXZ", "xyz", "ZYX", "YXZ"])).flatmap(lambda t: ways("euler", [t[0], t[1]], [ANY, None]))
    skew = st.tuples(st.sampled_from([1, 2, 3, 4, 6]), st.integers(0, 7), nzvec(3)).flatmap(lambda t: ways("skew", list(t), [None, None, ANY]))
    zone = nzvec(3).filter(lambda v: v[0] ** 2 + v[1] ** 2 > 1e-3 or v[0] == v[1] == 0)
    stereo = st.tuples(nzvec(3), zone).flatmap(lambda t: ways("stereo", list(t), [ANY, ANY]))
    fig = st.tuples(st.one_of(nzvec(3), st.lists(nzvec(3), min_size=1, max_size=4)), zone).flatmap(lambda t: ways("pole_figure", list(t), [ANY, ANY]))
    orient = st.sampled_from([2, 3]).flatmap(lambda n: st.tuples(st.sampled_from(["direc", "plane"]), basis(n), st.one_of(vec(n), st.lists(vec(n), min_size=2, max_size=4))))
    orient = orient.flatmap(lambda t: ways(t[0], [t[1], t[2]], [ANY, ANY]))
    md = st.tuples(st.sampled_from([2, 3]), st.integers(1, 4)).flatmap(lambda s: st.tuples(mats(*s), mats(*s))).flatmap(lambda t: ways("mat_dot", list(t), [ND, ND]))
    ms = st.tuples(st.sampled_from([2, 3]), st.integers(1, 4)).flatmap(lambda s: mats(*s)).flatmap(lambda t: ways("mats", [t], [ND]))
    ur = st.integers(1, 3).flatmap(lambda n: st.lists(st.lists(st.integers(-1, 1), min_size=n, max_size=n), min_size=1, max_size=8)).flatmap(lambda t: ways("rows", [t], [ND]))
    cof = st.sampled_from([2, 3]).flatmap(basis).flatmap(lambda A: ways("cofactor", [A], [ND]))

    mart = spd().flatmap(lambda U: ways("martensite", [U], [ND + ["list", "mixed", "array", "floats"]]))
    twin = variants().flatmap(lambda t: ways("twin", t, [ND, ND]))
    sysm = st.tuples(variants(), st.sampled_from([[M.tolist() for M in g.CUBIC_ROT], [np.eye(3).tolist(), np.diag([-1, -1, 1]).tolist()]])).flatmap(
        lambda t: ways("system", [t[0], t[1]], [ANY + ["rows"], ANY + ["rows"]]))
    comp = st.tuples(basis(3), basis(3)).flatmap(lambda t: ways("compatible", list(t), [ND, ND]))
    ev = st.tuples(g.fl(0.5, 0.9, 20), g.fl(1.1, 2, 20)).map(lambda t: np.diag([t[0], 1.0, t[1]])) | st.just(np.diag([0.0, 1.0, 2.0]))
    C = st.tuples(ev, st.sampled_from(g.CUBIC_ROT), st.sampled_from([0.0, 0.3, 0.8])).map(
        lambda t: (lambda R: ((R.dot(t[0]).dot(R.T) + R.dot(t[0]).dot(R.T).T) / 2).tolist())(t[1].dot(g.rodrigues([0, 0, 1], t[2]))))
    am = C.flatmap(lambda C: ways("am", [C], [ND]))
    r1 = C.filter(lambda C: la.det(np.array(C)) > 0.01).flatmap(lambda C: ways("rank1", [C], [ND]))
    dd = st.sampled_from([2, 3]).flatmap(lambda n: st.tuples(g.int_matrix(n, 2).filter(lambda M: g.idet(M) != 0), basis(n), basis(n)))
    dists = dd.flatmap(lambda t: ways("dists", list(t), [ND, ND, ND]))
    vec_ = st.sampled_from([2, 3]).flatmap(lambda n: st.tuples(st.sampled_from([1, 3, 99, 100, 130]).flatmap(
        lambda k: g.int_matrix(n, 3).map(lambda M: [[(i * x + y) % 5 - 2 for x, y in zip(sum(M, []), range(n * n))] for i in range(k)])), basis(n), g.wellcond(n)))
    vecd = vec_.flatmap(lambda t: ways("vec", list(t), [ND, ND, ND]))
    opt = st.tuples(g.wellcond(2, 2.0, 10), g.wellcond(2, 2.0, 10), st.sampled_from(["Cauchy", "strain"])).flatmap(lambda t: ways("opt", list(t), [ND, ND, None]))
    gen_ = st.tuples(g.fl(0, 2.5, 4), st.sampled_from([1, 2, 3]).flatmap(lambda n: st.lists(st.integers(0, 1), min_size=n, max_size=n))).flatmap(
        lambda t: ways("generator", [t[0], t[1]], [None, ["list", "tuple", "array"]]))
    return {"lattice": lattice, "bravais": bravais, "cell": cell, "hnfd": hnfd, "hnf_diag": diag, "LLL": lll, "vertex": vertex, "box": box, "bonds": bonds, "group": group,
            "rotation": rotation, "euler": euler, "skew": skew, "stereo": stereo, "pole_figure": fig, "orientation": orient, "mat_dot": md, "mats": ms, "rows": ur, "cofactor": cof,
            "martensite": mart, "twin": twin, "system": sysm, "compatible": comp, "am": am, "rank1": r1, "dists": dists, "vec": vecd, "opt": opt, "generator": gen_}


COUNTS = {"martensite": 25, "opt": 12, "vec": 40, "lattice": 50, "bravais": 50, "cell": 60, "twin": 80, "system": 60, "LLL": 80, "group": 60}
FACETS = [Facet(k, s, check, COUNTS.get(k, 120), 40 * COUNTS.get(k, 60), shards=1) for k, s in sorted(ops().items(), key=lambda t: COUNTS.get(t[0], 120))]
