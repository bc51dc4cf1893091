"""C24 - queries have no side effects."""
import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st

from checks.c14 import CUB, laue_of, subgroup_spec, sym_matrix
from harness.core import Facet, require
from harness import gen as g

RULE = ("a case is a family of objects (lattices, groups, martensite, twin system, twin pairs, partly built from each other) and a history of up to 14 "
        "queries in which the caller overwrites returned values and the arrays the objects were built from; every answer is compared with "
        "that of a freshly built family asked only this question; or a sequence of function calls repeated in another order; non-trivial: something was overwritten before a later query, "
        "or a function was called twice")

ALIAS = {"getbase": "base", "getLauegroup": "Laue_group", "getpointgroup": "point_group", "getspeciallatticegroup": "special_lattice_group", "getlatticegroup": "lattice_group",
         "getLatID": "Bravais_id", "getLatParam": "lat_param", "getConventionalTrans": "conventional_trans", "getConventionalBase": "conventional_base",
         "toPrimitive": "to_primitive_Miller", "toConventional": "to_conventional_Miller"}


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object:
            return a.shape == b.shape and all(equal(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-10, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return abs(a - b) <= 1e-10 + 1e-9 * abs(a) or (a != a and b != b)
    return a == b


def short(x):
    return str(x)[:300]


def check(ctx, c):
    r = ctx.ok("history", c)
    require(r["named"], "a predefined group has changed during %s", c["ops"])
    qs = [op[1] for op in c["ops"] if op[0] == "q"]
    ans = {}
    for q, f, a, z, ok in zip(qs, r["fresh"], r["got"], r["after"], r["intact"]):
        require(ok, "%s modified its arguments", q)
        require(equal(f, a), "%s gives %s after the history %s, a fresh object gives %s", q, short(a), c["ops"], short(f))
        require(equal(f, z), "%s of a new object gives %s after the history %s, before it was %s", q, short(z), c["ops"], short(f))
        key = str([q[0], ALIAS.get(q[1], q[1])] + q[2:])
        if key in ans:
            require(equal(ans[key], f), "%s: %s, but %s for the same question under another name", q, short(f), short(ans[key]))
        ans.setdefault(key, f)
    scr = [i for i, op in enumerate(c["ops"]) if op[0] == "args" or op[2]]
    return bool(scr) and scr[0] < len(c["ops"]) - 1


def history(objs, queries, size=14):
    """queries: {object index: strategy of [method, args...]}"""
    q = st.one_of(*[s.map(lambda m, i=i: ["q", [i] + m]) for i, s in queries.items()])
    op = st.one_of(*[st.tuples(q, st.booleans()).map(lambda t: t[0] + [t[1]])] * 5 + [st.just(["args"])])
    return st.lists(op, min_size=2, max_size=size).map(lambda o: {"objs": objs, "ops": o})


def methods(*names):
    return st.sampled_from(names).map(lambda n: [n])


def lat_queries(n):
    Q = st.sampled_from([M.tolist() for M in (g.CUBIC_ROT if n == 3 else g.SQUARE_ALL)])
    return st.one_of(
        methods("base", "dimension", "Laue_group", "point_group", "special_lattice_group", "lattice_group", "str"),
        methods("getbase", "getLauegroup", "getpointgroup", "getspeciallatticegroup", "getlatticegroup"),
        Q.map(lambda M: ["inpointgroup", {"nd": M}]), Q.map(lambda M: ["inlatticegroup", {"nd": M}]),
        st.sampled_from([0, 1]).map(lambda k: ["==", {"obj": k}]), st.sampled_from([0, 1]).map(lambda k: ["hash_free_ne", {"obj": k}]))


def brav_queries(n):
    idx = st.one_of(st.lists(st.integers(-5, 5), min_size=n, max_size=n),
                    st.lists(st.lists(st.integers(-5, 5), min_size=n, max_size=n), min_size=2, max_size=4))
    return st.one_of(lat_queries(n), methods("Bravais_id", "lat_param", "conventional_trans", "conventional_base"),
                     methods("getLatID", "getLatParam", "getConventionalTrans", "getConventionalBase"),
                     st.tuples(st.sampled_from(["to_primitive_Miller", "to_conventional_Miller", "toPrimitive", "toConventional"]), idx).map(
                         lambda t: [t[0], {"nd": t[1]}]))


def group_queries():
    return st.one_of(methods("matrices", "order"), st.sampled_from(["CUBIC_LAUE_GROUP", "HEX_LAUE_GROUP"]).map(lambda n: ["hassubgroup", {"named": n}]))


def lattices(t):
    b, ops = t
    E = g.prim_base(b).dot(np.array(g.unimodular(b["dim"], ops), float))
    objs = [{"k": "bravais", "id": b["id"], "par": b["par"], "dim": b["dim"]}, {"k": "lattice", "E": E.tolist()}, {"k": "laue", "of": 0}, {"k": "laue", "of": 1}]
    n = b["dim"]
    gq = methods("matrices", "order") if n == 2 else group_queries()
    return history(objs, {0: brav_queries(n), 1: lat_queries(n), 2: gq, 3: gq})


def pair_queries():
    return st.one_of(
        methods("Ui", "Uj", "istwinnable", "iscompound", "istypeI", "istypeII", "XI", "XII", "volumefrac", "direct_cof", "iscompatible", "habitplanes", "isconventional"),
        methods("ax", "twinparam", "twinparam", "habitplanes", "volumefrac"),
        st.sampled_from(["I", "II", "C"]).map(lambda t: ["iscompatible", t]),
        st.sampled_from(["CUBIC_LAUE_GROUP", "HEX_LAUE_GROUP"]).map(lambda n: ["isconventional", {"named": n}]),
        st.just(["isconventional", {"obj": 0}]))


def mart_queries():
    return st.one_of(
        methods("getU", "getLaue", "getvariants", "isreversible", "getLaueidx", "calcvariants", "getvariants"), st.integers(1, 2).map(lambda i: ["getvariant", i]),
        st.integers(1, 14).map(lambda i: ["setLaue", i]), sym_matrix().map(lambda U: ["setU", {"nd": U}]), st.just(["setU", 1.1, 0.9]),
        st.just(["setLaue", {"named": "HEX_LAUE_GROUP"}]))


def systems(t):
    U, gens, k, how, i = t
    Gm = subgroup_spec(gens, k)["mats"] if gens is not None else [m.astype(int).tolist() for m in CUB]
    objs = [{"k": "group", "mats": Gm, "how": how}, {"k": "mart", "U": U, "of": 0}, {"k": "named", "name": "CUBIC_LAUE_GROUP"}, {"k": "mart", "U": U},
            {"k": "twinsU", "U": [U] + [Q.dot(U).dot(Q.T).tolist() for Q in CUB[1:5]]}, {"k": "pairof", "of": 4, "i": i}]
    tq = methods("Ulist", "TwinTable", "getTwinpairs", "getConventional", "getCompound", "getTypeI", "getTypeII", "Laue")
    qs = {0: group_queries(), 1: mart_queries(), 2: group_queries(), 3: mart_queries(), 4: tq, 5: pair_queries()}
    objs.append({"k": "pair", "Ui": U, "Uj": CUB[(3 + i) % 24].dot(U).dot(CUB[(3 + i) % 24].T).tolist()})
    qs[6] = pair_queries()
    return history(objs, qs)


def twinned(t):
    U, i = t
    objs = [{"k": "named", "name": "CUBIC_LAUE_GROUP"}, {"k": "mart", "U": U}, {"k": "twins", "of": 1}, {"k": "pairof", "of": 2, "i": i}]
    tq = methods("Ulist", "TwinTable", "getTwinpairs", "getConventional", "getCompound", "getTypeI", "getTypeII", "Laue")
    return history(objs, {1: mart_queries(), 2: tq, 3: pair_queries()})


# ---- every question once, in any order
LATQ = ["base", "dimension", "Laue_group", "point_group", "special_lattice_group", "lattice_group", "str"]
BRAVQ = LATQ + ["Bravais_id", "lat_param", "conventional_trans", "conventional_base"]
MARTQ = ["getU", "getLaue", "getvariants", "isreversible", "getLaueidx", "calcvariants"]
TWINQ = ["Ulist", "TwinTable", "getTwinpairs", "getConventional", "getCompound", "getTypeI", "getTypeII", "Laue"]
PAIRQ = ["Ui", "Uj", "istwinnable", "iscompound", "istypeI", "istypeII", "XI", "XII", "volumefrac", "direct_cof", "iscompatible", "habitplanes", "isconventional", "ax", "twinparam"]


def family(kind, b, lops, U, i, k):
    """-> objects, all the questions they can be asked"""
    if kind == "lattice":
        objs = [{"k": "bravais", "id": b["id"], "par": b["par"], "dim": b["dim"]},
                {"k": "lattice", "E": g.prim_base(b).dot(np.array(g.unimodular(b["dim"], [tuple(x) for x in lops if max(x[:2]) < b["dim"]]), float)).tolist()}]
        n = b["dim"]
        Q = (g.CUBIC_ROT if n == 3 else g.SQUARE_ALL)[k % (24 if n == 3 else 8)].tolist()
        qs = [[0, m] for m in BRAVQ] + [[0, "inpointgroup", {"nd": Q}], [0, "inlatticegroup", {"nd": Q}], [0, "to_primitive_Miller", {"nd": [1, 2, 3][:n]}],
                                       [0, "to_conventional_Miller", {"nd": [1, 2, 3][:n]}], [0, "==", {"obj": 1}]]
        qs += [[1, m] for m in LATQ] + [[1, "inpointgroup", {"nd": Q}], [1, "==", {"obj": 0}]]
    elif kind == "mart":
        objs = [{"k": "bravais", "id": b["id"], "par": b["par"], "dim": 3} if b["dim"] == 3 else {"k": "bravais", "id": 1, "par": [2.0], "dim": 3}, {"k": "laue", "of": 0},
                {"k": "mart", "U": U, "of": 1}, {"k": "mart", "U": U}]
        qs = [[j, m] for j in (2, 3) for m in MARTQ] + [[j, "getvariant", 1] for j in (2, 3)] + [[3, "setU", 1.1, 0.9], [3, "setLaue", 1 + k % 14], [2, "setLaue", 1]]
    elif kind == "system":
        # nothing has been asked of the twin systems yet
        objs = [{"k": "mart", "U": U}, {"k": "twins", "of": 0}, {"k": "twinsU", "U": [U] + [Q.dot(U).dot(Q.T).tolist() for Q in CUB[1:5]]}]
        qs = [[j, m] for j in (1, 2) for m in TWINQ] + [[0, m] for m in MARTQ]
    else:
        objs = [{"k": "mart", "U": U}, {"k": "twins", "of": 0}, {"k": "pairof", "of": 1, "i": i}, {"k": "pair", "Ui": U, "Uj": CUB[k % 24].dot(U).dot(CUB[k % 24].T).tolist()}]
        qs = [[1, m] for m in TWINQ] + [[j, m] for j in (2, 3) for m in PAIRQ] + [[j, "iscompatible", x] for j in (2, 3) for x in ("I", "II")] + \
             [[j, "isconventional", {"named": "HEX_LAUE_GROUP"}] for j in (2, 3)]
    return objs, qs


KINDS = ["lattice", "lattice", "mart", "system", "twins"]


def sweep(t):
    objs, qs = family(*t)
    return st.tuples(st.permutations(qs), st.lists(st.booleans(), min_size=len(qs), max_size=len(qs)), st.integers(0, len(qs)), st.booleans()).map(
        lambda p: {"objs": objs, "ops": ([["q", q, s] for q, s in zip(p[0], p[1])][:p[2]] + ([["args"]] if p[3] else []) + [["q", q, s] for q, s in zip(p[0], p[1])][p[2]:])})


def sweeps():
    return st.tuples(st.sampled_from(KINDS), g.bravais(), g.ops_strategy(3, 4, 2), sym_matrix(), st.integers(0, 60), st.integers(0, 23)).flatmap(sweep)


def pick(t):
    """few questions, every one asked again after its answer has been overwritten"""
    objs, qs = family(*t)
    return st.lists(st.sampled_from(qs), min_size=1, max_size=4).flatmap(lambda l: st.permutations(l + l).map(lambda o: {"objs": objs, "ops": [["q", q, True] for q in o]}))


def picks():
    return st.tuples(st.sampled_from(KINDS), g.bravais(), g.ops_strategy(3, 4, 2), sym_matrix(), st.integers(0, 60), st.integers(0, 23)).flatmap(pick)


def twice():
    """every question on its own, asked twice"""
    out = []
    B = [{"dim": 3, "id": 2, "par": [2.0]}, {"dim": 3, "id": 4, "par": [1.0, 1.6]}, {"dim": 2, "id": 3, "par": [1.0, 1.5]}]
    U = [[1.05, 0.03, 0.02], [0.03, 1.05, 0.02], [0.02, 0.02, 0.93]]
    for kind, b in [("lattice", x) for x in B] + [("mart", B[0]), ("system", B[0]), ("twins", B[0])]:
        objs, qs = family(kind, b, [(0, 1, 1)], U, 3, 7)
        out += [{"objs": objs, "ops": [["q", q, True], ["q", q, True]]} for q in qs]
    return out


# ---- functions
def nd(x):
    return {"nd": x}


vec3 = st.lists(st.integers(-4, 4), min_size=3, max_size=3).filter(any)
mat3 = g.wellcond(3, 2.0, 20)
imat3 = g.int_matrix(3, 6).filter(lambda M: g.idet(M) != 0)
spd = sym_matrix()
rows9 = st.lists(st.lists(g.fl(-3, 3, 10), min_size=9, max_size=9), min_size=1, max_size=4)


def rank_one(t):
    lo, mid, hi, rot = t
    R = g.rot_of(rot)
    return (R * np.array([lo, 1.0, hi])).dot(R.T).tolist()


def call():
    def one(name, *args):
        return st.tuples(*args).map(lambda t: [name, list(t)])
    a = lambda s: s.map(nd)
    C1 = st.tuples(g.fl(0.5, 0.9, 20), st.just(1), g.fl(1.1, 2, 20), g.rotation_case()).map(rank_one)
    return st.one_of(
        one("LLL", a(mat3)), one("LLL", a(imat3)), one("hnf_det", st.integers(1, 9), st.integers(2, 3)), one("hnf_diag", a(st.lists(st.integers(1, 4), min_size=2, max_size=3))),
        one("hnfd", a(imat3)), one("hnfdH", a(imat3)), one("divisors", st.integers(1, 60)), one("rotation", g.fl(-180, 180, 1), a(vec3)), one("Euler", a(st.lists(g.fl(-90, 90, 1), min_size=3, max_size=3))),
        one("skew", st.integers(2, 6), st.integers(0, 6), a(vec3)), one("stereo", a(vec3), a(vec3)), one("poles", a(st.lists(vec3, min_size=2, max_size=4)), a(vec3)),
        one("vertex", a(vec3), a(mat3)), one("direc", a(mat3), a(vec3)), one("plane", a(mat3), a(st.lists(vec3, min_size=1, max_size=3))),
        rows9.map(lambda r: ["mat_dot", [nd(r), nd([x[::-1] for x in r])]]), one("mat_T", a(rows9)), one("mat_det", a(rows9)), one("mat_trace", a(rows9)), one("cofactor", a(mat3)),
        one("sort_eig", a(spd)), one("pos_def", a(spd)), one("AM", a(C1)), one("rank1", a(C1)), one("compat", a(spd), a(spd)),
        one("cauchy", a(imat3), a(mat3), a(mat3)), one("strain", a(imat3), a(mat3), a(mat3)), one("eric", a(imat3), a(mat3), a(mat3)))


def check_functions(ctx, c):
    r = ctx.ok("functions", c)
    for name, ok in r["intact"]:
        require(ok, "%s modified its arguments: %s", name, c["calls"])
    first, got = dict((i, v) for i, v in r["first"]), dict((i, v) for i, v in r["got"])
    for i in first:
        require(equal(first[i], got[i]), "%s gives %s when repeated, first %s", c["calls"][i], short(got[i]), short(first[i]))
    return True


def functions_case():
    return st.lists(call(), min_size=2, max_size=8).flatmap(lambda cs: st.permutations(list(range(len(cs)))).map(lambda o: {"calls": cs, "order": list(o)}))


def check_generators(ctx, c):
    r = ctx.ok("generators", c)
    for s, a, b in zip(c["gens"], r["alone"], r["turns"]):
        require(a == b, "generator %s yields %d vectors alone and %d when advanced in turns with %s", s, len(a), len(b), c["gens"])
    return len(c["gens"]) > 1


gens = st.fixed_dictionaries({
    "gens": st.lists(st.fixed_dictionaries({"r": st.sampled_from([0, 1, 1.5, 2, 2.3]), "dim": st.integers(1, 4), "x0": st.none()}), min_size=2, max_size=3),
    "turns": st.lists(st.integers(0, 2), min_size=1, max_size=6), "scribble": st.booleans()})

FACETS = [
    Facet("sweeps", sweeps(), check, 240, 6000),
    Facet("repeated", picks(), check, 300, 8000, examples=twice()),
    Facet("lattices", st.tuples(g.bravais(), st.just([])).flatmap(lambda t: g.ops_strategy(t[0]["dim"], 4, 2).flatmap(lambda o: lattices((t[0], o)))), check, 400, 10000),
    Facet("martensites", st.tuples(sym_matrix(), st.one_of(st.none(), st.lists(st.integers(0, 23), min_size=1, max_size=2)), st.integers(0, 23), st.sampled_from(["list", "array"]),
                                   st.integers(0, 20)).flatmap(systems), check, 400, 10000),
    Facet("twins", st.tuples(sym_matrix(), st.integers(0, 60)).flatmap(twinned), check, 300, 8000),
    Facet("functions", functions_case(), check_functions, 600, 15000),
    Facet("generators", gens, check_generators, 100, 2000, shards=4),
]
