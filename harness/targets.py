"""Adapters, run under PyPy: the only place that touches the API of structrans."""
import contextlib
import importlib
import io
import os
import sys
import warnings

import numpy as np
import numpy.linalg as la

import structrans
from structrans import util
from structrans import crystallography as cry
from structrans.crystallography import BravaisLattice, Lattice, MatrixGroup


def where():
    return os.path.dirname(os.path.abspath(structrans.__file__))


def plain(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return {"__nd__": [list(x.shape), "object", [plain(v) for v in x.ravel()]]}
        return {"__nd__": [list(x.shape), x.dtype.str, x.ravel().tolist()]}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str, complex)):
        return x
    return {"__repr__": repr(x)[:200], "__type__": type(x).__name__}


def mod(name):
    return importlib.import_module("structrans." + name)


def attempt(f, *a, **k):
    """-> {"v": value} or {"e": exception name}"""
    try:
        return {"v": f(*a, **k)}
    except Exception as e:
        return {"e": type(e).__name__, "mro": [c.__name__ for c in type(e).__mro__], "msg": str(e)[:300]}


def form(x, how):
    """the same data in different containers"""
    if how == "array":
        return np.array(x)
    if how == "float":
        return np.array(x, dtype=float)
    if how == "tuple":
        return tuple(tuple(r) if isinstance(r, list) else r for r in x)
    if how == "fortran":
        return np.asfortranarray(np.array(x))
    if how == "view":
        a = np.array(x)
        b = np.zeros([2 * s for s in a.shape], dtype=a.dtype)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    return x


def brav(c, how="list"):
    p = c["par"]
    if how == "array":
        p = np.array(p)
    elif how == "scalar" and len(p) == 1:
        p = p[0]
    return BravaisLattice(c["id"], p, dim=c["dim"])


# ------------------------------------------------------------------ C01 / C02
def hnf_det(c):
    f = {"hnf": lambda: mod("crystallography.hnf").hnf_from_det,
         "sublattice": lambda: mod("crystallography.sublattice").hnf_from_det,
         "alias": lambda: cry.HermiteNormalForms}[c["mod"]]()
    if c["N"] == 3 and c.get("default"):
        return f(c["n"])
    return f(c["n"], c["N"])


def hnf_diag(c):
    f = mod("crystallography." + c["mod"]).hnf_from_diag
    d = c["diag"]
    if c["how"] == "array":
        d = np.array(d)
    elif c["how"] == "tuple":
        d = tuple(d)
    return f(d)


def hnfd(c):
    f = {"hnf": lambda: mod("crystallography.hnf").hnfd,
         "sublattice": lambda: mod("crystallography.sublattice").hnfd,
         "alias": lambda: cry.HNFDecomposition}[c["mod"]]()
    M = form(c["M"], c["how"])
    keep = np.array(M)
    H, L = f(M)
    H2 = f(M, onlyH=True)
    return {"H": H, "L": L, "H2": H2, "intact": bool(np.array_equal(np.array(M), keep))}


# ------------------------------------------------------------------ C03
def build_lattice(c):
    """{"E": matrix, "how": ...} or {"brav": {...}}"""
    if "brav" in c:
        return brav(c["brav"])
    return Lattice(form(c["E"], c.get("how", "array")))


def lat_eq(c):
    """all pairwise comparisons"""
    ls = [build_lattice(x) for x in c["lats"]]
    eq = [[bool(a == b) for b in ls] for a in ls]
    ne = [[bool(a != b) for b in ls] for a in ls]
    others = [None, 3, "x", np.array(ls[0].base()), [1, 2], object()]
    oth = [attempt(lambda o=o: bool((ls[0] == o) is True)) for o in others[:3] + others[4:]]
    return {"eq": eq, "ne": ne, "others": oth}


# ------------------------------------------------------------------ C04 / C05
def groups(c):
    l = build_lattice(c)
    lg, pg = l.Laue_group(), l.point_group()
    sl, gl = l.special_lattice_group(), l.lattice_group()
    return {"E": l.base(), "dim": l.dimension(),
            "laue": lg.matrices(), "laue_order": lg.order(), "point": pg.matrices(), "point_order": pg.order(),
            "special": sl.matrices(), "special_order": sl.order(), "lattice": gl.matrices(), "lattice_order": gl.order(),
            "is_group": all(isinstance(g, MatrixGroup) for g in (lg, pg, sl, gl))}


def group_errors(c):
    l = Lattice(np.array(c["E"]))
    return [attempt(getattr(l, n)) for n in ("Laue_group", "point_group", "special_lattice_group", "lattice_group")]


def membership(c):
    l = build_lattice(c)
    out = []
    for kind, M in c["queries"]:
        f = l.inpointgroup if kind == "Q" else l.inlatticegroup
        how = c.get("qhow", "array")
        x = form(M, how) if how != "list" else M
        out.append(bool(f(x)))
    return out


# ------------------------------------------------------------------ C06 / C07
def bravais_info(c):
    l = brav(c, c.get("how", "list"))
    return {"E": l.base(), "C": l.conventional_base(), "T": l.conventional_trans(), "id": l.Bravais_id(),
            "par": l.lat_param(), "dim": l.dimension(), "str": str(l), "isl": isinstance(l, Lattice)}


def miller(c):
    l = brav(c["brav"])
    out = {"E": l.base(), "C": l.conventional_base()}
    idx = form(c["idx"], c["how"])
    out["prim"] = l.to_primitive_Miller(idx)
    out["conv"] = l.to_conventional_Miller(idx)
    out["round1"] = l.to_conventional_Miller(out["prim"])
    out["round2"] = l.to_primitive_Miller(out["conv"])
    return out


def miller_err(c):
    l = brav(c["brav"])
    return [attempt(l.to_primitive_Miller, c["idx"]), attempt(l.to_conventional_Miller, c["idx"])]


# ------------------------------------------------------------------ C08
def named_groups(c):
    m = mod("crystallography.matrix_group")
    return {n: {"order": getattr(m, n).order(), "mats": getattr(m, n).matrices()} for n in
            ("CUBIC_LAUE_GROUP", "HEX_LAUE_GROUP", "SQUARE_GROUP", "SQUARE_EXT_GROUP", "HEX2D_GROUP", "HEX2D_EXT_GROUP")}


def subgroup(c):
    def mk(x):
        if isinstance(x, str):
            return getattr(mod("crystallography.matrix_group"), x)
        return MatrixGroup([np.array(m) for m in x] if c["how"] == "list" else np.array(x))
    G, H = mk(c["G"]), mk(c["H"])
    return {"sub": bool(G.hassubgroup(H)), "oG": G.order(), "oH": H.order()}


def subgroup_err(c):
    G = mod("crystallography.matrix_group").CUBIC_LAUE_GROUP
    bad = {"list": [np.eye(3)], "array": np.array([np.eye(3)]), "none": None, "int": 3, "str": "x",
           "lattice": Lattice(np.eye(3))}[c["bad"]]
    return G.hassubgroup(bad)


# ------------------------------------------------------------------ C09
def lll(c):
    E = form(c["E"], c["how"])
    keep = np.array(E)
    B = cry.LLL(E)
    return {"B": B, "intact": bool(np.array_equal(keep, E))}


# ------------------------------------------------------------------ C10
def rotations(c):
    k = c["kind"]
    if k == "rotation":
        ax = form(c["axis"], c["how"])
        keep = np.array(ax)
        kw = {} if c["unit"] is None else {"unit": "".join(list(c["unit"]))}   # not interned
        R = util.rotation(c["angle"], ax, **kw)
        return {"R": R, "intact": bool(np.array_equal(keep, np.array(ax)))}
    if k == "euler":
        kw = {}
        if c["order"] is not None:
            kw["order"] = c["order"]
        if c["unit"] is not None:
            kw["unit"] = "".join(list(c["unit"]))
        return {"R": util.Euler(c["angles"], **kw)}
    if k == "skew":
        T = form(c["T"], c["how"])
        keep = np.array(T)
        Q, t = mod("crystallography.spacegroup").skew(c["n"], c["p"], T)
        return {"R": Q, "t": t, "intact": bool(np.array_equal(keep, np.array(T)))}
    raise RuntimeError("adapter bug")


# ------------------------------------------------------------------ C11
def stereo(c):
    m = mod("crystallography.stereogram")
    z = np.array(c["z"])
    ps = [np.array(p) for p in c["ps"]]
    out = {"each": [m.stereo_proj(p, z) for p in ps], "fig": m.pole_figure(c["ps"] if c["how"] == "list" else np.array(c["ps"]), z)}
    out["single"] = m.pole_figure(c["ps"][0], z)
    return out


# ------------------------------------------------------------------ C12
def cell(c):
    v = cry.vertex(np.array(c["o"]), np.array(c["E"]), *([] if c["n"] == 3 else [c["n"]]))
    return {"v": v, "b": cry.bonds(v if c["how"] == "array" else v.tolist())}


def unit_cell(c):
    b = c["brav"]
    cell = cry.UnitCell(c["o"], b["id"], b["par"], N=b["dim"])
    l = brav(b)
    out = {"E": l.base(), "C": l.conventional_base(), "steps": []}
    for op in c["ops"]:
        k = op[0]
        if k == "origin":
            cell.setOrigin(np.array(op[1]))
            out["steps"].append(None)
        elif k == "copy":
            out["steps"].append(cell.copyTo(np.array(op[1]), getattr(cell, op[2])()))
        else:
            out["steps"].append(getattr(cell, k)())
    return out


def box(c):
    return cry.box(np.array(c["pts"]), np.array(c["E"]), *([] if c["n"] == 3 else [c["n"]]))


# ------------------------------------------------------------------ C13
def matmath(c):
    m = mod("mat_math")
    dt = int if c["int"] else float
    a = np.array(c["a"], dtype=dt)
    b = np.array(c["b"], dtype=int if c.get("bint", c["int"]) else float)
    ka, kb = a.copy(), b.copy()
    out = {"dot": m.mat_dot(a, b), "T": m.mat_T(a), "tr": m.mat_trace(a), "det": m.mat_det(a)}
    d = int(round(np.sqrt(a.shape[1])))
    if d > 1:
        out["cof"] = [m.cofactor(x.reshape(d, d)) for x in a[:3]]
    s = np.array([(x.reshape(d, d) + x.reshape(d, d).T).ravel() for x in a], dtype=dt)
    out["eig"] = m.mat_eig(s)
    if d == 3:
        out["es1"] = [m.eigSort(x.reshape(3, 3)) for x in s[:3]]
        out["es2"] = [util.utils.sort_eig(x.reshape(3, 3)) for x in s[:3]]
    out["intact"] = bool(np.array_equal(a, ka) and np.array_equal(b, kb))
    return out


def uniq(c):
    a = np.array(c["rows"])
    r, i = mod("mat_math").unique_rows(a)
    return {"rows": r, "idx": i}


def divisors(c):
    return list(util.divisors(c["n"]))


# ------------------------------------------------------------------ C17
def rank1(c):
    C = np.array(c["C"])
    keep = C.copy()
    f = {"am": structrans.marttrans.AM_Solver, "r1": util.solve_rank1}[c["solver"]]
    r = f(C)
    return {"r": r, "intact": bool(np.array_equal(keep, C))}


def compatible(c):
    return bool(structrans.marttrans.isCompatible(np.array(c["A"]), np.array(c["B"])))


# ------------------------------------------------------------------ C18
def orient(c):
    m = structrans.marttrans
    L = np.array(c["L"])
    keep = L.copy()
    d = form(c["d"], c["how"])
    p = form(c["p"], c["how"])
    out = {"d": m.direc_trans(L, d), "p": m.plane_trans(L, p)}
    Li = la.inv(L)
    out["d_back"] = m.direc_trans(Li, out["d"])
    out["p_back"] = m.plane_trans(Li, out["p"])
    out["intact"] = bool(np.array_equal(keep, L))
    return out


# ------------------------------------------------------------------ C19
def dists(c):
    m = mod("marttrans.lat_cor.dist")
    E1, E2 = np.array(c["E1"]), np.array(c["E2"])
    E2i = la.inv(E2)
    k = [E1.copy(), E2.copy()]
    xs = np.array(c["Ls"]).reshape(len(c["Ls"]), -1)
    kx = xs.copy()
    out = {}
    if "vec" in c:
        out["vec"] = m.Cauchy_dist_vec(xs, E1, E2i)
        out["scalar"] = [m.Cauchy_dist(x, E1, E2i) for x in xs]
    else:
        out["cauchy"] = [m.Cauchy_dist(x, E1, E2i) for x in xs]
        out["strain"] = [m.strain_dist(x, E1, E2i) for x in xs]
        out["eric"] = [m.Eric_dist(x, E1, E2) for x in xs]
        d = len(E1)
        out["cauchy_m"] = [m.Cauchy_dist(x.reshape(d, d), E1, E2i) for x in xs]
    out["intact"] = bool(np.array_equal(k[0], E1) and np.array_equal(k[1], E2) and np.array_equal(kx, xs))
    return out


# ------------------------------------------------------------------ C23
def vecgen(c):
    import itertools
    g = mod("marttrans.lat_cor.main_direct").vec_generator
    if c.get("x0") is None:
        it = g(c["r"], c["dim"])
    else:
        x0 = c["x0"]
        it = g(c["r"], c["dim"], np.array(x0) if c.get("how") == "array" else x0)
    return [[int(t) for t in v] for v in itertools.islice(it, c.get("max", 300000))]


# ------------------------------------------------------------------ C14
def mk_group(spec):
    if "name" in spec:
        return getattr(mod("crystallography.matrix_group"), spec["name"])
    if "brav" in spec:
        return brav(spec["brav"]).Laue_group()
    ms = spec["mats"]
    return MatrixGroup([np.array(m) for m in ms] if spec.get("how") == "list" else np.array(ms))


def mart_answers(m, what):
    if what == "U":
        return m.getU()
    if what == "Laue":
        return m.getLaue().matrices()
    if what == "variants":
        return m.getvariants()
    if what == "each":
        return [m.getvariant(i + 1) for i in range(len(m.getvariants()))]
    if what == "idx":
        return [[int(i) for i in x] for x in m.getLaueidx()]
    if what == "rev":
        return bool(m.isreversible())
    if what == "calc":
        m.calcvariants()
        return None
    raise RuntimeError("adapter bug")


def mart_history(c):
    M = structrans.marttrans.Martensite
    objs = [M()]
    out = []
    for op in c["ops"]:
        m = objs[op[1] % len(objs)]
        if op[0] == "setU":
            a = [form(x, op[2]) if isinstance(x, list) else x for x in op[3]]
            r = attempt(m.setU, *a)
            if "v" in r:
                objs.append(r["v"])
                r = {"v": isinstance(r["v"], M)}
            out.append(r)
        elif op[0] == "new":
            a = [np.array(op[2])] + ([mk_group(op[3])] if op[3] else [])
            objs.append(M(*a))
            out.append({"v": True})
        elif op[0] == "setLaue":
            r = attempt(m.setLaue, op[2] if isinstance(op[2], int) else mk_group(op[2]))
            if "v" in r:
                objs.append(r["v"])
                r = {"v": isinstance(r["v"], M)}
            out.append(r)
        else:
            out.append(attempt(mart_answers, m, op[2]))
    return out


def micro_history(c):
    M = mod("marttrans.Compatibility").Microstructure
    m = M(np.array(c["U"])) if c["G"] is None else M(np.array(c["U"]), mk_group(c["G"]))
    out = [[m.getU(), m.getLaue().matrices(), None]]
    for op in c["ops"]:
        a = [np.array(x) if isinstance(x, list) else x for x in op[1]]
        r = attempt(m.setU if op[0] == "U" else m.setLaue, *a)
        out.append([m.getU(), m.getLaue().matrices(), None if "v" in r else r["mro"]])
    return out


# ------------------------------------------------------------------ C15 / C16
def twin_build(c):
    m = structrans.marttrans
    if c["via"] == "mart":
        M = m.Martensite(np.array(c["U"]), mk_group(c["G"])) if c["G"] else m.Martensite(np.array(c["U"]))
        return m.TwinSystem(M)
    U = c["Ulist"]
    if c["via"] == "array":
        U = np.array(U)
    elif c["via"] == "arrays":
        U = [np.array(u) for u in U]
    return m.TwinSystem(U, mk_group(c["G"])) if c["G"] else m.TwinSystem(U)


def pair_info(tp, G, what):
    out = {"Ui": tp.Ui(), "Uj": tp.Uj(), "twinnable": bool(tp.istwinnable())}
    if "class" in what:
        out["conv"] = attempt(lambda: bool(tp.isconventional(G)))
        out["conv0"] = attempt(lambda: bool(tp.isconventional()))
        for n in ("iscompound", "istypeI", "istypeII"):
            out[n] = attempt(lambda: bool(getattr(tp, n)()))
        for n in ("ax", "XI", "XII", "twinparam"):
            out[n] = attempt(getattr(tp, n))
    if "param" in what:
        out["twinparam"] = attempt(tp.twinparam)
    if "frac" in what:
        out["frac"] = attempt(tp.volumefrac)
        out["cof"] = attempt(tp.direct_cof)
        for t in ("I", "II", "C"):
            out["comp" + t] = attempt(lambda: bool(tp.iscompatible(t)))
        out["comp"] = attempt(lambda: bool(tp.iscompatible()))
        out["habit"] = attempt(tp.habitplanes)
    return out


def twin_system(c):
    ts = twin_build(c)
    tab = ts.TwinTable() if c["first"] == "table" else None
    pairs = ts.getTwinpairs()
    lists = {n: [int(i) for i in getattr(ts, n)()] for n in c["lists"]}
    tab = ts.TwinTable()
    U = ts.Ulist()
    out = {"U": U, "Laue": ts.Laue().matrices(), "table": [[int(i) for i in t] for t in tab], "lists": lists,
           "pairs": [pair_info(tp, ts.Laue(), c["what"]) for tp in pairs]}
    P = mod("marttrans.twin").TwinPair
    out["others"] = []
    for i, j in c.get("others", []):
        if i < len(U) and j < len(U):
            out["others"].append([i, j, pair_info(P(U[i], U[j]), ts.Laue(), c["what"])])
    return out


def twin_pair(c):
    P = mod("marttrans.twin").TwinPair
    Ui, Uj = np.array(c["Ui"]), np.array(c["Uj"])
    k = Ui.copy(), Uj.copy()
    G = mk_group(c["G"])
    r = pair_info(P(Ui, Uj), G, c["what"])
    r["again"] = pair_info(P(Ui, Uj), G, c["what"][::-1])
    r["intact"] = bool(np.array_equal(k[0], Ui) and np.array_equal(k[1], Uj))
    return r


# ------------------------------------------------------------------ C20
def latopt(c):
    f = mod("marttrans.lat_cor.lat_opt").lat_opt
    out = []
    for q in c["calls"]:
        E1, E2 = np.array(q["E1"]), np.array(q["E2"])
        k1, k2 = E1.copy(), E2.copy()
        start = la.inv(E1).dot(cry.LLL(E1))
        kw = dict(q["kw"])
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = f(E1, E2, **kw)
        out.append({"l": [np.array(x) for x in r["lopt"]], "start": start, "d": [float(x) for x in r["dopt"]], "printed": len(buf.getvalue()),
                    "intact": bool(np.array_equal(k1, E1) and np.array_equal(k2, E2)) and kw == dict(q["kw"])})
    return out


# ------------------------------------------------------------------ C21 / C22 / C26
class FakeAsync(object):
    """an asynchronous result that is ready only after some polls; the arguments cross a process border"""

    def __init__(self, f, args, polls, log):
        import pickle
        self.f, self.args, self.polls, self.log = f, pickle.dumps(args), polls, log

    def ready(self):
        self.polls -= 1
        return self.polls < 0

    def get(self):
        import pickle
        if self.polls >= 0:
            raise RuntimeError("get() before ready()")
        self.log.append(1)
        return pickle.loads(pickle.dumps(self.f(*pickle.loads(self.args))))


class StubAsync(object):
    """stands for a solver of one sublattice that knows only a few candidates; records what it was asked"""

    def __init__(self, arg, words, polls, log):
        E, EM, opt, ih = arg
        self.polls, self.ih = polls, ih
        log.append([np.array(E, float), np.array(EM, float), ih])
        E, EM = np.asarray(E, float), np.asarray(EM, float)
        res = []
        for w in words:
            w = np.array(w, dtype=int)
            B = E.dot(w)
            if opt.get("dist", "Cauchy") == "Ericksen":
                d = ((B.T.dot(B) - EM.T.dot(EM)) ** 2).sum() / (EM.T.dot(EM) ** 2).sum()
            else:
                K = B.dot(la.inv(EM))
                if opt.get("dist", "Cauchy") == "strain":
                    d = ((la.svd(K, compute_uv=False) - 1) ** 2).sum()
                else:
                    d = ((K.T.dot(K) - np.eye(len(K))) ** 2).sum()
            res.append((float(d), len(res), w))
        res.sort(key=lambda t: t[:2])
        self.res = {"lopt": [t[2] for t in res], "dopt": [t[0] for t in res]}

    def ready(self):
        self.polls -= 1
        return self.polls < 0

    def get(self):
        return self.ih, self.res


@contextlib.contextmanager
def logged(c, kw, out):
    """collect what goes to the log: by a handler of the caller, or into a log file"""
    if not c.get("log"):
        yield
        return
    import logging
    import os
    import tempfile
    root = logging.getLogger()
    old, lev = list(root.handlers), root.level
    for h in old:
        root.removeHandler(h)
    path = None
    try:
        if c["log"] == "file":
            fd, path = tempfile.mkstemp(suffix=".log")
            os.close(fd)
            kw["logfile"] = path
            yield
        else:
            buf = io.StringIO()
            h = logging.StreamHandler(buf)
            h.setFormatter(logging.Formatter("%(message)s"))
            root.addHandler(h)
            root.setLevel(logging.INFO)
            yield
            out["log_text"] = buf.getvalue()
        for h in list(root.handlers):
            h.flush()
        if path:
            out["log_text"] = open(path).read()
    finally:
        for h in list(root.handlers):
            root.removeHandler(h)
            if path:
                h.close()
        for h in old:
            root.addHandler(h)
        root.setLevel(lev)
        if path:
            os.unlink(path)


def run_cor(c):
    m = structrans.marttrans
    which = {"hnf": m.lat_cor_hnf, "direct": m.lat_cor_direct, "default": m.lat_cor}[c["which"]]
    kw = dict(c["kw"])
    a, b = c["A"], c["M"]
    pa = np.array(a["par"]) if c.get("how") == "array" else a["par"]
    pb = np.array(b["par"]) if c.get("how") == "array" else b["par"]
    pool = None
    out = {}
    par = c.get("par")
    log = []
    patched = None
    try:
        if par:
            lm = mod("marttrans.lat_cor.lat_opt")
            hm = mod("marttrans.lat_cor.main_hnf")
            if par.get("pool"):
                import multiprocessing
                pool = multiprocessing.Pool(par["pool"])
                kw["lat_opt_par"] = lambda args: pool.apply_async(lm.lat_opt_unpack, args)
            elif "words" in par:
                it = iter(par["polls"])
                kw["lat_opt_par"] = lambda args: StubAsync(args[0], par["words"], next(it, 0), log)
            elif "polls" in par:
                it = iter(par["polls"])
                kw["lat_opt_par"] = lambda args: FakeAsync(lm.lat_opt_unpack, args, next(it, 0), log)
            if "poolsize" in par:
                kw["poolsize"] = par["poolsize"]
            if par.get("reduce"):
                import multiprocessing
                import pickle
                patched = multiprocessing.cpu_count
                multiprocessing.cpu_count = lambda: par["reduce"]
                if pool is not None:
                    kw["reduce_hnfs_par"] = lambda args: pool.map(hm.reduce_hnfs, list(args))
                else:
                    kw["reduce_hnfs_par"] = lambda args: [hm.reduce_hnfs(pickle.loads(pickle.dumps(x))) for x in args]
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), logged(c, kw, out):
            r = which(a["id"], pa, b["id"], pb, **kw)
    finally:
        if patched is not None:
            import multiprocessing
            multiprocessing.cpu_count = patched
        if pool is not None:
            pool.terminate()
            pool.join()
    out["sols"] = [dict((k, np.array(v) if isinstance(v, np.ndarray) else v) for k, v in s.items()) for s in r]
    out["text"] = buf.getvalue()
    out["tasks"] = len(log)
    if par and "words" in par:
        out["log"] = log
    return out


def latcor(c):
    A, M = brav(c["A"]), brav(c["M"])
    out = run_cor(c)
    out.update(EA=A.base(), EM=M.base(), CA=A.conventional_trans(), CM=M.conventional_trans(), sA=str(A), sM=str(M))
    return out


def latcor_many(c):
    return [latcor(x) for x in c["runs"]]


# ------------------------------------------------------------------ C24
def norm_answer(x):
    """a snapshot of an answer, detached from everything"""
    m = structrans.marttrans
    if isinstance(x, MatrixGroup):
        return {"group": [np.array(a) for a in x.matrices()], "order": int(x.order())}
    if isinstance(x, m.Martensite):
        return {"U": attempt(x.getU), "Laue": [np.array(a) for a in x.getLaue().matrices()]}
    if isinstance(x, mod("marttrans.twin").TwinPair):
        return {"Ui": np.array(x.Ui()), "Uj": np.array(x.Uj())}
    if isinstance(x, Lattice):
        return {"base": np.array(x.base())}
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [norm_answer(v) for v in x]
    if isinstance(x, dict):
        return dict((str(k), norm_answer(v)) for k, v in x.items())
    return x


def scribble(x):
    """overwrite whatever was handed out"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            for v in x.ravel():
                scribble(v)
            return
        try:
            x[...] = 77
        except Exception:
            pass
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            del x[:]
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, MatrixGroup):
        scribble(x.matrices())
    elif isinstance(x, structrans.marttrans.Martensite):
        attempt(lambda: scribble(x.getU()))
        scribble(x.getLaue())
    elif isinstance(x, mod("marttrans.twin").TwinPair):
        for n in ("Ui", "Uj", "ax", "twinparam", "volumefrac", "habitplanes"):
            attempt(lambda: scribble(getattr(x, n)()))


def world(specs):
    """-> objects, arrays they were built from"""
    m = structrans.marttrans
    objs, held = [], []

    def keep(a):
        a = np.array(a)
        held.append(a)
        return a
    for s in specs:
        k = s["k"]
        if k == "lattice":
            o = Lattice(keep(s["E"]))
        elif k == "bravais":
            o = BravaisLattice(s["id"], keep(s["par"]), dim=s["dim"])
        elif k == "group":
            if s.get("how") == "list":
                o = MatrixGroup([keep(a) for a in s["mats"]])
            else:
                o = MatrixGroup(keep(s["mats"]))
        elif k == "named":
            o = getattr(mod("crystallography.matrix_group"), s["name"])
        elif k == "laue":
            o = objs[s["of"]].Laue_group()
        elif k == "mart":
            a = [keep(s["U"])]
            if "of" in s:
                a.append(objs[s["of"]])
            o = m.Martensite(*a)
        elif k == "twins":
            o = m.TwinSystem(objs[s["of"]])
        elif k == "twinsU":
            o = m.TwinSystem(keep(s["U"]))
        elif k == "pair":
            o = mod("marttrans.twin").TwinPair(keep(s["Ui"]), keep(s["Uj"]))
        elif k == "pairof":
            ps = objs[s["of"]].getTwinpairs()
            o = ps[s["i"] % len(ps)] if ps else mod("marttrans.twin").TwinPair(keep(np.diag([1.1, 0.9, 1.0])), keep(np.diag([0.9, 1.1, 1.0])))
        else:
            raise RuntimeError("adapter bug")
        objs.append(o)
    return objs, held


def ask(objs, q):
    """q = [object, method, arg, ...]; -> raw answer or exception, and whether the arguments survived"""
    o = objs[q[0]]
    args = []
    for a in q[2:]:
        if isinstance(a, dict):
            if "nd" in a:
                a = np.array(a["nd"])
            elif "obj" in a:
                a = objs[a["obj"]]
            elif "named" in a:
                a = getattr(mod("crystallography.matrix_group"), a["named"])
        args.append(a)
    snap = plain(norm_answer(args))
    if q[1] == "str":
        r = attempt(str, o)
    elif q[1] == "==":
        r = attempt(lambda: bool(o == args[0]))
    elif q[1] == "hash_free_ne":
        r = attempt(lambda: bool(o != args[0]))
    else:
        r = attempt(getattr(o, q[1]), *args)
    return r, plain(norm_answer(args)) == snap


def snapshot(r):
    return {"v": norm_answer(r["v"])} if "v" in r else {"e": r["e"]}


def all_named():
    return plain(norm_answer([getattr(mod("crystallography.matrix_group"), n) for n in
                              ("CUBIC_LAUE_GROUP", "HEX_LAUE_GROUP", "SQUARE_GROUP", "SQUARE_EXT_GROUP", "HEX2D_GROUP", "HEX2D_EXT_GROUP")]))


def history(c):
    before = all_named()
    qs = [op[1] for op in c["ops"] if op[0] == "q"]
    fresh = []
    for q in qs:
        r, _ = ask(world(c["objs"])[0], q)
        fresh.append(plain(snapshot(r)))
    objs, held = world(c["objs"])
    got, intact = [], []
    for op in c["ops"]:
        if op[0] == "q":
            r, ok = ask(objs, op[1])
            got.append(plain(snapshot(r)))
            intact.append(ok)
            if op[2] and "v" in r:
                scribble(r["v"])
        else:
            for a in held:
                a[...] = 55
    after = []
    for q in qs:
        r, _ = ask(world(c["objs"])[0], q)
        after.append(plain(snapshot(r)))
    named = all_named()
    return {"fresh": fresh, "got": got, "after": after, "intact": intact, "named": before == named}


FUNCS = {
    "LLL": lambda E: cry.LLL(E),
    "hnf_det": lambda n, N: cry.HermiteNormalForms(n, N),
    "hnf_diag": lambda d: mod("crystallography.hnf").hnf_from_diag(d),
    "hnfd": lambda M: cry.HNFDecomposition(M),
    "hnfdH": lambda M: cry.HNFDecomposition(M, onlyH=True),
    "divisors": lambda n: list(util.divisors(n)),
    "rotation": lambda t, z: util.rotation(t, z),
    "Euler": lambda a: util.Euler(a),
    "skew": lambda n, p, T: mod("crystallography.spacegroup").skew(n, p, T),
    "stereo": lambda p, z: mod("crystallography.stereogram").stereo_proj(p, z),
    "poles": lambda p, z: mod("crystallography.stereogram").pole_figure(p, z),
    "vertex": lambda o, E: cry.vertex(o, E, 3),
    "bonds": lambda v: cry.bonds(v),
    "direc": lambda L, n: structrans.marttrans.direc_trans(L, n),
    "plane": lambda L, n: structrans.marttrans.plane_trans(L, n),
    "mat_dot": lambda a, b: mod("mat_math").mat_dot(a, b),
    "mat_T": lambda a: mod("mat_math").mat_T(a),
    "mat_det": lambda a: mod("mat_math").mat_det(a),
    "mat_trace": lambda a: mod("mat_math").mat_trace(a),
    "cofactor": lambda a: mod("mat_math").cofactor(a),
    "sort_eig": lambda a: util.utils.sort_eig(a),
    "pos_def": lambda a: bool(util.utils.pos_def_sym(a)),
    "AM": lambda C: structrans.marttrans.AM_Solver(C),
    "rank1": lambda C: util.solve_rank1(C),
    "compat": lambda A, B: bool(structrans.marttrans.isCompatible(A, B)),
    "cauchy": lambda x, A, B: mod("marttrans.lat_cor.dist").Cauchy_dist(x, A, B),
    "strain": lambda x, A, B: mod("marttrans.lat_cor.dist").strain_dist(x, A, B),
    "eric": lambda x, A, B: mod("marttrans.lat_cor.dist").Eric_dist(x, A, B),
}


def functions(c):
    """each call twice, in the given order; results and arguments are overwritten in between"""
    first, got, intact = [], [], []
    for rnd in range(2):
        calls = list(enumerate(c["calls"]))
        if rnd:
            calls = [calls[i] for i in c["order"]]
        for i, (name, args) in calls:
            args = [np.array(a["nd"]) if isinstance(a, dict) else list(a) if isinstance(a, list) else a for a in args]
            snap = plain(norm_answer(args))
            r = attempt(FUNCS[name], *args)
            intact.append([name, plain(norm_answer(args)) == snap])
            (got if rnd else first).append([i, plain(snapshot(r))])
            if "v" in r:
                # what was returned must not be the caller's array
                scribble(r["v"])
                intact.append([name + " (result aliases an argument)", plain(norm_answer(args)) == snap])
            scribble(args)
    return {"first": first, "got": got, "intact": intact}


def generators(c):
    """several generators of integer vectors, advanced in turns"""
    g = mod("marttrans.lat_cor.main_direct").vec_generator
    mk = lambda s: g(s["r"], s["dim"]) if s.get("x0") is None else g(s["r"], s["dim"], s["x0"])
    alone = []
    for s in c["gens"]:
        alone.append([[int(t) for t in v] for v in mk(s)])
    its = [mk(s) for s in c["gens"]]
    out = [[] for _ in its]
    left = set(range(len(its)))
    turn = 0
    while left:
        k = c["turns"][turn % len(c["turns"])] % len(its)
        turn += 1
        if turn % len(c["turns"]) == 0:
            k = min(left)
        if k not in left:
            continue
        try:
            v = next(its[k])
            out[k].append([int(t) for t in v])
            if isinstance(v, (list, np.ndarray)) and c.get("scribble"):
                scribble(v)
        except StopIteration:
            left.discard(k)
    return {"alone": alone, "turns": out}


# ------------------------------------------------------------------ C25
def construct(c):
    """try it; -> "ok" or the exception"""
    k, a, how = c["kind"], c["args"], c.get("how", "list")
    m = structrans.marttrans

    def f():
        if k == "lattice":
            x = a[0]
            if how != "list":
                x = form(x, how)
            return Lattice(x)
        if k == "bravais":
            p = a[1]
            if how == "array" and isinstance(p, list):
                p = np.array(p)
            kw = {} if a[2] is None else {"dim": a[2]}
            return BravaisLattice(a[0], p, **kw)
        if k == "euler":
            return util.Euler(*a)
        if k == "pair":
            x = [np.array(y) if how == "array" and isinstance(y, list) else y for y in a]
            return mod("marttrans.twin").TwinPair(*x)
        if k in ("iscompatible", "habitplanes"):
            return getattr(mod("marttrans.twin").TwinPair(np.array(a[0]), np.array(a[1])), k)(a[2])
        if k == "setLaue":
            return m.Martensite().setLaue(a[0])
        if k == "setU":
            return m.Martensite().setU(*[np.array(x) if how == "array" and isinstance(x, list) else x for x in a])
        if k == "rank1":
            return util.solve_rank1(np.array(a[0]))
        if k == "latcor":
            A, M = a[:2], a[2:4]
            kw = dict(c["kw"])
            return {"hnf": m.lat_cor_hnf, "direct": m.lat_cor_direct}[c["which"]](A[0], A[1], M[0], M[1], disp=0, **kw)
        raise RuntimeError("adapter bug")
    r = attempt(f)
    return {"ok": True} if "v" in r else r


# ------------------------------------------------------------------ C27
def units(c):
    """everything that has lengths in it, for lengths multiplied by the given factors"""
    out = []
    for s in c["factors"]:
        r = {}
        if "brav" in c:
            b = dict(c["brav"])
            b["par"] = [p * s if i < c["nlen"] else p for i, p in enumerate(b["par"])]
            l = brav(b)
            r["C"], r["T"] = l.conventional_base(), l.conventional_trans()
            r["prim"], r["conv"] = l.to_primitive_Miller(c["idx"]), l.to_conventional_Miller(c["idx"])
            cell = cry.UnitCell(np.array(c["origin"]) * s, b["id"], b["par"], N=b["dim"])
            r["verts"] = cell.getPrimitive()
            r["cverts"] = cell.getConventionalVex()
            r["points"] = cell.getConventional()
            E = l.base()
        else:
            E = np.array(c["E"]) * s
            l = Lattice(E)
        n = len(E)
        r["E"] = E
        U = np.array(c["U"])
        if n in (2, 3):
            r["groups"] = [getattr(l, f)().matrices() for f in ("Laue_group", "point_group", "special_lattice_group", "lattice_group")]
        l2 = Lattice(E.dot(U))
        near = [Lattice(E.dot(np.array(D))) for D in c["others"]]
        r["eq"] = [bool(l == l2)] + [bool(l == x) for x in near] + [bool(x == l) for x in near]
        r["in"] = [bool(l.inlatticegroup(np.array(M))) for M in c["Ms"]] + [bool(l.inpointgroup(np.array(Q))) for Q in c["Qs"]]
        r["lll"] = cry.LLL(E.dot(U))
        out.append(r)
    return out


def units_dist(c):
    m = mod("marttrans.lat_cor.dist")
    out = []
    for s in c["factors"]:
        E1, E2 = np.array(c["E1"]) * s, np.array(c["E2"]) * s
        E2i = la.inv(E2)
        L = [np.array(x) for x in c["L"]]
        out.append({"Cauchy": [float(m.Cauchy_dist(x, E1, E2i)) for x in L], "strain": [float(m.strain_dist(x, E1, E2i)) for x in L],
                    "Ericksen": [float(m.Eric_dist(x, E1, E2)) for x in L],
                    "vec": m.Cauchy_dist_vec(np.array([x.flatten() for x in L]), E1, E2i)})
    return out


def units_search(c):
    out = []
    for s in c["factors"]:
        f = lambda b, k: dict(b, par=[p * s if i < k else p for i, p in enumerate(b["par"])])
        A, M = f(c["A"], c["nA"]), f(c["M"], c["nM"])
        if c["which"] == "opt":
            lo = mod("marttrans.lat_cor.lat_opt").lat_opt
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                r = lo(brav(A).base(), brav(M).base(), **dict(c["kw"]))
            out.append([{"d": float(d)} for d in r["dopt"]])
        else:
            np.random.seed(c["seed"])
            r = run_cor({"which": c["which"], "A": A, "M": M, "kw": dict(c["kw"], dim=A["dim"], disp=0)})
            out.append([dict((k, v) for k, v in x.items() if k in ("d", "lams")) for x in r["sols"]])
    return out


# ------------------------------------------------------------------ C28
def quart(c):
    """quart_min of |K K^T|^2 with K = E1 L E2^-1 as a form in the entries of L"""
    q = mod("marttrans.lat_cor.quartic_opt").quart_min
    E1, F = np.array(c["E1"]), la.inv(np.array(c["E2"]))
    n = len(E1)
    K = np.einsum("ia,bj->ijab", E1, F).reshape(n, n, n * n)          # K_ij = K[i,j,x] L_x
    P = np.einsum("ikx,jky->ijxy", K, K)
    T = np.einsum("ijxy,ijzw->xyzw", P, P)
    T = T.transpose(c["axes"])
    if c.get("sym"):
        import itertools
        T = sum(T.transpose(p) for p in itertools.permutations(range(4))) / 24.0
    T = np.ascontiguousarray(T * c.get("factor", 1.0))
    keep = T.copy()
    out = []
    for s in c["seeds"]:
        np.random.seed(s)
        out.append(q(T))
    return {"q": [float(x) for x in out], "intact": bool(np.array_equal(T, keep))}


# ------------------------------------------------------------------ C29
def _nested(x, f):
    return f(_nested(v, f) for v in x) if isinstance(x, list) else x


def given_as(x, how):
    """the numbers x (nested lists) in another container"""
    if how in ("list", "tuple"):
        return _nested(x, list if how == "list" else tuple)
    if how == "floats":
        return np.array(x, dtype=float).tolist()
    if how == "mixed":
        conv = lambda v: [conv(z) for z in v] if isinstance(v, list) else int(v) if float(v).is_integer() else float(v)
        return conv(x)
    if how == "rows":
        return [np.array(r) for r in x]
    if how in ("int", "int32"):
        return np.array(x, dtype="int64" if how == "int" else how)
    if how == "array":
        return np.array(x)
    a = np.array(x, dtype=float)
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full([2 * s for s in a.shape], 77.0)
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        b[sl] = a
        return b[sl]
    if how == "reversed":
        sl = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[sl])[sl]
    if how == "readonly":
        a.setflags(write=False)
    return a


def _f_lattice(E, Q, M):
    l = Lattice(E)
    return [l.base(), l.dimension(), l.Laue_group().order(), l.point_group().order(), l.lattice_group().order(), l.special_lattice_group().matrices(),
            bool(l.inpointgroup(Q)), bool(l.inlatticegroup(M)), bool(l == Lattice(np.array(E, dtype=float))), str(Lattice(np.array(E, dtype=float)).base().shape)]


def _f_bravais(i, dim, p, idx):
    l = BravaisLattice(i, p, dim=dim)
    return [l.base(), l.conventional_base(), l.lat_param(), str(l), l.Laue_group().order(), l.to_primitive_Miller(idx), l.to_conventional_Miller(idx)]


def _f_martensite(U):
    M = mod("marttrans.martensite").Martensite
    return [x for m in (M(U), M().setU(U)) for x in (m.getU(), m.isreversible(), m.getvariants() if m.isreversible() else None)]


def _f_twin(U, V):
    t = mod("marttrans.twin").TwinPair(U, V)
    out = [t.Ui(), t.Uj(), t.istwinnable(), t.isconventional()]
    if t.istwinnable() and t.isconventional():
        out += [t.iscompound(), t.volumefrac(), t.iscompatible()]
        if not t.iscompound():
            out += [t.XI(), t.XII()]
    return out


def _f_system(Us, G):
    t = mod("marttrans.twin").TwinSystem(Us, MatrixGroup(G))
    return [t.Ulist(), t.TwinTable(), t.getConventional(), t.getCompound(), t.getTypeI(), t.Laue().order()]


def _f_cell(o, dim, i, p, o2):
    m = mod("crystallography.visualization")
    u = m.UnitCell(o, i, p, N=dim)
    out = [u.getPrimitive(), u.getConventionalVex(), u.getConventional(), u.getConventionalbonds(), u.getPrimitivebonds(), u.copyTo(o2, u.getPrimitive())]
    u.setOrigin(o2)
    return out + [u.getPrimitive(), u.getConventionalVex(), u.getConventional()]


def _f_group(G, H):
    a, b = MatrixGroup(G), MatrixGroup(H)
    return [a.order(), [np.array(x, dtype=float) for x in a.matrices()], bool(a.hassubgroup(b)), bool(b.hassubgroup(a))]


def _f_quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def _f_opt(E1, E2, kind):
    r = _f_quiet(mod("marttrans.lat_cor.lat_opt").lat_opt, E1, E2, nsol=2, dist=kind, disp=0)
    return [float(d) for d in r["dopt"]]


FORM_OPS = {
    "lattice": _f_lattice,
    "bravais": _f_bravais,
    "hnfd": lambda M: [np.array(x, dtype=float) for x in cry.HNFDecomposition(M)] + [np.array(cry.HNFDecomposition(M, onlyH=True), dtype=float)],
    "hnf_diag": lambda d: mod("crystallography.hnf").hnf_from_diag(d).astype(float),
    "LLL": lambda E: {"basis": cry.LLL(E)},
    "rotation": lambda t, a: util.rotation(t, a),
    "euler": lambda a, o: util.Euler(a, o),
    "skew": lambda n, p, T: list(mod("crystallography.spacegroup").skew(n, p, T)),
    "stereo": lambda p, z: mod("crystallography.stereogram").stereo_proj(p, z),
    "pole_figure": lambda ps, z: mod("crystallography.stereogram").pole_figure(ps, z),
    "direc": lambda L, n: mod("marttrans.orientation_relationship").direc_trans(L, n),
    "plane": lambda L, n: mod("marttrans.orientation_relationship").plane_trans(L, n),
    "martensite": _f_martensite,
    "twin": _f_twin,
    "system": _f_system,
    "compatible": lambda A, B: mod("marttrans.Compatibility").isCompatible(A, B),
    "am": lambda C: mod("marttrans.Compatibility").AM_Solver(C),
    "rank1": lambda C: util.utils.solve_rank1(C),
    "cell": _f_cell,
    "vertex": lambda o, E: mod("crystallography.visualization").vertex(o, E, len(E)),
    "box": lambda v, E: mod("crystallography.visualization").box(v, E, len(E)),
    "bonds": lambda v: mod("crystallography.visualization").bonds(v),
    "group": _f_group,
    "mat_dot": lambda a, b: mod("mat_math").mat_dot(a, b).astype(float),
    "mats": lambda a: [np.array(f(a), dtype=float) for f in (mod("mat_math").mat_trace, mod("mat_math").mat_det, mod("mat_math").mat_T)],
    "rows": lambda a: [x.astype(float) for x in mod("mat_math").unique_rows(a)],
    "cofactor": lambda A: mod("mat_math").cofactor(A),
    "dists": lambda x, A, B: [float(mod("marttrans.lat_cor.dist").Cauchy_dist(x, A, la.inv(B))), float(mod("marttrans.lat_cor.dist").strain_dist(x, A, la.inv(B))),
                              float(mod("marttrans.lat_cor.dist").Eric_dist(x, A, B))],
    "vec": lambda xs, A, Bi: mod("marttrans.lat_cor.dist").Cauchy_dist_vec(xs, A, Bi),
    "opt": _f_opt,
    "generator": lambda r, x: [list(map(int, v)) for v in mod("marttrans.lat_cor.main_direct").vec_generator(r, len(x), x)],
}


def given(c):
    """the answers of one operation for the same numbers in different containers"""
    out = []
    for hows in c["forms"]:
        args = [given_as(a, h) if isinstance(a, list) else a for a, h in zip(c["args"], hows)]
        out.append(attempt(FORM_OPS[c["op"]], *args))
    return out
