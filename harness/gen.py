"""Generators (Hypothesis strategies of JSON-able cases) and small oracle helpers."""
import itertools
import math
from fractions import Fraction

import numpy as np
import numpy.linalg as la
from hypothesis import strategies as st


# ---------------------------------------------------------------- integers
def idet(M):
    """exact determinant of an integer matrix (Bareiss)"""
    A = [[int(x) for x in r] for r in M]
    n, sign, prev = len(A), 1, 1
    for k in range(n - 1):
        if A[k][k] == 0:
            for i in range(k + 1, n):
                if A[i][k] != 0:
                    A[k], A[i] = A[i], A[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                A[i][j] = (A[i][j] * A[k][k] - A[i][k] * A[k][j]) // prev
        prev = A[k][k]
    return sign * A[-1][-1]


def imul(A, B):
    return [[sum(int(a) * int(b) for a, b in zip(r, c)) for c in zip(*B)] for r in A]


def ieye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def ops_strategy(n, maxops=8, maxt=3):
    """a unimodular matrix as a list of column operations [i, j, t]; i == j: negate column i"""
    if n == 1:
        return st.lists(st.just([0, 0, 0]), max_size=1)
    return st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1),
                              st.integers(-maxt, maxt)).map(list), max_size=maxops)


def unimodular(n, ops):
    U = ieye(n)
    for i, j, t in ops:
        for r in range(n):
            if i == j:
                U[r][i] = -U[r][i]
            else:
                U[r][i] += t * U[r][j]
    return U


def int_matrix(n, lim):
    return st.lists(st.lists(st.integers(-lim, lim), min_size=n, max_size=n), min_size=n, max_size=n)


# ---------------------------------------------------------------- reals
def fl(lo, hi, k=1000):
    """floats with few decimals"""
    return st.integers(int(math.ceil(lo * k - 1e-9)), int(math.floor(hi * k + 1e-9))).map(lambda i: i / k)


def wellcond(n, lim=3.0, k=100, mindet=0.05, maxcond=50.0):
    """n x n matrices with decent condition number"""
    ent = fl(-lim, lim, k)

    def fix(M):
        A = np.array(M)
        # push it away from singularity deterministically
        for s in (0.0, 1.0, 2.0, 3.5, 7.0):
            B = A + s * np.eye(n)
            if abs(la.det(B)) > mindet and la.cond(B) < maxcond:
                return B.round(6).tolist()
        return (A * 0.01 + np.eye(n)).round(6).tolist()
    return st.lists(st.lists(ent, min_size=n, max_size=n), min_size=n, max_size=n).map(fix)


def rodrigues(axis, angle):
    a = np.array(axis, float)
    a = a / la.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(angle) * K + (1 - math.cos(angle)) * K.dot(K)


axis_int = st.lists(st.integers(-5, 5), min_size=3, max_size=3).filter(lambda v: any(v))


def rotation_case():
    return st.tuples(axis_int, fl(-180, 180, 10)).map(list)


def rot_of(c):
    return rodrigues(c[0], math.radians(c[1]))


def is_rotation(Q, tol=1e-8):
    Q = np.asarray(Q, float)
    return Q.shape[0] == Q.shape[1] and np.allclose(Q.dot(Q.T), np.eye(len(Q)), atol=tol) and abs(la.det(Q) - 1) < tol


# ---------------------------------------------------------------- groups
def signed_perms(n):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product((1, -1), repeat=n):
            M = np.zeros((n, n), int)
            for i in range(n):
                M[i, p[i]] = s[i]
            out.append(M)
    return out


CUBIC_ROT = [M for M in signed_perms(3) if round(la.det(M)) == 1]
SQUARE_ALL = signed_perms(2)
SQUARE_ROT = [M for M in SQUARE_ALL if round(la.det(M)) == 1]


def _hex2():
    rots = [np.array([[math.cos(k * math.pi / 3), -math.sin(k * math.pi / 3)],
                      [math.sin(k * math.pi / 3), math.cos(k * math.pi / 3)]]) for k in range(6)]
    return rots, rots + [r.dot(np.diag([1, -1])) for r in rots]


HEX2_ROT, HEX2_ALL = _hex2()


def _emb(M):
    d = round(la.det(M))
    R = np.zeros((3, 3))
    R[:2, :2] = M
    R[2, 2] = d
    return R


HEX_ROT = [_emb(M) for M in HEX2_ALL]


def same(A, B, tol=1e-6):
    return A.shape == B.shape and np.abs(A - B).max() < tol


def member(A, L, tol=1e-6):
    return any(same(np.asarray(A, float), np.asarray(B, float), tol) for B in L)


def same_set(L1, L2, tol=1e-6):
    return len(L1) == len(L2) and all(member(A, L2, tol) for A in L1) and all(member(A, L1, tol) for A in L2)


def distinct(L, tol=1e-6):
    return not any(same(np.asarray(L[i], float), np.asarray(L[j], float), tol)
                   for i in range(len(L)) for j in range(i))


def closure(gens, n, limit=200):
    els = [np.eye(n)]
    frontier = [np.eye(n)]
    while frontier:
        new = []
        for f in frontier:
            for g in gens:
                x = f.dot(g)
                if not member(x, els):
                    els.append(x)
                    new.append(x)
        frontier = new
        if len(els) > limit:
            raise ValueError("not finite")
    return els


def is_group(L, tol=1e-6):
    n = len(L[0])
    return distinct(L) and member(np.eye(n), L) and all(member(np.dot(a, b), L, tol) for a in L for b in L)


def short_vectors(E, R):
    """all integer x with |E x| <= R"""
    E = np.asarray(E, float)
    Ei = la.inv(E)
    b = [int(math.floor(la.norm(Ei[i]) * R + 1e-9)) for i in range(len(E))]
    X = np.array(list(itertools.product(*[range(-k, k + 1) for k in b])))
    V = X.dot(E.T)
    return X[(V * V).sum(axis=1) <= R * R * (1 + 1e-9)]


def reduce_basis(E):
    """a reduced basis of the lattice (pairwise reduction, small dimensions): E U, U"""
    E = np.asarray(E, float)
    n = len(E)
    U = np.eye(n)
    B = E.copy()
    for _ in range(1000):
        done = True
        for i in range(n):
            for j in range(n):
                if i != j:
                    t = round(float(B[:, i].dot(B[:, j]) / B[:, j].dot(B[:, j])))
                    if t:
                        c = B[:, i] - t * B[:, j]
                        if c.dot(c) < B[:, i].dot(B[:, i]) * (1 - 1e-12):
                            B[:, i] = c
                            U[:, i] -= t * U[:, j]
                            done = False
        if done:
            break
    return B, U


def automorphisms(E, tol=1e-6):
    """all orthogonal Q mapping the lattice with basis E onto itself (relative tolerance tol)"""
    B, _ = reduce_basis(E)
    n = len(B)
    G = B.T.dot(B)
    R = math.sqrt(max(G[i, i] for i in range(n)))
    X = short_vectors(B, R * (1 + tol))
    V = X.dot(B.T)
    N = (V * V).sum(axis=1)
    cand = [[k for k in range(len(X)) if abs(N[k] - G[i, i]) < tol * G[i, i]] for i in range(n)]
    out = []

    def rec(i, chosen):
        if i == n:
            W = np.array([V[k] for k in chosen]).T
            out.append(W.dot(la.inv(B)))
            return
        for k in cand[i]:
            if all(abs(V[k].dot(V[chosen[j]]) - G[i, j]) < tol * math.sqrt(G[i, i] * G[j, j]) for j in range(i)):
                rec(i + 1, chosen + [k])
    rec(0, [])
    return out


# ---------------------------------------------------------------- Bravais lattices
NPAR3 = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6]
NPAR2 = [1, 2, 2, 1, 3]


def triclinic_ok(al, be, ga):
    ca, cb, cg = (math.cos(math.radians(x)) for x in (al, be, ga))
    return 1 + 2 * ca * cb * cg - ca ** 2 - cb ** 2 - cg ** 2 > 0.05


def bravais3(ids=range(1, 15), lo=0.5, hi=5.0, k=100):
    L = fl(lo, hi, k)

    def par(i):
        if i in (1, 2, 3):
            return st.tuples(L)
        if i in (4, 6, 7):
            return st.tuples(L, L)
        if i == 5:
            return st.tuples(L, fl(35, 115, 2))
        if i in (8, 9, 10, 11):
            return st.tuples(L, L, L)
        if i in (12, 13):
            return st.tuples(L, L, L, fl(40, 140, 2))
        return st.tuples(L, L, L, fl(45, 125, 2), fl(45, 125, 2), fl(45, 125, 2)).map(
            lambda t: t if triclinic_ok(*t[3:]) else t[:3] + tuple(90 + (x - 90) * 0.3 for x in t[3:]))
    return st.sampled_from(list(ids)).flatmap(lambda i: par(i).map(lambda p: {"dim": 3, "id": i, "par": list(p)}))


def bravais2(ids=range(1, 6), lo=0.5, hi=5.0, k=100):
    L = fl(lo, hi, k)

    def par(i):
        if i in (1, 4):
            return st.tuples(L)
        if i in (2, 3):
            return st.tuples(L, L)
        return st.tuples(L, L, fl(35, 145, 2))
    return st.sampled_from(list(ids)).flatmap(lambda i: par(i).map(lambda p: {"dim": 2, "id": i, "par": list(p)}))


def bravais():
    return st.one_of(bravais3(), bravais3(), bravais2())


def conv_base(c):
    """conventional basis in the conventional orientation, from the parameters (oracle)"""
    p, i = c["par"], c["id"]
    cos, sin = (lambda x: math.cos(math.radians(x))), (lambda x: math.sin(math.radians(x)))
    if c["dim"] == 2:
        if i == 1:
            return np.diag([p[0], p[0]]).astype(float)
        if i in (2, 3):
            return np.diag([p[0], p[1]]).astype(float)
        if i == 4:
            return np.array([[p[0], p[0] / 2], [0, p[0] * math.sqrt(3) / 2]])
        return np.array([[p[0], p[1] * cos(p[2])], [0, p[1] * sin(p[2])]])
    if i in (1, 2, 3):
        return np.diag([p[0]] * 3).astype(float)
    if i == 4:
        return np.array([[p[0], p[0] / 2, 0], [0, p[0] * math.sqrt(3) / 2, 0], [0, 0, p[1]]])
    if i == 5:
        # e_k = a (u e_k-th + v others): symmetric under cyclic permutation, angle alpha
        a, ca = p[0], cos(p[1])
        # u^2 + 2 v^2 = 1, 2 u v + v^2 = ca ; sum s = u + 2v = sqrt(1+2ca); u - v = -sqrt(1-ca)
        s, d = math.sqrt(1 + 2 * ca), -math.sqrt(1 - ca)
        v = (s - d) / 3
        u = v + d
        return a * np.array([[u, v, v], [v, u, v], [v, v, u]])
    if i in (6, 7):
        return np.diag([p[0], p[0], p[1]]).astype(float)
    if i in (8, 9, 10, 11):
        return np.diag(p[:3]).astype(float)
    if i in (12, 13):
        return np.array([[p[0], 0, p[2] * cos(p[3])], [0, p[1], 0], [0, 0, p[2] * sin(p[3])]])
    a, b, cc, al, be, ga = p
    cx = cc * cos(be)
    cy = cc * (cos(al) - cos(be) * cos(ga)) / sin(ga)
    return np.array([[a, b * cos(ga), cx], [0, b * sin(ga), cy], [0, 0, math.sqrt(cc * cc - cx * cx - cy * cy)]])


CENTER3 = {2: [[.5, .5, 0], [0, .5, .5], [.5, 0, .5]], 3: [[.5, .5, .5]], 7: [[.5, .5, .5]], 9: [[.5, .5, 0]],
           10: [[.5, .5, 0], [0, .5, .5], [.5, 0, .5]], 11: [[.5, .5, .5]], 13: [[.5, .5, 0]]}
CENTER2 = {3: [[.5, .5]]}


def centering(c):
    return (CENTER3 if c["dim"] == 3 else CENTER2).get(c["id"], [])


def prim_base(c):
    """some basis of the Bravais lattice (oracle; not the one the code chooses)"""
    C = conv_base(c)
    ce = centering(c)
    n = c["dim"]
    if not ce:
        return C
    # pick n independent vectors generating everything
    gens = [np.eye(n)[:, k] for k in range(n)] + [np.array(v) for v in ce]
    vol = 1.0 / (len(ce) + 1)
    for t in itertools.combinations(gens, n):
        M = np.array(t).T
        if abs(abs(la.det(M)) - vol) < 1e-9:
            return C.dot(M)
    raise AssertionError
