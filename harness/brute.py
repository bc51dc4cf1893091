"""Brute-force oracle: all integer matrices within a distance, in 2D and 3D."""
import math

import numpy as np
import numpy.linalg as la

from harness import gen as g


def columns(EA, EM, D, kind):
    """for each column k: integer vectors x such that |EA x| is small enough to belong to a matrix of distance <= D"""
    n = len(EA)
    nf = float(((EM.T.dot(EM)) ** 2).sum())
    out = []
    for k in range(n):
        e = la.norm(EM[:, k])
        if kind == 0:
            R = math.sqrt(1 + math.sqrt(D)) * e
        elif kind == 1:
            R = (1 + math.sqrt(D)) * e
        else:
            R = math.sqrt(e * e + math.sqrt(D * nf))
        out.append(g.short_vectors(EA, R * (1 + 1e-9)))
    return out


def _dist(EA, EMi, EM, L, kind):
    if kind == 2:
        M = np.einsum("kji,kjl->kil", EA.dot(L).transpose(1, 0, 2), EA.dot(L).transpose(1, 0, 2)) - EM.T.dot(EM)
        return (M ** 2).sum(axis=(1, 2)) / ((EM.T.dot(EM)) ** 2).sum()
    K = np.einsum("ij,kjl,lm->kim", EA, L, EMi)
    C = np.einsum("kji,kjl->kil", K, K)
    if kind == 0:
        return ((C - np.eye(len(EA))) ** 2).sum(axis=(1, 2))
    s = np.sqrt(np.maximum(la.eigvalsh(C), 0))
    return ((s - 1) ** 2).sum(axis=1)


def search(EA, EM, D, kind=0, dets=None, limit=4 * 10 ** 7):
    """-> list of (d, L) with distance <= D and nonzero determinant (or in dets), sorted; None if too many candidates"""
    EA, EM = np.asarray(EA, float), np.asarray(EM, float)
    n = len(EA)
    cols = columns(EA, EM, D, kind)
    total = 1
    for c in cols:
        total *= len(c)
    if total > limit:
        return None
    EMi = la.inv(EM)
    found = []
    if n == 2:
        blocks = [None]
    else:
        blocks = range(len(cols[2]))
    a, b = cols[0], cols[1]
    P = np.empty((len(a) * len(b), n, 2), int)
    P[:, :, 0] = np.repeat(a, len(b), axis=0)
    P[:, :, 1] = np.tile(b, (len(a), 1))
    if n == 3:
        cr = np.cross(P[:, :, 0], P[:, :, 1])
    for k in blocks:
        if n == 2:
            L = P
            det = L[:, 0, 0] * L[:, 1, 1] - L[:, 0, 1] * L[:, 1, 0]
        else:
            det = cr.dot(cols[2][k])
        ok = det != 0 if dets is None else np.isin(det, dets)
        if not ok.any():
            continue
        if n == 3:
            Q = P[ok]
            L = np.concatenate([Q, np.repeat(cols[2][k].reshape(1, 3, 1), len(Q), axis=0)], axis=2)
        else:
            L = L[ok]
        for s in range(0, len(L), 200000):
            X = L[s:s + 200000]
            d = _dist(EA, EMi, EM, X.astype(float), kind)
            m = d <= D * (1 + 1e-9) + 1e-12
            found.extend(zip(d[m].tolist(), X[m]))
    found.sort(key=lambda t: t[0])
    return found


def classes(found, G1, G2):
    """one (d, L) for every class under L -> M1 L M2"""
    seen = set()
    out = []
    for d, L in found:
        L = np.ascontiguousarray(L, dtype=np.int64)
        if L.tobytes() in seen:
            continue
        for a in G1:
            for b in G2:
                seen.add(np.ascontiguousarray(a.dot(L).dot(b), dtype=np.int64).tobytes())
        out.append((d, L))
    return out
