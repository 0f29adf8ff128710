"""Synthetic group covariances for the end-to-end run of the covariance chain (pure Python values, also used by the stand-in for NJOY)."""
from vlib import boxer


def r4(v):
    return float('%.3E' % v)


def data(mat, mt, mf, T, groups):
    """bounds, cross sections, relative deviations, relative covariance, all from low to high energy"""
    G = len(groups) - 1
    s = (mat % 97 + 3 * mt + 7 * mf + int(T) // 100) % 53
    b = [r4(g) for g in groups]
    xs = [r4(0.5 + 0.37 * ((i * 5 + s) % 11)) for i in range(G)]
    rel = [r4(0.01 * (1 + (i + s) % 6)) for i in range(G)]
    cov = [[r4(rel[i] * rel[j] * (1.0 if i == j else (0.5 if (i + j + s) % 2 else -0.25) ** abs(i - j) if abs(i - j) < 4 else 0.0)) for j in range(G)]
           for i in range(G)]
    for i in range(G):
        for j in range(i):
            cov[i][j] = cov[j][i]
    return b, xs, rel, cov


def tape(mat, mts, mf, T, groups):
    out = []
    for k, mt in enumerate(mts):
        b, xs, rel, cov = data(mat, mt, mf, T, groups)
        G = len(xs)
        for itype, v in ((0, b), (1, xs), (2, rel)):
            if itype == 0 and k:
                continue
            xv, ic = boxer.encode([[x] for x in v], False)
            out += boxer.record(itype, mat, mts[0] if itype == 0 else mt, mat, mts[0] if itype == 0 else mt, xv, ic, len(v), 1)
        for i in range(G):
            xv, ic = boxer.encode([cov[i][i:]], False)
            out += boxer.record(3, mat, mt, mat, mt, xv, ic, G, 0, nrowm=0 if i == G - 1 else 1)
    return '\n'.join(out) + '\n'
