"""Reference encoder/decoder of the BOXER format, written from the format's documentation (independent of boxer2mat.f)."""
import numpy as np

PER = {1: (80, 1), 2: (40, 2), 3: (26, 3), 4: (20, 4), 5: (16, 5), 6: (13, 6),
       7: (11, 7), 8: (10, 8), 9: (8, 9), 10: (8, 10), 11: (7, 11), 12: (6, 12), 13: (6, 13), 14: (5, 14)}
DEC = {7: 4, 8: 5, 9: 2, 10: 3, 11: 4, 12: 5, 13: 6, 14: 7}


def field(v, f):
    w = PER[f][1]
    if f <= 6:
        s = '%*d' % (w, v)
    elif f <= 8:
        s = '%*.*f' % (w, DEC[f], v)
    else:
        s = '%*.*E' % (w, DEC[f], v)
    assert len(s) == w, (v, f, s)
    return s


def lines(vals, f):
    n = PER[f][0]
    fs = [field(v, f) for v in vals]
    return [''.join(fs[i:i + n]) for i in range(0, len(fs), n)]


def record(itype, mat, mt, mat1, mt1, xval, icon, nrow, ncolh, nvf=10, ncf=3, nrowm=0, text=' corr  -a-3'):
    """one BOXER data block as text lines"""
    head = '%1d%-35s%5d%4d%5d%4d%4d%3d%4d%3d%4d%4d%4d' % (itype, text[:35], mat, mt, mat1, mt1, len(xval), nvf, len(icon), ncf, nrowm, nrow, ncolh)
    return [head] + lines(xval, nvf) + lines(icon, ncf)


def decode(pages, nrow, ncolh):
    """pages: list of (xval, icon); returns the nrow x ncol array"""
    sym = ncolh == 0
    ncol = nrow if sym else ncolh
    C = np.zeros((nrow, ncol))
    cells = [(i, j) for i in range(nrow) for j in range(i if sym else 0, ncol)]
    k = 0
    for xval, icon in pages:
        first_row = cells[k][0] if k < len(cells) else None
        iv = 0
        for ic in icon:
            if ic < 0:
                v = xval[iv]
                iv += 1
            for _ in range(abs(ic)):
                i, j = cells[k]
                k += 1
                if ic > 0:
                    v = C[i - 1, j] if i > first_row else 0.0
                C[i, j] = v
                if sym:
                    C[j, i] = v
    assert k == len(cells), (k, len(cells))
    return C


def encode(C, sym, maxrun=99):
    """compress like COVR: prefer copying from the row above, else runs of equal values"""
    C = np.asarray(C, float)
    nrow, ncol = C.shape
    cells = [(i, j) for i in range(nrow) for j in range(i if sym else 0, ncol)]
    vals = [C[c] for c in cells]
    above = [C[i - 1, j] if i > 0 else 0.0 for i, j in cells]
    xval, icon, k = [], [], 0
    while k < len(cells):
        n = 0
        while k + n < len(cells) and vals[k + n] == above[k + n] and n < maxrun:
            n += 1
        m = 0
        while k + m < len(cells) and vals[k + m] == vals[k] and m < maxrun:
            m += 1
        if n >= m:
            icon.append(n)
            k += n
        else:
            icon.append(-m)
            xval.append(vals[k])
            k += m
    return xval, icon
