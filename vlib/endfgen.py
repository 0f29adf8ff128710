"""Writes ENDF-6 text from plain values, independently of the code under test."""


def fl(x, style='std'):
    """11-column ENDF number"""
    if x is None:
        return ' ' * 11
    if x == 0:
        return ' 0.000000+0'
    s = '%.6e' % x
    m, e = s.split('e')
    e = int(e)
    if abs(e) >= 10:
        m = '%.5e' % x
        m, e2 = m.split('e')
        e = int(e2)
        if abs(e) >= 100:
            m, e2 = ('%.4e' % x).split('e')
            e = int(e2)
    t = '%s%s%d' % (m, '+' if e >= 0 else '-', abs(e))
    if x > 0:
        t = ' ' + t
    return t.rjust(11)


def num(v):
    if isinstance(v, str):
        assert len(v) == 11
        return v
    return fl(v) if isinstance(v, float) else '%11d' % v


def line(fields, mat, mf, mt, ns=0):
    """fields: up to six numbers (float -> ENDF float, int -> integer, str -> verbatim)"""
    body = ''.join(num(v) for v in fields).ljust(66)
    assert len(body) == 66, body
    return '%s%4d%2d%3d%5d\n' % (body, mat, mf, mt, ns % 100000)


def text(s, mat, mf, mt, ns=0):
    return '%s%4d%2d%3d%5d\n' % (s.ljust(66)[:66], mat, mf, mt, ns % 100000)


def cont(c1, c2, l1, l2, n1, n2, mat=1, mf=1, mt=1):
    return line([float(c1) if not isinstance(c1, str) else c1, float(c2) if not isinstance(c2, str) else c2, l1, l2, n1, n2], mat, mf, mt)


def chunks(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def lst(c1, c2, l1, l2, n2, vals, mat=1, mf=1, mt=1):
    out = cont(c1, c2, l1, l2, len(vals), n2, mat, mf, mt)
    for c in chunks([v if isinstance(v, str) else float(v) for v in vals], 6):
        out += line(c, mat, mf, mt)
    return out


def tab1(c1, c2, l1, l2, regions, x, y, mat=1, mf=1, mt=1):
    out = cont(c1, c2, l1, l2, len(regions), len(x), mat, mf, mt)
    flat = [v for r in regions for v in r]
    for c in chunks(flat, 6):
        out += line(c, mat, mf, mt)
    flat = [float(v) for p in zip(x, y) for v in p]
    for c in chunks(flat, 6):
        out += line(c, mat, mf, mt)
    return out


def tab2(c1, c2, l1, l2, nz, regions, mat=1, mf=1, mt=1):
    out = cont(c1, c2, l1, l2, len(regions), nz, mat, mf, mt)
    for c in chunks([v for r in regions for v in r], 6):
        out += line(c, mat, mf, mt)
    return out


class Tape:
    """a tape of materials; sections: {(mf, mt): text lines already numbered for that section}"""
    def __init__(self, tpid='test tape'):
        self.out = text(tpid, 1, 0, 0)

    def material(self, mat, sections):
        last_mf = None
        for (mf, mt) in sorted(sections):
            if last_mf is not None and mf != last_mf:
                self.out += line(['           '] * 6, mat, 0, 0)          # FEND
            last_mf = mf
            self.out += sections[mf, mt]
            self.out += '%s%4d%2d%3d%5d\n' % (' ' * 66, mat, mf, 0, 99999)     # SEND
        if last_mf is not None:
            self.out += line(['           '] * 6, mat, 0, 0)
        self.out += line(['           '] * 6, 0, 0, 0)        # MEND
        return self

    def end(self):
        return self.out + line(['           '] * 6, -1, 0, 0)


def header(mat, za, awr, lfi=0, nlib=0, lrel=0, nver=8, liso=0, lis=0, elis=0.0, sta=0.0, nsub=10, emax=2e7, awi=1.0, temp=0.0, zsymam=None, lrp=1,
           nmod=0, ldrv=0, directory=(), ntext=6, texts=None):
    """MF=1 MT=451"""
    out = cont(float(za), awr, lrp, lfi, nlib, nmod, mat, 1, 451)
    out += cont(elis, sta, lis, liso, 0, 6, mat, 1, 451)
    out += cont(awi, emax, lrel, 0, nsub, nver, mat, 1, 451)
    tx = [(zsymam or '%3d-X -%3d ' % (za // 1000, za % 1000)).ljust(11)[:11] + 'LAB        ' + 'EVAL-JAN20' + ' A.Author'] + \
         [' Ref %d' % k for k in range(1, ntext)] if texts is None else texts
    out += cont(temp, 0.0, ldrv, 0, len(tx), len(directory), mat, 1, 451)
    for t in tx:
        out += text(t, mat, 1, 451)
    for d in directory:
        out += line(['           ', '           '] + list(d), mat, 1, 451)
    return out
