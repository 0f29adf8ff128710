"""Generator of small but structurally complete continuous-energy ACE libraries (independent of /repo).

spec (plain JSON data):
  za, suffix, kT (MeV), awr, header ('old' | 'new'), ncomment (new style comment lines)
  grid      energies (MeV)
  elastic   values
  total     values or None (computed sum of non-redundant + elastic)
  absorb    values or None (zeros)
  rx        list of {mt, thr, xs, q, ty, law?, ang?}; neutron producers (ty != 0) come first
  nu        None or {'prompt': [E, y], 'total': [E, y]} or {'single': ..., 'poly': [...]}
  chi       list of {ein, x, p, c, intt}  -- law 4 spectrum of the fission reaction(s)
  tail      extra junk values appended (e.g. to adjust the length)
"""
import copy


def fmtf(v):
    return '%20.11E' % v


class Xss:
    def __init__(self):
        self.v = []      # ('i', int) or ('f', float) or ('s', text)

    def __len__(self):
        return len(self.v)

    def i(self, *xs):
        self.v += [('i', int(x)) for x in xs]

    def f(self, *xs):
        self.v += [('f', float(x)) for x in xs]

    def text(self):
        out = []
        for k, x in self.v:
            out.append('%20d' % x if k == 'i' else fmtf(x) if k == 'f' else '%20s' % x)
        return out


def tab1(x, xs, ys, regions=None):
    """NR, (NBT, INT), NE, E, Y"""
    if regions:
        x.i(len(regions[0]))
        x.i(*regions[0])
        x.i(*regions[1])
    else:
        x.i(0)
    x.i(len(xs))
    x.f(*xs)
    x.f(*ys)


def default_chi(intt=2, n=4, nein=2):
    """lin-lin (2) or histogram (1) spectrum with exact cdf"""
    out = []
    for k in range(nein):
        xs = [1e-11 * (k + 1)] + [0.5 * (j + 1) + 0.01 * k for j in range(n - 1)]
        p = [0.1 * (k + 1)] + [1.0 / (1 + j + k) for j in range(n - 1)]
        if intt == 2:
            p[-1] = 0.0
        out.append(dict(ein=1e-11 if k == 0 else 20.0 * k, x=xs, p=p, intt=intt))
        normalise_chi(out[-1])
    return out


def normalise_chi(d):
    xs, p = d['x'], d['p']
    c = [0.0]
    for j in range(1, len(xs)):
        if d['intt'] == 2:
            c.append(c[-1] + 0.5 * (p[j] + p[j - 1]) * (xs[j] - xs[j - 1]))
        else:
            c.append(c[-1] + p[j - 1] * (xs[j] - xs[j - 1]))
    tot = c[-1]
    d['p'] = [v / tot for v in p]
    d['c'] = [v / tot for v in c]
    return d


def build(spec):
    """Returns (header_lines, value_texts, layout). layout maps names to (start, length), 0-based in the values."""
    s = dict(za=92235, suffix='70c', kT=2.585e-8, awr=233.025, header='old', ncomment=3, rx=[], nu=None, chi=None,
             total=None, absorb=None, tail=0, delayed=None, angles=None, photon=None)
    s.update(copy.deepcopy(spec))
    grid = s['grid']
    n = len(grid)
    rx = s['rx']
    npro = [r for r in rx if r.get('ty', 0) != 0]
    assert rx[:len(npro)] == npro, 'neutron producing reactions must come first'
    x = Xss()
    lay = {}
    jxs = [0] * 33
    nxs = [0] * 17

    def mark(name, start):
        lay[name] = (start, len(x) - start)

    total = s['total']
    if total is None:
        total = list(s['elastic'])
        for r in rx:
            if r.get('redundant'):
                continue
            for k, v in enumerate(r['xs']):
                total[r['thr'] + k] += v
    absorb = s['absorb'] if s['absorb'] is not None else [0.0] * n
    # ESZ
    jxs[1] = len(x) + 1
    for name, arr in (('energy', grid), ('mt1', total), ('mt101', absorb), ('mt2', s['elastic']),
                      ('heating', [0.0] * n)):
        st = len(x)
        x.f(*arr)
        mark(name, st)
    # NU
    if s['nu']:
        jxs[2] = len(x) + 1
        nu = s['nu']
        if 'prompt_poly' in nu:
            y = Xss()
            y.i(1, len(nu['prompt_poly']))
            y.f(*nu['prompt_poly'])
            x.i(-len(y))
            x.v += y.v
            if 'poly' in nu:
                x.i(1, len(nu['poly']))
                x.f(*nu['poly'])
            else:
                x.i(2)
                tab1(x, *nu['total'])
                lay['nu_total'] = (len(x) - len(nu['total'][1]), len(nu['total'][1]))
        elif 'prompt' in nu:
            st0 = len(x)
            y = Xss()
            y.i(2)
            tab1(y, *nu['prompt'])
            x.i(-len(y))
            x.v += y.v
            lay['nu_prompt'] = (len(x) - len(nu['prompt'][1]), len(nu['prompt'][1]))
            if 'poly' in nu:
                x.i(1, len(nu['poly']))
                x.f(*nu['poly'])
            else:
                x.i(2)
                tab1(x, *nu['total'])
                lay['nu_total'] = (len(x) - len(nu['total'][1]), len(nu['total'][1]))
        elif 'single' in nu:
            x.i(2)
            tab1(x, *nu['single'])
        else:
            x.i(1, len(nu['poly']))
            x.f(*nu['poly'])
    ntr, nr = len(rx), len(npro)
    if ntr:
        jxs[3] = len(x) + 1
        x.i(*[r['mt'] for r in rx])
        jxs[4] = len(x) + 1
        x.f(*[r.get('q', 0.0) for r in rx])
        jxs[5] = len(x) + 1
        x.i(*[r.get('ty', 0) for r in rx])
        jxs[6] = len(x) + 1
        loc, locs = 1, []
        for r in rx:
            locs.append(loc)
            loc += 2 + len(r['xs'])
        x.i(*locs)
        jxs[7] = len(x) + 1
        for r in rx:
            x.i(r['thr'] + 1, len(r['xs']))
            st = len(x)
            x.f(*r['xs'])
            mark('mt%d' % r['mt'], st)
    # LAND / AND : nr + 1 entries
    jxs[8] = len(x) + 1
    ang = s.get('angles') or {}
    st_land = len(x)
    x.i(*[0] * (nr + 1))
    jxs[9] = len(x) + 1
    and0 = len(x)
    for k in range(nr + 1):
        key = '2' if k == 0 else str(npro[k - 1]['mt'])
        d = ang.get(key)
        if d is None and k > 0 and npro[k - 1].get('law') in (44, 61):
            x.v[st_land + k] = ('i', -1)
        if d is None:
            continue
        x.v[st_land + k] = ('i', len(x) - and0 + 1)
        _angle(x, and0, d)
    # LDLW / DLW
    if nr:
        jxs[10] = len(x) + 1
        st_ld = len(x)
        x.i(*[0] * nr)
        jxs[11] = len(x) + 1
        d0 = len(x)
        for k, r in enumerate(npro):
            x.v[st_ld + k] = ('i', len(x) - d0 + 1)
            fission = abs(r['ty']) == 19
            law = 4 if fission and not r.get('law') else r.get('law', 3)
            prev = _dist(x, d0, law, r, s, grid, lay, fission)
            for extra in r.get('more', []):
                x.v[prev] = ('i', len(x) - d0 + 1)
                prev = _dist(x, d0, extra['law'], dict(extra, q=r.get('q', 0.0)), s, grid, {}, False)
            if abs(r['ty']) > 100 and r.get('yield'):
                x.v[jxs[5] - 1 + rx.index(r)] = ('i', (1 if r['ty'] > 0 else -1) * (100 + len(x) - d0 + 1))
                tab1(x, *r['yield'])
    # photon production
    if s['photon']:
        ph = s['photon']
        nxs[6] = len(ph)
        jxs[13] = len(x) + 1
        x.i(*[p['mt'] for p in ph])
        jxs[14] = len(x) + 1
        st = len(x)
        x.i(*[0] * len(ph))
        jxs[15] = len(x) + 1
        d0 = len(x)
        for k, p in enumerate(ph):
            x.v[st + k] = ('i', len(x) - d0 + 1)
            if p.get('mf', 12) == 13:
                x.i(13, p['thr'] + 1, len(p['xs']))
                x.f(*p['xs'])
            else:
                x.i(p.get('mf', 12), p['yield_mt'])
                tab1(x, *p['yield'])
        jxs[16] = len(x) + 1
        st = len(x)
        x.i(*[0] * len(ph))
        jxs[17] = len(x) + 1
        d0 = len(x)
        for k, p in enumerate(ph):
            if p.get('angle'):
                x.v[st + k] = ('i', len(x) - d0 + 1)
                _angle(x, d0, p['angle'])
        jxs[18] = len(x) + 1
        st = len(x)
        x.i(*[0] * len(ph))
        jxs[19] = len(x) + 1
        d0 = len(x)
        for k, p in enumerate(ph):
            x.v[st + k] = ('i', len(x) - d0 + 1)
            _dist(x, d0, p.get('law', 2), dict(p, eg=p.get('eg', 1.0)), s, grid, {}, False)
        jxs[20] = len(x) + 1
        x.i(len(ph), *[p['mt'] for p in ph])
    # probability tables
    if s.get('urr'):
        jxs[23] = len(x) + 1
        u = s['urr']
        x.i(len(u['e']), len(u['t'][0][0]), u.get('int', 2), u.get('ilf', -1), u.get('ioa', -1), u.get('iff', 0))
        x.f(*u['e'])
        for t in u['t']:
            for row in t:
                x.f(*row)
    # delayed neutrons
    if s['delayed']:
        d = s['delayed']
        jxs[24] = len(x) + 1
        x.i(2)
        tab1(x, *d['yield'])
        jxs[25] = len(x) + 1
        for g in d['groups']:
            x.f(g['lam'])
            tab1(x, *g['prob'])
        jxs[26] = len(x) + 1
        st = len(x)
        x.i(*[0] * len(d['groups']))
        jxs[27] = len(x) + 1
        d0 = len(x)
        for k, g in enumerate(d['groups']):
            x.v[st + k] = ('i', len(x) - d0 + 1)
            _dist(x, d0, 4, dict(chi=g['chi']), s, grid, {}, True)
        nxs[8] = len(d['groups'])
    for k in range(s['tail']):
        x.f(0.5 + k)
    jxs[21] = 1
    jxs[22] = len(x)
    nxs[1], nxs[2], nxs[3], nxs[4], nxs[5] = len(x), s['za'], n, ntr, nr
    name = '%d.%s' % (s['za'], s['suffix'])
    hd = []
    if s['header'] == 'new':
        hd.append('2.0.0%12s %18s\n' % (name, 'ENDFB-VII.1'))
        hd.append('%12.6f %12.5E %s %4d\n' % (s['awr'], s['kT'], '2014-02-02', s['ncomment']))
        for k in range(s['ncomment']):
            # NJOY writes a backwards-compatible old style header into the comment lines
            if s['ncomment'] >= 2 and k == s['ncomment'] - 2:
                hd.append('%10s%12.6f %11.5E   %s\n' % (name, s['awr'], s['kT'], '02/02/14'))
            elif s['ncomment'] >= 2 and k == s['ncomment'] - 1:
                hd.append('%-70s%s\n' % (s.get('comment', 'generated test library'), '   mat9228'))
            else:
                hd.append('comment %d\n' % k)
    else:
        hd.append('%10s%12.6f %11.5E   %s\n' % (name, s['awr'], s['kT'], '02/02/14'))
        hd.append('%-70s%s\n' % (s.get('comment', 'generated test library'), '   mat9228'))
    for k in range(4):
        hd.append(''.join('%7d%11.6f' % (0, 0.0) for _ in range(4)) + '\n')
    nx, jx = nxs[1:17], jxs[1:33]
    for k in range(2):
        hd.append(''.join('%9d' % v for v in nx[8 * k:8 * k + 8]) + '\n')
    for k in range(4):
        hd.append(''.join('%9d' % v for v in jx[8 * k:8 * k + 8]) + '\n')
    lay['nxs'], lay['jxs'] = nxs, jxs
    return hd, x.text(), lay


def _angle(x, and0, d):
    es = d['e']
    x.i(len(es))
    x.f(*es)
    lcst = len(x)
    x.i(*[0] * len(es))
    for m, t in enumerate(d['t']):
        if t is None:
            continue
        if t['kind'] == 'equi':
            x.v[lcst + m] = ('i', len(x) - and0 + 1)
            x.f(*t['v'])
        else:
            x.v[lcst + m] = ('i', -(len(x) - and0 + 1))
            x.i(t['intt'], len(t['x']))
            x.f(*t['x'])
            x.f(*t['p'])
            x.f(*t['c'])


def _dist(x, d0, law, r, s, grid, lay, fission):
    pos = len(x)
    x.i(0, law, 0)
    tab1(x, *(r.get('appl') or [[grid[0], grid[-1]], [1.0, 1.0]]))
    x.v[pos + 2] = ('i', len(x) - d0 + 1)
    if law == 2:
        x.i(r.get('lp', 0))
        x.f(r['eg'])
    elif law == 3:
        x.f(abs(r.get('q', 0.0)) * (s['awr'] + 1) / s['awr'], (s['awr'] / (s['awr'] + 1)) ** 2)
    elif law == 4:
        chi = r.get('chi') or s['chi'] or default_chi()
        _regions(x, r)
        x.i(len(chi))
        x.f(*[c['ein'] for c in chi])
        st = len(x)
        x.i(*[0] * len(chi))
        for m, c in enumerate(chi):
            x.v[st + m] = ('i', len(x) - d0 + 1)
            x.i(c['intt'], len(c['x']))
            x.f(*c['x'])
            if fission and r.get('mt') in (18, None, 19):
                lay['chi_p%d' % m] = (len(x), len(c['p']))
            x.f(*c['p'])
            if fission and r.get('mt') in (18, None, 19):
                lay['chi_c%d' % m] = (len(x), len(c['c']))
            x.f(*c['c'])
    elif law in (7, 9):
        tab1(x, *r['theta'])
        x.f(r['u'])
    elif law == 11:
        tab1(x, *r['a'])
        tab1(x, *r['b'])
        x.f(r['u'])
    elif law == 44:
        d = r['km']
        _regions(x, r)
        x.i(len(d))
        x.f(*[c['ein'] for c in d])
        st = len(x)
        x.i(*[0] * len(d))
        for m, c in enumerate(d):
            x.v[st + m] = ('i', len(x) - d0 + 1)
            x.i(c['intt'], len(c['x']))
            for key in ('x', 'p', 'c', 'r', 'a'):
                x.f(*c[key])
    elif law == 61:
        d = r['corr']
        _regions(x, r)
        x.i(len(d))
        x.f(*[c['ein'] for c in d])
        st = len(x)
        x.i(*[0] * len(d))
        for m, c in enumerate(d):
            x.v[st + m] = ('i', len(x) - d0 + 1)
            x.i(c['intt'], len(c['x']))
            for key in ('x', 'p', 'c'):
                x.f(*c[key])
            lc = len(x)
            x.i(*[0] * len(c['x']))
            for j, t in enumerate(c['mu']):
                if t is None:
                    continue
                x.v[lc + j] = ('i', len(x) - d0 + 1)
                x.i(t['intt'], len(t['x']))
                for key in ('x', 'p', 'c'):
                    x.f(*t[key])
    elif law == 66:
        x.i(r['npsx'])
        x.f(r['ap'])
    else:
        raise ValueError(law)
    return pos


def _regions(x, r):
    g = r.get('ein_regions')
    if g:
        x.i(len(g[0]), *(list(g[0]) + list(g[1])))
    else:
        x.i(0)


def text(spec):
    hd, vals, lay = build(spec)
    out = list(hd)
    for k in range(0, len(vals), 4):
        out.append(''.join(vals[k:k + 4]) + '\n')
    return ''.join(out), lay


def write(path, spec):
    t, lay = text(spec)
    with open(path, 'w') as f:
        f.write(t)
    return lay


def parse(path, ncomment=None):
    """Independent parse of a written file: (header lines, list of value texts)."""
    lines = open(path).read().split('\n')
    nh = 12
    if lines[0].split()[0][1] == '.':
        nh = 12 + int(lines[1].split()[3])
    return lines[:nh], lines[nh:]
