"""C39: what is written as XML (ASAPy.data.univariate, ASAPy.data._xml) says what the object holds."""
import itertools, math
import xml.etree.ElementTree as ET
from vlib.engine import Family, require, expect_raises
from vlib.repo import mod

PID = 'C39'
UV = mod('ASAPy.data.univariate')
X = mod('ASAPy.data._xml')
ASSUMPTIONS = ['parameters of a distribution are an attribute or a subelement named "parameters", numbers separated by blanks; of a tabulated one all abscissae come before all ordinates',
               'blank text around elements carries no information; the text after the outermost element is not judged',
               'of an element with an attribute and a subelement of the same name the attribute counts']
VALS = [0.0, 1.0, 0.1 + 0.2, 1.0 / 3.0, 1e-300, 2.5e7, 123456789.123456789, 5e-324]
LAWS = ['histogram', 'linear-linear', 'linear-log', 'log-linear', 'log-log']


def gen_dist(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        al = VALS if k < 3 else VALS[:4]
        for p in itertools.product(al, repeat=k):
            for form in ('list', 'tuple', 'array', 'int'):
                if form != 'int' or all(v == int(v) for v in p):
                    yield dict(p=list(p), form=form)


def read(el, what, name):
    """type, interpolation and parameters from the element, after a passage through text"""
    require(isinstance(el, ET.Element) and el.tag == name, '{}: the element is {}', what, el)
    el = ET.fromstring(ET.tostring(el))
    require(el.tag == name, '{}: named {}', what, el.tag)
    kids = list(el)
    require([k.tag for k in kids] in ([], ['parameters']), '{}: subelements {}', what, [k.tag for k in kids])
    require(set(el.attrib) <= {'type', 'interpolation', 'parameters'}, '{}: attributes {}', what, el.attrib)
    require(('parameters' in el.attrib) != bool(kids), '{}: parameters are missing or given twice', what)
    text = el.get('parameters') if 'parameters' in el.attrib else kids[0].text
    return el.get('type'), el.get('interpolation'), [float(t) for t in text.split()]


def run_dist(c, ctx):
    import numpy as np
    p, form = c['p'], c['form']
    f = {'list': list, 'tuple': tuple, 'array': np.array, 'int': lambda v: [int(w) for w in v]}[form]
    xs = [-2.5, 1.0 / 7.0, 1e3, 2e7][:len(p)] if form != 'int' else [-2, 0, 1000, 20000000][:len(p)]

    def judge(d, typ, want, interp=None):
        what = '%s %s of %s' % (form, typ, want)
        for name in ('energy', 'x', 'mu.dist'):
            got = read(d.to_xml_element(name), what, name)
            require(got == (typ, interp, [float(v) for v in want]), '{}: written as {}', what, got)
            ctx.step()
        ctx.state(typ, form, len(want))
        ctx.outcome(typ, interp, tuple(want))

    d = UV.Discrete(f(xs), f(p))
    judge(d, 'discrete', xs + p)
    require(len(d) == len(p), 'length of {}: {}', c, len(d))
    require(list(d.x) == xs and list(d.p) == p, 'writing changed the distribution {}', c)
    for law in LAWS:
        d = UV.Tabular(f(xs), f(p), law)
        judge(d, 'tabular', xs + p, law)
        require(len(d) == len(p) and d.interpolation == law, 'length or law of {}: {}, {}', c, len(d), d.interpolation)
    judge(UV.Tabular(f(xs), f(p)), 'tabular', xs + p, 'linear-linear')
    neg = [-v for v in p]
    judge(UV.Tabular(f(xs), f(neg), ignore_negative=True), 'tabular', xs + neg, 'linear-linear')
    # a distribution without tabulated values cannot be written
    leg = UV.Legendre(f(p))
    require(len(leg) == len(p), 'length of the expansion {}: {}', p, len(leg))
    want = sum((2 * l + 1) / 2 * a * v for l, (a, v) in enumerate(zip(p, (1.0, 0.3, (3 * 0.09 - 1) / 2, (5 * 0.027 - 0.9) / 2))))
    require(abs(float(leg(0.3)) - want) <= 1e-12 * max(1.0, sum(abs(v) for v in p)), 'expansion {} at 0.3 gives {}, not {}', p, float(leg(0.3)), want)
    back = [float(v) for v in leg.coefficients]
    require(all(abs(a - b) <= 1e-14 * abs(b) + 1e-323 for a, b in zip(back, p)) and len(back) == len(p), 'expansion {} reads back {}', p, back)
    mix = UV.Mixture(f(p), [UV.Discrete(f(xs), f(p))] * (len(p) - 1) + [UV.Uniform()])
    require(len(mix) == (len(p) - 1) * len(p) + 2, 'length of a mixture: {}', len(mix))
    for d in (leg, mix):
        expect_raises(lambda: d.to_xml_element('a'), 'writing %s' % type(d).__name__, NotImplementedError)
    if len(p) == 1:
        v = p[0]
        for g in (float, int) if form == 'int' else (float, np.float64):
            judge(UV.Discrete(g(xs[0]), g(v)), 'discrete', xs + p)
            if v > 0:
                judge(UV.Maxwell(g(v)), 'maxwell', p)
                require(len(UV.Maxwell(g(v))) == 1, 'length of a Maxwell distribution')
    if len(p) == 2:
        a, b = (int(v) for v in p) if form == 'int' else p
        u = UV.Uniform(a, b)
        judge(u, 'uniform', p)
        judge(UV.Uniform(a=a), 'uniform', [a, 1.0])
        judge(UV.Uniform(b=b), 'uniform', [0.0, b])
        require(len(u) == 2, 'length of a uniform distribution: {}', len(u))
        if a < b and math.isfinite(1.0 / (b - a)):
            t = u.to_tabular()
            dens = 1.0 / (b - a)
            require([float(v) for v in t.x] == [a, b] and len(t.p) == 2 and t.interpolation == 'histogram', 'uniform on {} tabulated as {}, {}, {}', p, t.x, t.p, t.interpolation)
            require(abs(t.p[0] * (b - a) - 1.0) < 1e-12 and list(t.c) == [0.0, 1.0] and t.p[0] == t.p[1], 'uniform on {} tabulated with {}, {}', p, t.p, t.c)
            require((u.a, u.b) == (a, b), 'tabulating changed {}', p)
            judge(t, 'tabular', [a, b, dens, dens], 'histogram')
        if a > 0 and b > 0:
            w = UV.Watt(a, b)
            judge(w, 'watt', p)
            judge(UV.Watt(a=a), 'watt', [a, 2.249e-6])
            judge(UV.Watt(b=b), 'watt', [0.988e6, b])
            require(len(w) == 2, 'length of a Watt distribution: {}', len(w))
    judge(UV.Uniform(), 'uniform', [0.0, 1.0])
    judge(UV.Watt(), 'watt', [0.988e6, 2.249e-6])


# -- layout: every tree up to a size, every placement of texts

def shapes(n):
    """ordered trees with n nodes as nested tuples"""
    if n == 1:
        yield ()
        return
    for f in forests(n - 1):
        yield f


def forests(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for t in shapes(k):
            for rest in forests(n - k):
                yield (t,) + rest


TEXT = {'quick': [None, '  \n ', 'ab c'], 'thorough': [None, '', '  \n ', 'ab c', '\n  x\n']}


def gen_tree(tier):
    for n in range(1, 4):
        for t in shapes(n):
            for lab in itertools.product(range(len(TEXT[tier])), repeat=2 * n):
                yield dict(t=t, lab=list(lab), tier=tier)
    for n in range(4, 6 if tier == 'quick' else 7):        # larger trees: one text somewhere, or two
        for t in shapes(n):
            base = [0] * (2 * n)
            for i, j in itertools.combinations_with_replacement(range(2 * n), 2):
                for a in range(1, len(TEXT[tier])):
                    b = list(base)
                    b[i] = b[j] = a
                    yield dict(t=t, lab=b, tier=tier)


def make(t, labels, counter):
    k = counter[0]
    counter[0] += 1
    e = ET.Element('n%d' % k, {'id': str(k), 'v': 'a b'})
    e.text, e.tail = labels[2 * k], labels[2 * k + 1]
    for s in t:
        e.append(make(s, labels, counter))
    return e


def blank(s):
    return s is None or not s.strip()


def tup(t):
    return tuple(tup(s) for s in t)


def run_tree(c, ctx):
    t = tup(c['t'])
    labels = [TEXT[c['tier']][k] for k in c['lab']]
    for width in (None, 2, 4, 0):
        e = make(t, labels, [0])
        ref = make(t, labels, [0])
        for rounds in (1, 2):
            r = X.clean_indentation(e) if width is None else X.clean_indentation(e, spaces_per_level=width)
            w = 2 if width is None else width
            what = 'layout of %s with %s per level (round %d)' % (ET.tostring(ref), w, rounds)

            def walk(a, b, level, last, parent_text_ok):
                require(a.tag == b.tag and a.attrib == b.attrib and len(a) == len(b), '{}: element {} became {}', what, b, a)
                if len(b):
                    if blank(b.text):
                        require(a.text == '\n' + ' ' * w * (level + 1), '{}: inside <{}>: {!r}', what, a.tag, a.text)
                    else:
                        require(a.text == b.text, '{}: text of <{}> became {!r}', what, a.tag, a.text)
                else:
                    require(a.text == b.text, '{}: text of <{}> became {!r}', what, a.tag, a.text)
                if level:
                    if blank(b.tail):
                        require(a.tail == '\n' + ' ' * w * (level - 1 if last else level), '{}: after <{}>: {!r}', what, a.tag, a.tail)
                    else:
                        require(a.tail == b.tail, '{}: text after <{}> became {!r}', what, a.tag, a.tail)
                for k, (x, y) in enumerate(zip(a, b)):
                    walk(x, y, level + 1, k == len(b) - 1, True)
            walk(e, ref, 0, True, True)
            ctx.step()
        ctx.state(t, width)
        ctx.outcome(ET.tostring(e))


def gen_text(tier):
    for attr in (None, '', 'A', ' A b '):
        for subs in itertools.product((None, 'x', 'name', 'NAME'), repeat=2):
            for text in ('T', ' 1 2 '):
                for default in (None, 'd', 7):
                    yield dict(attr=attr, subs=list(subs), text=text, default=default)


def run_text(c, ctx):
    e = ET.Element('root', {'name2': 'no'})
    if c['attr'] is not None:
        e.set('name', c['attr'])
    e.text = 'own text'
    found = []
    for k, s in enumerate(c['subs']):
        if s:
            ET.SubElement(e, s).text = c['text'] + str(k)
            if s == 'name':
                found.append(c['text'] + str(k))
    deep = ET.SubElement(ET.SubElement(e, 'other'), 'name')
    deep.text = 'deep'
    want = c['attr'] if c['attr'] is not None else found[0] if found else c['default']
    got = X.get_text(e, 'name', c['default']) if c['default'] is not None else X.get_text(e, 'name')
    require(got == want, 'text of {} is {!r}, not {!r}', c, got, want)
    require(X.get_text(e, 'name', default='q') == (want if c['attr'] is not None or found else 'q'), 'text of {} with another default', c)
    ctx.state(c['attr'], tuple(c['subs']))
    ctx.outcome(got)
    ctx.step()


FAMILIES = [
    Family('distributions', gen_dist, run_dist, 'every sequence of values up to a length in lists, tuples and arrays, as every kind of distribution, written and read back', chunk=200),
    Family('layout', gen_tree, run_tree, 'every tree up to three elements with every placement of blank and other text, larger ones with one or two texts; indentation widths; twice in a row', chunk=500),
    Family('text', gen_text, run_text, 'every combination of attribute, subelements, nested elements and default', chunk=100),
]
