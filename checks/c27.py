"""C27: the data library index finds the registered files again (ASAPy.data.library)."""
import copy, itertools, os, pathlib, shutil
from vlib.engine import Family, require, expect_raises
from vlib.repo import mod

PID = 'C27'
L = mod('ASAPy.data.library')
ASSUMPTIONS = ['the working directory does not change between registering files by relative paths and exporting the index',
               'of several files with the same material any one may be returned']
# name in the tree -> (type, materials)
FILES = {'d/one.h5': ('neutron', ['U235', 'U238_m1']), 'd/sub/two.h5': ('thermal', ['c_H_in_H2O']), 'dd/three.h5': ('photon', ['H', 'He', 'Li']),
         'four.h5': ('wmp', ['092238']), 'd/o.h5': ('neutron', ['H1', 'U235']), 'a b&<c>/\u00e9.h5': ('neutron', ['Fe56']), 'e/none.h5': ('neutron', []),
         'p1/five.h5': ('neutron', ['U234']), 'p2/six.h5': ('neutron', ['Li'])}
NAMES = ['U235', 'U238_m1', 'c_H_in_H2O', 'H', 'He', 'Li', '092238', 'H1', 'Fe56', 'U23', 'U', '']


def tree(root):
    import h5py, numpy as np
    os.makedirs(root, exist_ok=True)
    for n, (t, mats) in FILES.items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with h5py.File(p, 'w') as f:
            f.attrs['filetype'] = np.bytes_('data_' + t)
            for m in mats:
                f.create_group(m)
    os.makedirs(os.path.join(root, 'out', 'deep'), exist_ok=True)


def spelled(root, n, how):
    if how == 'rel':
        return n
    if how == 'dot':
        return './' + n
    if how == 'up':
        return 'd/../' + n
    if how == 'abs':
        return os.path.join(root, n)
    if how == 'path':
        return pathlib.Path(n)
    return pathlib.Path(root) / n


def check(lib, want, what, base=None):
    """want: list of file names of the tree (relative to base)"""
    require(len(lib.libraries) == len(want), '{}: {} files instead of {}', what, len(lib.libraries), len(want))
    for k, (g, n) in enumerate(zip(lib.libraries, want)):
        t, mats = FILES[n]
        require(set(g) == {'path', 'type', 'materials'}, '{}: file {} has the keys {}', what, k, sorted(g))
        require(g['type'] == t, '{}: file {} has type {}, not {}', what, n, g['type'], t)
        require(sorted(g['materials']) == sorted(mats), '{}: file {} has materials {}, not {}', what, n, g['materials'], mats)
        require(os.path.exists(g['path']), '{}: file {} is sought at {}', what, n, g['path'])
        require(os.path.samefile(g['path'], os.path.join(base, n)), '{}: file {} is sought at {}', what, n, g['path'])
    for m in NAMES:
        g = lib.get_by_material(m)
        has = [n for n in want if m in FILES[n][1]]
        if not has:
            require(g is None, '{}: material {!r} is in no file but {} is returned', what, m, g)
        else:
            require(g is not None and m in g['materials'] and any(os.path.samefile(g['path'], os.path.join(base, n)) for n in has),
                    '{}: material {} is in {} but {} is returned', what, m, has, g)


OUT = ['cross_sections.xml', 'out/x.xml', 'out/deep/x.xml', 'd/x.xml', 'ABS/d/sub/x.xml', 'ABS/x.xml', 'DEFAULT']


def gen_index(tier):
    hows = ['rel', 'dot', 'up', 'abs', 'path', 'abspath']
    names = sorted(FILES)
    for out in OUT:
        yield dict(reg=[], out=out)
        for n in names:
            for h in hows:
                yield dict(reg=[(n, h)], out=out)
        for a, b in itertools.product(names, repeat=2):
            for ha, hb in itertools.product(hows if tier != 'quick' else ['rel', 'abs'], repeat=2):
                yield dict(reg=[(a, ha), (b, hb)], out=out)
        if tier != 'quick':
            for tr in itertools.permutations(names, 3):
                for hs in itertools.product(['rel', 'abs', 'path'], repeat=3):
                    yield dict(reg=list(zip(tr, hs)), out=out)


def setup(name='tree'):
    root = os.path.join(os.getcwd(), name)
    tree(root)
    os.chdir(root)
    return root


def outpath(root, out):
    return 'cross_sections.xml' if out == 'DEFAULT' else os.path.join(root, out[4:]) if out.startswith('ABS/') else out


def export(lib, root, out):
    p = outpath(root, out)
    if out == 'DEFAULT':
        lib.export_to_xml()
    elif len(out) % 2:
        lib.export_to_xml(pathlib.Path(p))
    else:
        lib.export_to_xml(p)
    return p


def run_index(c, ctx):
    start = os.getcwd()
    root = setup()
    try:
        lib = L.DataLibrary()
        want = []
        for n, h in c['reg']:
            lib.register_file(spelled(root, n, h))
            want.append(n)
        check(lib, want, '%s registered' % c['reg'], root)
        before = copy.deepcopy(lib.libraries)
        p = export(lib, root, c['out'])
        require(lib.libraries == before, '{}: exporting changed the index', c)
        check(L.DataLibrary.from_xml(p), want, '%s read from %s' % (c, p), root)
        check(L.DataLibrary.from_xml(pathlib.Path(p)), want, '%s read from %s' % (c, p), root)
        full = os.path.abspath(p)
        os.environ['OPENMC_CROSS_SECTIONS'] = full
        try:
            check(L.DataLibrary.from_xml(), want, '%s read from the environment' % c, root)
            expect_raises(lambda: L.DataLibrary.from_xml('absent.xml'), 'reading a file that is not there', OSError)
        finally:
            del os.environ['OPENMC_CROSS_SECTIONS']
        expect_raises(lambda: L.DataLibrary.from_xml(), 'reading without a path', ValueError)
        for cwd in ('out/deep', 'd', '/'):
            os.chdir(os.path.join(root, cwd))
            check(L.DataLibrary.from_xml(full), want, '%s read in %s' % (c, cwd), root)
            if cwd != '/':
                check(L.DataLibrary.from_xml(os.path.relpath(full)), want, '%s read by a relative path in %s' % (c, cwd), root)
        ctx.state(tuple(map(tuple, c['reg'])), c['out'])
        ctx.step(len(c['reg']) + 6)
    finally:
        os.chdir(start)
        shutil.rmtree(root)


# ---- histories: register, export, read, add, with the index travelling through XML files
OPS = ['reg:d/one.h5:rel', 'reg:d/sub/two.h5:abs', 'reg:dd/three.h5:path', 'reg:four.h5:rel', 'xml:out/x.xml', 'xml:cross_sections.xml', 'xml:d/x.xml', 'xml:ABS/out/y.xml']


def gen_hist(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for h in itertools.product(OPS, repeat=n):
            if not any(o.startswith('xml') for o in h) or (tier == 'quick' and n == 4 and len(set(h)) < 4):
                continue
            yield list(h)


def run_hist(h, ctx):
    start = os.getcwd()
    root = setup()
    try:
        lib, want = L.DataLibrary(), []
        for op in h:
            k, *a = op.split(':')
            if k == 'reg':
                lib.register_file(spelled(root, a[0], a[1]))
                want.append(a[0])
            else:
                lib = L.DataLibrary.from_xml(export(lib, root, a[0]))
            check(lib, want, '%s after %s' % (h, op), root)
            ctx.state(tuple(want), tuple(os.path.isabs(g['path']) for g in lib.libraries), op)
            ctx.step()
    finally:
        os.chdir(start)
        shutil.rmtree(root)


FAMILIES = [Family('index', gen_index, run_index, 'all sequences of registered files and path spellings up to the depth, all places of the index, read from several working directories'),
            Family('histories', gen_hist, run_hist, 'all histories of registering, exporting and reading up to the depth')]
