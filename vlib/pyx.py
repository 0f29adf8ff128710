"""The Cython source of the resonance reconstruction, built from the tree outside of it (as /opt/vp/build.sh does).

Where there is no Cython, the source is translated mechanically, line by line, and run as Python: C declarations are
dropped, C library functions become those of math/cmath, C arrays become lists; nothing else is changed."""
import cmath, importlib.util, math, os, re, subprocess, sys, sysconfig, tempfile, types

TYPES = r'(?:unsigned\s+|long\s+)?(?:double\s+complex|complex\s+double|double|float|int|long|bint|object|str|list|dict|np\.ndarray(?:\[[^\]]*\])?)(?:\s*\[[:, ]*\])?'


def translate(text):
    out, skip = [], None
    text = re.sub(r'\\\n', ' ', text)
    for line in text.split('\n'):
        s = line.strip()
        ind = line[:len(line) - len(line.lstrip())]
        if skip is not None:
            if not s or len(ind) > skip:
                continue
            skip = None
        if re.match(r'(from\s+\S+\s+)?cimport\b', s) or s.startswith('@cython.'):
            continue
        if re.match(r'cdef\s+extern\b', s):
            skip = len(ind)
            continue
        m = re.match(r'(?:cdef|cpdef)\s+(?:inline\s+)?(?:%s\s+)?(\w+)\s*\((.*)\)\s*(?:nogil|except.*)?:\s*$' % TYPES, s)
        if m or re.match(r'def\s', s):
            if m:
                s = 'def %s(%s):' % (m.group(1), m.group(2))
            head, args = s.split('(', 1)
            args, tail = args.rsplit(')', 1)
            args = re.sub(r'(^|,\s*)%s\s+\*?(?=\w)' % TYPES, r'\1', args)
            out.append(ind + head + '(' + args + ')' + tail)
            continue
        if re.match(r'cdef\s', s):
            m = re.match(r'cdef\s+%s\s*\*?\s*(\w+\s*=\s*.*)$' % TYPES, s)
            if m:
                out.append(ind + m.group(1))
            else:
                if s.endswith('='):
                    raise SyntaxError('cannot translate: ' + s)
                out.append(ind + 'pass')
            continue
        line = re.sub(r'<\s*double\s*\(\s*\*\s*\)\s*\[\s*(\d+)\s*\]\s*>\s*calloc\((.*?),\s*sizeof\(double\)\)', r'[[0.0]*\1 for _i in range(\2)]', line)
        line = re.sub(r'<\s*double\s*\*\s*>\s*malloc\((.*?)\s*\*\s*sizeof\(double\)\)', r'[float("nan")]*(\1)', line)
        line = re.sub(r'<\s*double\s*\*\s*>\s*calloc\((.*?),\s*sizeof\(double\)\)', r'[0.0]*(\1)', line)
        line = re.sub(r'^(\s*)free\(.*\)\s*$', r'\1pass', line)
        line = re.sub(r'<\s*int\s*>\s*', '_int', line)
        line = re.sub(r'<\s*double\s*>\s*', '', line)
        out.append(line)
    return '\n'.join(out)


def load(path, name):
    m = types.ModuleType(name)
    m.__file__ = path
    m.__dict__.update({k: getattr(math, k) for k in ('cos', 'sin', 'sqrt', 'atan', 'exp', 'tan')})
    m.__dict__.update(M_PI=math.pi, cabs=abs, conj=lambda z: complex(z).conjugate(), creal=lambda z: complex(z).real, cimag=lambda z: complex(z).imag, cexp=cmath.exp, fabs=abs)
    exec(compile(translate(open(path).read()), path, 'exec'), m.__dict__)
    return m


class Finder:
    """finds the built extension as if it lay next to its source"""
    def __init__(self, name, so):
        self.name, self.so = name, so

    def find_spec(self, name, path=None, target=None):
        if name == self.name:
            return importlib.util.spec_from_file_location(name, self.so)


def build(path):
    """the extension compiled from path; None without Cython or compiler"""
    try:
        import Cython, numpy
    except ImportError:
        return None
    d = tempfile.mkdtemp(prefix='reconstruct')
    c, so = os.path.join(d, 'reconstruct.c'), os.path.join(d, 'reconstruct.so')
    try:
        subprocess.run([sys.executable, '-m', 'cython', '-2', path, '-o', c], check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
        subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(), c, '-o', so],
                       check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
    except FileNotFoundError:
        return None
    return so


def install(repo):
    """make ASAPy.data.reconstruct importable; false when the source is not there, does not compile or cannot be translated"""
    name = 'ASAPy.data.reconstruct'
    path = os.path.join(repo, 'ASAPy', 'data', 'reconstruct.pyx')
    if 'ASAPy.data.resonance' in sys.modules:
        return True         # only to list the families, next to other checks
    try:
        so = build(path)
        if so:
            sys.meta_path.insert(0, Finder(name, so))
        else:
            sys.modules[name] = load(path, name)
    except Exception:
        return False
    return True
