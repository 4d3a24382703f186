"""The compiled C kernels of /repo's current tree (replay and cross-checks)."""
import ctypes as ct, os, subprocess, sys, sysconfig, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

EXT = ['sfepy/discrete/common/extmods', 'sfepy/discrete/fem/extmods',
       'sfepy/discrete/iga/extmods', 'sfepy/terms/extmods',
       'sfepy/mechanics/extmods', 'sfepy/mesh/extmods', 'sfepy/linalg/extmods']

def c_files(repo='/repo'):
    out = []
    for d in EXT:
        p = os.path.join(repo, d)
        if os.path.isdir(p):
            out += [os.path.join(p, f) for f in sorted(os.listdir(p))
                    if f.endswith('.c') and is_source(os.path.join(p, f))]
    return out

def is_source(path):
    with open(path, errors='replace') as f:
        return 'Generated by Cython' not in f.read(200)

def build(files, outdir, repo='/repo', flags=('-O1',)):
    import numpy
    fake = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fakeinc')
    incs = ['-I' + os.path.join(repo, d) for d in EXT]
    incs += ['-I' + numpy.get_include(), '-I' + sysconfig.get_paths()['include']]
    # version.h is generated by the build
    vdir = os.path.join(outdir, 'inc')
    os.makedirs(vdir, exist_ok=True)
    shutil.copy(os.path.join(fake, 'version.h'), vdir)
    incs.append('-I' + vdir)

    def one(f):
        o = os.path.join(outdir, os.path.basename(f)[:-2] + '.o')
        r = subprocess.run(['gcc', '-w', '-fPIC', '-DSFEPY_PLATFORM=0', *flags,
                            *incs, '-c', f, '-o', o],
                           capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('gcc %s: %s' % (f, r.stderr[-2000:]))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, files))
    so = os.path.join(outdir, 'lib.so')
    r = subprocess.run(['gcc', '-shared', '-o', so, *objs, '-lm'],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('link: ' + r.stderr[-2000:])
    return so

class CLib:
    """ctypes access to the functions, with types from the parsed headers."""
    def __init__(self, prog, so):
        self.prog = prog
        self.dll = ct.PyDLL(so)
        self.structs = {}
        self.keep = []

    def ctype(self, t):
        k = t[0]
        if k == 'p':
            return ct.c_void_p
        if k == 's':
            return self.struct(t[1])
        if k == 'a':
            return self.ctype(t[1]) * t[2]
        if k == 'f':
            return ct.c_double if t[1] == 8 else ct.c_float
        if k == 'v':
            return None
        sz = self.prog.sizeof(t)
        uns = len(t) > 2 and not t[2]
        return {1: ct.c_uint8 if uns else ct.c_int8,
                2: ct.c_uint16 if uns else ct.c_int16,
                4: ct.c_uint32 if uns else ct.c_int32,
                8: ct.c_uint64 if uns else ct.c_int64}[sz]

    def struct(self, name):
        name = self.prog._sname(name)
        if name not in self.structs:
            class S(ct.Structure):
                pass
            self.structs[name] = S
            S._fields_ = [(f, self.ctype(t)) for f, t in self.prog.structs[name]]
        return self.structs[name]

    def call(self, name, *args):
        f = getattr(self.dll, name)
        node = self.prog.funcs[name]
        ps = node.decl.type.args.params if node.decl.type.args else []
        types = [self.ctype(self.prog.typ(p.type)) for p in ps]
        f.argtypes = types
        f.restype = self.ctype(self.prog.ftypes[name])
        return f(*args)
