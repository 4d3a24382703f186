"""
The extension modules of /repo's current tree, compiled in a scratch directory
and put in front of the (possibly stale) in-place ones.
"""
import importlib.abc, importlib.machinery, importlib.util
import json, os, re, subprocess, sys, sysconfig
from concurrent.futures import ThreadPoolExecutor

from . import cconc

PY = sys.executable

def start(mods, outdir, repo='/repo'):
    """Begin building; returns a function that waits and gives {module: so}."""
    ex = ThreadPoolExecutor(8)
    import numpy
    os.makedirs(outdir, exist_ok=True)
    incs = ['-I' + os.path.join(repo, d) for d in cconc.EXT]
    incs += ['-I' + numpy.get_include(), '-I' + sysconfig.get_paths()['include']]
    vdir = os.path.join(outdir, 'inc')
    os.makedirs(vdir, exist_ok=True)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fakeinc', 'version.h')) as f:
        v = f.read()
    with open(os.path.join(vdir, 'version.h'), 'w') as f:
        f.write(v)
    incs.append('-I' + vdir)
    flags = ['-w', '-O1', '-fPIC', '-DSFEPY_PLATFORM=0', '-Dinline=inline',
             '-DNPY_NO_DEPRECATED_API=NPY_2_0_API_VERSION']

    def run(cmd, cwd=None):
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=cwd)
        if r.returncode:
            raise RuntimeError('%s: %s' % (' '.join(cmd[:3]), (r.stderr + r.stdout)[-2000:]))

    def obj(f):
        o = os.path.join(outdir, os.path.basename(f)[:-2] + '.o')
        run(['gcc', *flags, *incs, '-c', f, '-o', o])
        return o

    def own(m):
        """The C sources of a module named in its CMakeLists.txt."""
        d = os.path.join(repo, *m.split('.')[:-1])
        leaf = m.split('.')[-1]
        with open(os.path.join(d, 'CMakeLists.txt')) as f:
            txt = f.read()
        k = re.search(r'add_library\(%s MODULE([^)]*)\)' % re.escape(leaf), txt)
        return [os.path.join(d, x) for x in k.group(1).split() if x.endswith('.c')] if k else []

    def ext(m):
        pyx = m.replace('.', '/') + '.pyx'
        c = os.path.join(outdir, m + '.c')
        run([PY, '-m', 'cython', '-3', pyx, '-o', c], cwd=repo)
        o = c[:-2] + '.o'
        run(['gcc', *[f if f != '-O1' else '-O0' for f in flags], *incs, '-c', c, '-o', o])
        return m, o

    lib = [f for f in cconc.c_files(repo)
           if os.path.basename(f) in ('fmfield.c', 'geommech.c', 'common_python.c')
           or '/terms/' in f and 'sfepy.terms.extmods.terms' in mods]
    objs = {f: ex.submit(obj, f) for f in lib + sum([own(m) for m in mods], [])}
    exts = [ex.submit(ext, m) for m in mods]

    def wait():
        try:
            ar = os.path.join(outdir, 'libc_all.a')
            run(['ar', 'rcs', ar] + [objs[f].result() for f in lib])
            out = {}
            for e in exts:
                m, o = e.result()
                so = os.path.join(outdir, m + '.so')
                run(['gcc', '-shared', '-o', so, o, *[objs[f].result() for f in own(m) if f not in lib], ar, '-lm'])
                out[m] = so
            return out
        finally:
            ex.shutdown(wait=True)
    return wait

class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path, target=None):
        so = self.table.get(name)
        if so is None:
            return None
        return importlib.util.spec_from_file_location(
            name, so, loader=importlib.machinery.ExtensionFileLoader(name, so))

def install(table):
    bad = [m for m in table if m in sys.modules]
    if bad:
        raise RuntimeError('already imported: %s' % bad)
    sys.meta_path.insert(0, Finder(table))

D = 'sfepy.discrete.'
ALL = [D + 'common.extmods.' + x for x in ('_fmfield', 'cmapping', 'assemble', 'cmesh', 'crefcoors', '_geommech')] + [
    D + 'fem.extmods.bases', D + 'fem.extmods.lobatto_bases', D + 'iga.extmods.igac',
    'sfepy.mechanics.extmods.ccontres', 'sfepy.terms.extmods.terms']

class Background:
    """The build in a process of its own."""
    def __init__(self, outdir, repo='/repo', mods=ALL):
        self.outdir = outdir
        os.makedirs(outdir, exist_ok=True)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.p = subprocess.Popen([PY, '-m', 'engine.cybuild', outdir, repo, *mods], cwd=here,
                                  stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)

    def wait(self):
        _, err = self.p.communicate()
        if self.p.returncode:
            raise RuntimeError('extension build: ' + err[-1500:])
        with open(os.path.join(self.outdir, 'table.json')) as f:
            return json.load(f)

if __name__ == '__main__':
    t = start(sys.argv[3:], sys.argv[1], sys.argv[2])()
    with open(os.path.join(sys.argv[1], 'table.json'), 'w') as f:
        json.dump(t, f)
