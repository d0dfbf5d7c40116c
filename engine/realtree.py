"""Scratch copy of /repo's package with extensions freshly compiled from the
current sources: what counterexamples are replayed on, unpatched."""

import atexit
import json
import os
import shutil
import subprocess
import sys
import tempfile
import glob
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
NPI = '/opt/venv/lib/python3.12/site-packages/numpy/_core/include'
PYI = '/usr/include/python3.12'
PY = '/opt/venv/bin/python'
SUFFIX = '.cpython-312-x86_64-linux-gnu.so'
FFTW = ['-lfftw3f', '-lm']
EXTS = {
    'lsl/reader/_gofast': (['lsl/reader/%s.cpp' % n for n in ('gofast', 'drx', 'drx8', 'drspec', 'vdif', 'tbx', 'cor')], []),
    'lsl/correlator/_spec': (['lsl/correlator/spec.cpp'], FFTW),
    'lsl/correlator/_stokes': (['lsl/correlator/stokes.cpp'], FFTW),
    'lsl/correlator/_core': (['lsl/correlator/core.cpp'], FFTW),
    'lsl/imaging/_gridder': (['lsl/imaging/gridder.cpp'], FFTW + ['-lgsl', '-lgslcblas']),
    'lsl/sim/_simfast': (['lsl/sim/simfast.cpp'], FFTW),
    'lsl/misc/_beamformer': (['lsl/misc/beamformer.cpp'], []),
    'lsl/misc/_wisdom': (['lsl/misc/wisdom.cpp'], FFTW),
}
_trees = {}


def _cleanup():
    for d in _trees.values():
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


def tree(exts=(), asan=False):
    """Path of a scratch tree holding the package; `exts` are compiled from
    source, other extensions are stubbed out unless they already exist."""
    key = (tuple(sorted(exts)), asan)
    if key in _trees:
        return _trees[key]
    d = tempfile.mkdtemp(prefix='verif-real-')
    _trees[key] = d
    shutil.copytree(os.path.join(REPO, 'lsl'), os.path.join(d, 'lsl'), symlinks=True,
                    ignore=lambda p, ns: [n for n in ns if n.endswith('.so') or n == '__pycache__' or
                                          (n == 'data' and os.path.basename(p) == 'lsl')])
    os.symlink(os.path.join(REPO, 'lsl', 'data'), os.path.join(d, 'lsl', 'data'))
    vi = os.path.join(d, 'lsl', 'version', '__init__.py')
    if not os.path.exists(vi):
        os.makedirs(os.path.dirname(vi), exist_ok=True)
        with open(vi, 'w') as f:
            f.write("version = full_version = '0'\nshort_version = '0'\n")

    def build(args):
        ext, src, objdir = args
        o = os.path.join(objdir, src.replace('/', '_') + '.o')
        cmd = ['g++', '-c', '-fPIC', '-O2', '-g0', '-std=c++11', '-w', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION',
               '-fopenmp', f"-I{PYI}", f"-I{NPI}", os.path.join(REPO, src), '-o', o]
        if asan:
            cmd[1:1] = ['-fsanitize=address', '-fno-omit-frame-pointer']
        subprocess.run(cmd, check=True, capture_output=True)
        return ext, o
    objdir = os.path.join(d, 'obj')
    os.makedirs(objdir)
    jobs = [(e, s, objdir) for e in exts for s in _sources(e)]
    objs = {}
    with ThreadPoolExecutor(8) as ex:
        for e, o in ex.map(build, jobs):
            objs.setdefault(e, []).append(o)
    for e, os_ in objs.items():
        cmd = ['g++', '-shared', '-o', os.path.join(d, e + SUFFIX)] + os_ + EXTS[e][1] + ['-lgomp']
        if asan:
            cmd.insert(1, '-fsanitize=address')
        subprocess.run(cmd, check=True, capture_output=True)
    shutil.rmtree(objdir)
    for e in EXTS:
        if e not in exts:
            # not needed by this replay: an importable placeholder
            with open(os.path.join(d, e + '.py'), 'w') as f:
                f.write("class SyncError(IOError):\n    pass\nclass EOFError(IOError):\n    pass\n"
                        "NUM_THREADS = 1\ndef __getattr__(n):\n    if n.startswith('__'):\n        raise AttributeError(n)\n"
                        "    def f(*a, **k):\n        raise RuntimeError('extension not built for this replay')\n    return f\n")
    return d


def _sources(ext):
    if ext == 'lsl/reader/_gofast':
        # any reader source that setup.py's glob-free list names, plus new ones
        return [s for s in EXTS[ext][0] if os.path.exists(os.path.join(REPO, s))]
    return EXTS[ext][0]


def run_py(code, exts=(), args=None, asan=False, timeout=300, env=None):
    """Run Python `code` on the real package.  `args` is passed as JSON on
    stdin; the code prints a JSON document as its last line.  Returns
    (returncode, parsed or None, stderr)."""
    d = tree(exts, asan)
    home = os.path.join(d, 'home')
    os.makedirs(home, exist_ok=True)
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': home, 'PYTHONPATH': d, 'PYTHONDONTWRITEBYTECODE': '1',
         'LSLCONFIGDIR': os.path.join(home, 'lsl'), 'XDG_CONFIG_HOME': home, 'MPLBACKEND': 'Agg', 'TZ': 'UTC', 'LANG': 'C.UTF-8',
         'OMP_NUM_THREADS': '1', 'PYTHONWARNINGS': 'ignore'}
    if asan:
        lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
        stdc = subprocess.run(['gcc', '-print-file-name=libstdc++.so'], capture_output=True, text=True).stdout.strip()
        e.update(LD_PRELOAD=f"{lib} {stdc}", ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', PYTHONMALLOC='malloc')
    if env:
        e.update(env)
    r = subprocess.run([PY, '-c', "import sys,json\nARGS=json.load(sys.stdin)\n" + code], input=json.dumps(args), text=True,
                       capture_output=True, cwd=home, env=e, timeout=timeout)
    out = None
    for line in reversed(r.stdout.strip().splitlines()):
        try:
            out = json.loads(line)
            break
        except ValueError:
            continue
    return r.returncode, out, r.stderr
