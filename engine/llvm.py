"""Compile /repo's C++ to IR and load it."""

import os
import subprocess
import tempfile
import shutil
import sysconfig
from concurrent.futures import ThreadPoolExecutor

from . import irparse, irexec, pyapi

REPO = os.environ.get('VERIF_REPO', '/repo')
NPI = '/opt/venv/lib/python3.12/site-packages/numpy/_core/include'
PYI = '/usr/include/python3.12'
FLAGS = ['-S', '-emit-llvm', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
         '-fno-discard-value-names', '-std=c++11', '-DNDEBUG', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION', '-w',
         '-Xclang', '-disable-lifetime-markers']


def compile_ir(files, extra=()):
    """{relative path: IR text} for the given sources of /repo."""
    d = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        def one(f):
            out = os.path.join(d, f.replace('/', '_') + '.ll')
            base = ['clang++'] + FLAGS + list(extra) + [f"-I{PYI}", f"-I{NPI}", os.path.join(REPO, f), '-o', out]
            r = subprocess.run(base + ['-fno-exceptions'], capture_output=True, text=True)
            if r.returncode:
                r = subprocess.run(base, capture_output=True, text=True)
            if r.returncode:
                raise irexec.Unsupported(f"clang failed on {f}: {r.stderr[-2000:]}")
            return open(out).read()
        with ThreadPoolExecutor(8) as ex:
            return dict(zip(files, ex.map(one, files)))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(files, extra_stubs=None, extra=(), **kw):
    texts = compile_ir(files, extra)
    mods = [irparse.parse(t, os.path.basename(f)) for f, t in texts.items()]
    st = pyapi.stubs(NPI)
    if extra_stubs:
        st.update(extra_stubs)
    ex = irexec.Exec(mods, st, **kw)
    pyapi.base_state(ex)
    return ex
