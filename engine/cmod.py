"""A C extension module of /repo loaded into the symbolic executor: run its
real initialisation and expose its method table."""

from . import llvm, pyapi, irexec
from .irexec import Ptr, FnPtr, Unsupported
from .pyapi import new_py, IMMORTAL


class CModule:
    def __init__(self, files, name, extra_stubs=None, **kw):
        self.files = list(files)
        stubs = {
            'PyModuleDef_Init': lambda ex, st, a, t: self._def(ex, st, a[0]),
            'PyModule_Create2': lambda ex, st, a, t: self._create(ex, st, a[0]),
            'PyModule_AddStringConstant': lambda ex, st, a, t: 0,
            'PyModule_AddIntConstant': lambda ex, st, a, t: 0,
            'PyModule_AddObjectRef': lambda ex, st, a, t: 0,
            'PyModule_Add': lambda ex, st, a, t: 0,
        }
        if extra_stubs:
            stubs.update(extra_stubs)
        self.ex = llvm.load(files, stubs, **kw)
        ex = self.ex
        st = ex.init_state
        st.env.update(short=False, ioerr=False, nomem=False)
        self.defp = None
        self.module = new_py(ex, st, 'module', 64, ref=IMMORTAL, attrs={})
        out = ex.run(st, f"PyInit_{name}", [])
        st = self._one(out)
        if self.defp is None:
            raise Unsupported('no module definition')
        d = self.defp
        self.methods = self._methods(st, self._ptr(st, d, 64))
        slots = self._ptr(st, d, 72)
        if isinstance(slots, Ptr):
            k = 0
            while True:
                m = st.mem[slots.obj]
                sid = ex.raw_load(m, slots.off+16*k, 4)
                if sid == 0:
                    break
                fn = ex.raw_load(m, slots.off+16*k+8, 8)
                if sid == 2:      # Py_mod_exec
                    r = self._one(ex.run(st, fn.name, [self.module]))
                    if r.ret != 0:
                        raise Unsupported(f"module initialisation failed: {r.err}")
                    st = r
                k += 1
        st.err = None
        st.pc = []
        self.base = st

    def _one(self, out):
        if len(out) != 1 or out[0].fault:
            raise Unsupported(f"module initialisation: {[(o.fault, o.err) for o in out]}")
        return out[0]

    def _def(self, ex, st, p):
        self.defp = p
        return p

    def _create(self, ex, st, p):
        self.defp = p
        return self.module

    def _ptr(self, st, p, off):
        return self.ex.raw_load(st.mem[p.obj], p.off+off, 8)

    def _methods(self, st, p):
        out = {}
        k = 0
        while True:
            m = st.mem[p.obj]
            nm = self.ex.raw_load(m, p.off+32*k, 8)
            if nm == 0:
                break
            fn = self.ex.raw_load(m, p.off+32*k+8, 8)
            flags = self.ex.raw_load(m, p.off+32*k+16, 4)
            out[pyapi.cstr(self.ex, st, nm)] = (fn.name, flags)
            k += 1
        return out

    def call(self, st, method, args, kw=None):
        """All final states of method(*args)."""
        ex = self.ex
        fn, flags = self.methods[method]
        t = new_py(ex, st, 'tuple', 64, items=list(args))
        a = [self.module, t]
        if flags & 2:
            a.append(0 if not kw else new_py(ex, st, 'dict', 64, kw=kw))
        self.argtuple = t
        return ex.run(st, fn, a)
