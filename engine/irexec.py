"""
Symbolic executor for the IR of `irparse`.

Paths are explored depth first; every branch on a symbolic condition asks the
solver which sides are feasible.  Every memory access is checked against the
bounds and the lifetime of its object for all values of the symbols.
"""

import copy
import os
import itertools

from . import bv, solve
from .bv import E


class Unsupported(Exception):
    """The encoding cannot follow the code: an error of the check, not a verdict."""


class Fault(Exception):
    def __init__(self, kind, msg, model=None, cond=None):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg
        self.model = model
        self.cond = cond


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return f"&{self.obj}+{self.off}"

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.obj == self.obj and o.off == self.off

    def __hash__(self):
        return hash((self.obj, self.off))


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"@{self.name}"


class Undef:
    pass


UNDEF = Undef()


class Mem:
    __slots__ = ('id', 'size', 'cells', 'maxn', 'freed', 'default', 'kind', 'name', 'meta', 'tcache')

    def __init__(self, id, size, kind, name='', default='undef'):
        self.id = id
        self.size = size
        self.cells = {}
        self.maxn = 1
        self.freed = False
        self.default = default
        self.kind = kind
        self.name = name
        self.meta = {}
        self.tcache = None

    def clone(self):
        m = Mem(self.id, self.size, self.kind, self.name, self.default)
        m.cells = dict(self.cells)
        m.maxn = self.maxn
        m.freed = self.freed
        m.meta = {k: (v.copy() if isinstance(v, (dict, list, set)) else v) for k, v in self.meta.items()}
        m.tcache = self.tcache
        return m


class Frame:
    __slots__ = ('func', 'block', 'ip', 'prev', 'regs', 'dst', 'allocas', 'nextlab', 'after')

    def __init__(self, func, regs, dst):
        self.func = func
        self.block = func.entry
        self.ip = 0
        self.prev = None
        self.regs = regs
        self.dst = dst
        self.allocas = []
        self.nextlab = None
        self.after = None

    def clone(self):
        f = Frame(self.func, dict(self.regs), self.dst)
        f.block, f.ip, f.prev = self.block, self.ip, self.prev
        f.allocas = list(self.allocas)
        f.nextlab = self.nextlab
        f.after = self.after
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.frames = []
        self.pc = []
        self.env = {}
        self.err = None
        self.ret = None
        self.steps = 0
        self.fault = None
        self.unsup = None
        self.trace = []

    def clone(self):
        s = State()
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc)
        s.env = {k: (v.copy() if isinstance(v, (dict, list, set)) else v) for k, v in self.env.items()}
        s.err = self.err
        s.ret = self.ret
        s.steps = self.steps
        s.fault = self.fault
        s.unsup = self.unsup
        s.trace = list(self.trace)
        return s

    def wobj(self, oid):
        m = self.mem[oid]
        if oid not in self.owned:
            m = m.clone()
            self.mem[oid] = m
            self.owned.add(oid)
        return m


class Exec:
    def __init__(self, modules, stubs, max_steps=4000000, max_paths=20000):
        self.modules = modules
        self.stubs = stubs
        self.funcs = {}
        self.ids = itertools.count(1)
        self.types = {}
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.instr_count = 0
        self.watch = None
        self.path_count = 0
        self.entered = {}
        self.fresh = itertools.count()
        self.init_state = State()
        self.globmap = {}
        self.load_hook = None
        self.real = None          # kern.Kernel: floats are read as reals
        self._load()

    # ------------------------------------------------------------ set up
    def _sym(self, mod, name):
        if name in mod.internal:
            return f"{mod.name}::{name}"
        return name

    def _load(self):
        for mod in self.modules:
            for n, f in mod.funcs.items():
                self.funcs.setdefault(self._sym(mod, n), f)
        defs = {}
        for mod in self.modules:
            for n, (ty, init, const) in mod.globals.items():
                s = self._sym(mod, n)
                if s not in defs or (init is not None and defs[s][2] is None):
                    defs[s] = (mod, ty, init, const)
        st = self.init_state
        for s, (mod, ty, init, const) in defs.items():
            oid = self.new_obj(st, self.sizeof(mod, ty), 'global', s, 'zero' if init is not None else 'undef')
            self.globmap[s] = oid
            if init is None:
                st.mem[oid].meta['external'] = True
        for s, (mod, ty, init, const) in defs.items():
            if init is not None:
                self.init_global(st, mod, self.globmap[s], 0, ty, init)
        ext = self.stubs.get('__external_global__')
        for s, (mod, ty, init, const) in defs.items():
            if init is None and ext is not None:
                ext(self, st, s, self.globmap[s])

    def init_global(self, st, mod, oid, off, ty, init):
        ty = self.resolve(mod, ty)
        m = st.mem[oid]
        k = init[0]
        if k in ('zero', 'undef'):
            return
        if k == 'bytes':
            for i, b in enumerate(init[1]):
                if b:
                    m.cells[off+i] = (b, 1)
            return
        if k == 'agg':
            if ty[0] in ('arr', 'vec'):
                es = self.sizeof(mod, ty[2])
                for i, (et, v) in enumerate(init[1]):
                    self.init_global(st, mod, oid, off+i*es, et, v)
            else:
                for i, (et, v) in enumerate(init[1]):
                    self.init_global(st, mod, oid, off+self.field_off(mod, ty, i), et, v)
            return
        v = self.const(mod, st, ty, init)
        self.raw_store(m, off, v, self.sizeof(mod, ty))

    # ------------------------------------------------------------- types
    def resolve(self, mod, ty):
        while ty[0] == 'named':
            ty = mod.types[ty[1]]
        return ty

    def sizeof(self, mod, ty):
        key = (mod.name, ty)
        r = self.types.get(key)
        if r is None:
            r = self._sizeof(mod, ty)
            self.types[key] = r
        return r

    def _sizeof(self, mod, ty):
        ty = self.resolve(mod, ty)
        k = ty[0]
        if k == 'i':
            b = (ty[1]+7)//8
            n = 1
            while n < b:
                n *= 2
            return n
        if k == 'f32':
            return 4
        if k in ('f64', 'ptr', 'fn'):
            return 8
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return ty[1]*self.sizeof(mod, ty[2])
        if k == 'vec':
            return ty[1]*self.sizeof(mod, ty[2])
        if k == 'struct':
            off = 0
            al = 1
            for f in ty[1]:
                a = 1 if ty[2] else self.alignof(mod, f)
                al = max(al, a)
                off = (off+a-1)//a*a
                off += self.sizeof(mod, f)
            return (off+al-1)//al*al
        raise Unsupported(f"sizeof {ty}")

    def alignof(self, mod, ty):
        ty = self.resolve(mod, ty)
        k = ty[0]
        if k == 'arr':
            return self.alignof(mod, ty[2])
        if k == 'struct':
            if ty[2]:
                return 1
            return max([1] + [self.alignof(mod, f) for f in ty[1]])
        if k == 'i' and ty[1] == 128:
            return 16
        return self.sizeof(mod, ty)

    def field_off(self, mod, ty, idx):
        off = 0
        for i, f in enumerate(ty[1]):
            a = 1 if ty[2] else self.alignof(mod, f)
            off = (off+a-1)//a*a
            if i == idx:
                return off
            off += self.sizeof(mod, f)
        raise Unsupported("field index")

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, kind, name='', default='undef'):
        oid = next(self.ids)
        st.mem[oid] = Mem(oid, size, kind, name, default)
        st.owned.add(oid)
        return oid

    def raw_store(self, m, off, v, n):
        """Concrete-offset store without checks."""
        m.tcache = None
        cells = m.cells
        if m.maxn > 1 or n > 1:
            lo = off - m.maxn + 1
            for o in range(lo, off+n):
                c = cells.get(o)
                if c is None or (o == off and c[1] == n):
                    continue
                cv, cn = c
                if o + cn <= off:
                    continue
                # split the overlapped cell into bytes
                del cells[o]
                for k in range(cn):
                    if not (off <= o+k < off+n):
                        cells[o+k] = (self.byte_of(cv, cn, k), 1)
        if n > m.maxn:
            m.maxn = n
        cells[off] = (v, n)

    def byte_of(self, v, n, k):
        if isinstance(v, int):
            return (v >> (8*k)) & 255
        if isinstance(v, E):
            if v.sort != 'bv':
                v = bv.to_bits(v)
                if isinstance(v, int):
                    return (v >> (8*k)) & 255
            if v.w < 8*(k+1):
                v = bv.zext(v, v.w, 8*n)
            return bv.extract(v, 8*k+7, 8*k)
        if isinstance(v, (Ptr, FnPtr)):
            return ('pbyte', v, k)
        if v is UNDEF:
            return UNDEF
        raise Unsupported(f"byte of {v!r}")

    def get_byte(self, m, off):
        cells = m.cells
        c = cells.get(off)
        if c is not None:
            return self.byte_of(c[0], c[1], 0) if c[1] > 1 or not isinstance(c[0], int) else c[0]
        for d in range(1, m.maxn):
            c = cells.get(off-d)
            if c is not None:
                if c[1] > d:
                    return self.byte_of(c[0], c[1], d)
                break
        if m.default == 'zero':
            return 0
        if callable(m.default):
            return m.default(off)
        return UNDEF

    def raw_load(self, m, off, n):
        """Concrete-offset load: int, E, Ptr, FnPtr; undefined bytes become
        fresh variables."""
        c = m.cells.get(off)
        if c is not None and c[1] == n:
            v = c[0]
            if v is not UNDEF:
                return v
        bs = [self.get_byte(m, off+k) for k in range(n)]
        if any(isinstance(b, tuple) for b in bs):
            p = bs[0][1] if isinstance(bs[0], tuple) else None
            if p is not None and all(isinstance(b, tuple) and b[1] == p and b[2] == k for k, b in enumerate(bs)):
                return p
            raise Unsupported("partial pointer load")
        if any(b is UNDEF for b in bs):
            for k, b in enumerate(bs):
                if b is UNDEF:
                    nb = bv.var(f"undef!{next(self.fresh)}", 8)
                    bs[k] = nb
                    m.cells[off+k] = (nb, 1)
        if all(isinstance(b, int) for b in bs):
            r = 0
            for k, b in enumerate(bs):
                r |= b << (8*k)
            return r
        return bv.concat_list([(b, 8) for b in reversed(bs)])

    def check_access(self, st, p, n, what):
        """Bounds/lifetime check; returns (mem, offset)."""
        if not isinstance(p, Ptr):
            if isinstance(p, int):
                raise Fault('null-deref' if p < 4096 else 'wild-pointer', f"{what} through {p:#x}")
            raise Unsupported(f"{what} through {p!r}")
        m = st.mem.get(p.obj)
        if m is None:
            raise Unsupported(f"no object {p.obj}")
        if m.freed:
            raise Fault('use-after-free', f"{what} of freed {m.kind} '{m.name}'")
        off, size = p.off, m.size
        if isinstance(off, int) and isinstance(size, int):
            if self.watch is not None:
                self.watch(self, st, m, off, n, what)
            if off < 0 or off + n > size:
                raise Fault('out-of-bounds', f"{what} of {n} bytes at offset {off} of {m.kind} '{m.name}' ({size} bytes)")
            return m, off
        # symbolic: claim off <=u size - n  (size, off 64-bit)
        sz = size if isinstance(size, E) else size & bv.mask(64)
        o = off if isinstance(off, E) else off & bv.mask(64)
        if isinstance(size, int) and size < n:
            raise Fault('out-of-bounds', f"{what} of {n} bytes of {m.kind} '{m.name}' ({size} bytes)")
        lim = bv.binop('sub', 64, sz, n)
        ok = bv.icmp('ule', 64, o, lim)
        if isinstance(size, E):
            ok = bv.band(ok, bv.icmp('uge', 64, sz, n))
        good, model = solve.valid(st.pc, ok)
        if not good:
            f = Fault('out-of-bounds', f"{what} of {n} bytes of {m.kind} '{m.name}' (symbolic offset)", model, bv.bnot(ok))
            if not solve.feasible(st.pc, ok):
                raise f
            # report on a side path, go on under the assumption
            side = st.clone()
            side.fault = f
            side.pc.append(bv.bnot(ok))
            self.finished.append(side)
            st.pc.append(ok)
        return m, off

    def load(self, st, mod, ty, p):
        ty = self.resolve(mod, ty)
        k = ty[0]
        if k == 'vec':
            es = self.sizeof(mod, ty[2])
            return tuple(self.load(st, mod, ty[2], self.padd(p, i*es)) for i in range(ty[1]))
        if k == 'struct':
            return tuple(self.load(st, mod, f, self.padd(p, self.field_off(mod, ty, i))) for i, f in enumerate(ty[1]))
        if k == 'arr':
            es = self.sizeof(mod, ty[2])
            return tuple(self.load(st, mod, ty[2], self.padd(p, i*es)) for i in range(ty[1]))
        n = self.sizeof(mod, ty)
        if k == 'i' and ty[1] % 8:
            n = (ty[1]+7)//8
        elif k == 'i':
            n = ty[1]//8
        m, off = self.check_access(st, p, n, 'load')
        if isinstance(off, E):
            v = self.sym_load(st, m, off, n)
        else:
            v = self.raw_load(m, off, n)
        return self.coerce(v, ty, n)

    def coerce(self, v, ty, n):
        k = ty[0]
        if k in ('f32', 'f64'):
            if isinstance(v, E) and v.sort != 'bv':
                return v
            if isinstance(v, (Ptr, FnPtr)):
                raise Unsupported("pointer as float")
            return bv.from_bits(v, k)
        if isinstance(v, E) and v.sort != 'bv':
            v = bv.to_bits(v)
        if k == 'i' and ty[1] != 8*n and not isinstance(v, (Ptr, FnPtr)):
            v = bv.extract(v, ty[1]-1, 0)
        if k == 'ptr' and isinstance(v, E):
            return v
        return v

    def sym_load(self, st, m, off, n):
        if isinstance(m.size, int) and m.size <= 65536:
            if m.tcache is None:
                bs = []
                for i in range(m.size):
                    b = self.get_byte(m, i)
                    if not isinstance(b, int):
                        bs = None
                        break
                    bs.append(b)
                m.tcache = bv.register_table(bs) if bs is not None else False
            if m.tcache is not False:
                return bv.mk('tbl', 8*n, (m.tcache, off, n))
        vals = self.enum_values(st, off, 64)
        r = None
        for o in vals:
            v = self.raw_load(m, o, n)
            if isinstance(v, (Ptr, FnPtr)):
                if len(vals) == 1:
                    return v
                raise Unsupported("symbolic load of pointers")
            if isinstance(v, E) and v.sort != 'bv':
                v = bv.to_bits(v)
            r = v if r is None else bv.ite(bv.icmp('eq', off.w, off, o), v, r, 8*n)
        return r

    def enum_values(self, st, e, limit):
        """All feasible values of e under the path condition."""
        vals = []
        pc = list(st.pc)
        while True:
            ok, model = solve.check_sat(solve.relevant(pc, e) + [bv.bnot(bv.icmp('eq', e.w, e, v)) for v in vals])
            if not ok:
                return vals
            v = solve.evaluate(e, model)
            vals.append(v)
            if len(vals) > limit:
                raise Unsupported(f"more than {limit} values for {e!r}")

    def store(self, st, mod, ty, v, p):
        ty = self.resolve(mod, ty)
        k = ty[0]
        if k in ('vec', 'arr'):
            es = self.sizeof(mod, ty[2])
            for i in range(ty[1]):
                self.store(st, mod, ty[2], v[i] if v is not UNDEF else UNDEF, self.padd(p, i*es))
            return
        if k == 'struct':
            for i, f in enumerate(ty[1]):
                self.store(st, mod, f, v[i] if v is not UNDEF else UNDEF, self.padd(p, self.field_off(mod, ty, i)))
            return
        n = self.sizeof(mod, ty)
        if k == 'i':
            n = (ty[1]+7)//8
            if isinstance(v, E) and v.sort == 'bv' and v.w < 8*n:
                v = bv.zext(v, v.w, 8*n)
        m, off = self.check_access(st, p, n, 'store')
        if isinstance(off, E):
            vals = self.enum_values(st, off, 256)
            if len(vals) == 1:
                off = vals[0]
            else:
                # weak update by ite on every candidate
                m = st.wobj(m.id)
                for o in vals:
                    old = self.raw_load(m, o, n)
                    nv = v
                    if isinstance(old, (Ptr, FnPtr)) or isinstance(nv, (Ptr, FnPtr)):
                        raise Unsupported("symbolic pointer store")
                    if isinstance(nv, E) and nv.sort != 'bv':
                        nv = bv.to_bits(nv)
                    if isinstance(old, E) and old.sort != 'bv':
                        old = bv.to_bits(old)
                    self.raw_store(m, o, bv.ite(bv.icmp('eq', off.w, off, o), nv, old, 8*n), n)
                return
        m = st.wobj(m.id)
        if off < 0:
            raise Fault('out-of-bounds', 'negative store')
        self.raw_store(m, off, v, n)

    def memcpy(self, st, dst, src, n):
        if isinstance(n, E):
            vals = self.enum_values(st, n, 64)
            if len(vals) != 1:
                raise Unsupported("memcpy of symbolic length")
            n = vals[0]
        if n == 0:
            return
        ms, so = self.check_access(st, src, n, 'memcpy read')
        md, do = self.check_access(st, dst, n, 'memcpy write')
        if isinstance(so, E):
            # e.g. copying one row of a look-up table
            for k in range(n):
                v = self.sym_load(st, ms, bv.binop('add', 64, so, k), 1)
                md = st.wobj(md.id)
                if isinstance(do, E):
                    raise Unsupported("memcpy to symbolic offset")
                self.raw_store(md, do+k, v, 1)
            return
        if isinstance(do, E):
            vals = self.enum_values(st, do, 2)
            if len(vals) != 1:
                raise Unsupported("memcpy to symbolic offset")
            do = vals[0]
        md = st.wobj(md.id)
        i = 0
        cells = ms.cells
        if ms is md or ms.id == md.id:
            snap = Mem(0, ms.size, '', '', ms.default)
            snap.cells = dict(ms.cells)
            snap.maxn = ms.maxn
            ms = snap
            cells = snap.cells
        while i < n:
            c = cells.get(so+i)
            if c is not None and i + c[1] <= n:
                self.raw_store(md, do+i, c[0], c[1])
                i += c[1]
            else:
                b = self.get_byte(ms, so+i)
                if isinstance(b, tuple):
                    raise Unsupported("memcpy of a partial pointer")
                self.raw_store(md, do+i, b, 1)
                i += 1

    def memset(self, st, dst, v, n):
        if isinstance(n, E):
            vals = self.enum_values(st, n, 64)
            if len(vals) != 1:
                raise Unsupported("memset of symbolic length")
            n = vals[0]
        if n == 0:
            return
        m, off = self.check_access(st, dst, n, 'memset')
        m = st.wobj(m.id)
        for i in range(n):
            self.raw_store(m, off+i, v, 1)

    def padd(self, p, d):
        if isinstance(p, Ptr):
            o = p.off
            if isinstance(o, int) and isinstance(d, int):
                return Ptr(p.obj, o+d)
            if isinstance(o, int):
                o &= bv.mask(64)
            if isinstance(d, int):
                d &= bv.mask(64)
            r = bv.binop('add', 64, o, d)
            if isinstance(r, int):
                r = bv.sgn(r, 64)
            return Ptr(p.obj, r)
        if isinstance(p, int) and isinstance(d, int):
            return (p+d) & bv.mask(64)
        raise Unsupported(f"pointer arithmetic on {p!r}")

    # ---------------------------------------------------------- operands
    def const(self, mod, st, ty, o):
        k = o[0]
        if k == 'c':
            return o[1]
        if k == 'fc':
            return bv.fconst(o[1], self.resolve(mod, ty)[0])
        if k == 'glob':
            s = self._sym(mod, o[1])
            if s in self.globmap:
                return Ptr(self.globmap[s], 0)
            return FnPtr(s)
        if k == 'zero':
            return self.zero(mod, ty)
        if k == 'undef':
            ty = self.resolve(mod, ty)
            if ty[0] in ('vec', 'arr'):
                return tuple(self.const(mod, st, ty[2], o) for _ in range(ty[1]))
            if ty[0] == 'struct':
                return tuple(self.const(mod, st, f, o) for f in ty[1])
            return UNDEF
        if k == 'agg':
            return tuple(self.const(mod, st, et, v) for et, v in o[1])
        if k == 'cgep':
            base = self.const(mod, st, ('ptr',), o[2][0][1])
            off = 0
            cur = o[1]
            for i, (it, iv) in enumerate(o[2][1:]):
                v = self.const(mod, st, it, iv)
                v = bv.sgn(v, it[1])
                if i == 0:
                    off += v*self.sizeof(mod, cur)
                else:
                    cur = self.resolve(mod, cur)
                    if cur[0] in ('arr', 'vec'):
                        off += v*self.sizeof(mod, cur[2])
                        cur = cur[2]
                    else:
                        off += self.field_off(mod, cur, v)
                        cur = cur[1][v]
            return self.padd(base, off)
        raise Unsupported(f"constant {o}")

    def zero(self, mod, ty):
        ty = self.resolve(mod, ty)
        if ty[0] in ('arr', 'vec'):
            return tuple(self.zero(mod, ty[2]) for _ in range(ty[1]))
        if ty[0] == 'struct':
            return tuple(self.zero(mod, f) for f in ty[1])
        if ty[0] in ('f32', 'f64'):
            return bv.fconst(0.0, ty[0])
        return 0

    # ------------------------------------------------------------ running
    def start(self, base, fname, args):
        st = base.clone()
        f = self.funcs.get(fname)
        if f is None:
            raise Unsupported(f"function {fname} is not in the encoded modules")
        regs = {}
        for (pt, pn), a in zip(f.params, args):
            regs[pn] = a
        st.frames.append(Frame(f, regs, None))
        self.entered[fname] = self.entered.get(fname, 0) + 1
        return st

    def run(self, base, fname, args):
        """Explore every path of fname(*args); list of final states."""
        self.finished = []
        work = [self.start(base, fname, args)]
        while work:
            st = work.pop()
            try:
                new = self.run_path(st)
            except Fault as f:
                st.fault = f
                if f.model is None and self.real is None:
                    _, f.model = solve.check_sat(st.pc)
                self.finished.append(st)
                continue
            except Unsupported as e:
                # left undecided; the caller may still confirm a failure by replay
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    traceback.print_exc()
                st.unsup = e
                self.finished.append(st)
                continue
            if new is None:
                self.finished.append(st)
            else:
                work.extend(new)
            if len(self.finished) + len(work) > self.max_paths:
                raise Unsupported(f"more than {self.max_paths} paths in {fname}")
        self.path_count += len(self.finished)
        return self.finished

    def fork(self, st, cond):
        """Return (state_true, state_false), either may be None."""
        nf = bv.bnot(cond)
        if self.real is not None and self.real.is_real(cond):
            t = self.real.feasible(st, cond)
            f = self.real.feasible(st, nf) if t else True
        else:
            t = solve.feasible(st.pc, cond)
            f = solve.feasible(st.pc, nf) if t else True
        if t and f:
            o = st.clone()
            st.pc.append(cond)
            o.pc.append(nf)
            return st, o
        if t:
            return st, None
        return None, st

    def run_path(self, st):
        while True:
            fr = st.frames[-1]
            mod = fr.func.module
            regs = fr.regs
            ins = fr.func.blocks[fr.block]
            n = len(ins)
            res = None
            while fr.ip < n:
                i = ins[fr.ip]
                st.steps += 1
                if st.steps > self.max_steps:
                    raise Unsupported("step limit")
                self.instr_count += 1
                op = i[0]
                h = DISPATCH.get(op)
                if h is None:
                    raise Unsupported(f"instruction {op} {i[2] if len(i) > 2 else ''} in {fr.func.name}")
                res = h(self, st, fr, mod, regs, i)
                if res is not None:
                    break
                fr.ip += 1
            if res is None:
                raise Unsupported("fell off a block")
            if res == 'next':      # block changed / frame pushed
                continue
            if res == 'done':
                return None
            return res             # list of forked states

    def val(self, mod, st, regs, ty, o):
        k = o[0]
        if k == 'reg':
            return regs[o[1]]
        if k == 'c':
            return o[1]
        return self.const(mod, st, ty, o)

    def goto(self, fr, label):
        fr.prev = fr.block
        fr.block = label
        fr.ip = 0
        # evaluate phis simultaneously
        ins = fr.func.blocks[label]
        k = 0
        vals = []
        regs = fr.regs
        while k < len(ins) and ins[k][0] == 'phi':
            i = ins[k]
            o = i[3][fr.prev]
            vals.append((i[1], self.val(fr.func.module, None, regs, i[2], o)))
            k += 1
        for d, v in vals:
            regs[d] = v
        fr.ip = k

    def do_return(self, st, v):
        fr = st.frames.pop()
        for oid in fr.allocas:
            st.wobj(oid).freed = True
        if not st.frames:
            st.ret = v
            return 'done'
        if fr.after is not None and fr.after(self, st):
            return 'next'
        caller = st.frames[-1]
        if fr.dst is not None:
            caller.regs[fr.dst] = v
        if caller.nextlab is not None:
            lab, caller.nextlab = caller.nextlab, None
            self.goto(caller, lab)
        else:
            caller.ip += 1
        return 'next'

    def finish_call(self, st, fr, dst, v, nextlab):
        """A stub returned v."""
        if dst is not None:
            fr.regs[dst] = v
        if nextlab is not None:
            self.goto(fr, nextlab)
            return 'next'
        return None

    def do_call(self, st, fr, mod, regs, dst, rt, callee, args, nextlab=None):
        if callee[0] == 'glob':
            target = FnPtr(self._sym(mod, callee[1]))
        else:
            target = self.val(mod, st, regs, ('ptr',), callee)
        if not isinstance(target, FnPtr):
            raise Unsupported(f"call through {target!r}")
        name = target.name
        av = [self.val(mod, st, regs, t, o) if t[0] != 'metadata' else None for t, o in args]
        stub = self.stubs.get(name)
        if stub is None and name.startswith('llvm.'):
            stub = intrinsic(name)
        f = self.funcs.get(name)
        if stub is None and f is not None:
            r = {}
            for (pt, pn), a in zip(f.params, av):
                r[pn] = a
            self.entered[name] = self.entered.get(name, 0) + 1
            if len(st.frames) > 200:
                raise Unsupported("call depth")
            fr.nextlab = nextlab
            st.frames.append(Frame(f, r, dst))
            return 'next'
        if stub is None:
            raise Unsupported(f"call to unmodelled function '{name}'")
        out = stub(self, st, av, [t for t, _ in args])
        if out == 'pushed':
            fr.nextlab = nextlab
            return 'next'
        if isinstance(out, Forks):
            states = []
            for s2, v in out.alts:
                fr2 = s2.frames[-1]
                if self.finish_call(s2, fr2, dst, v, nextlab) is None:
                    fr2.ip += 1
                states.append(s2)
            return states
        return self.finish_call(st, fr, dst, out, nextlab)


class Forks:
    """Alternative outcomes of a stub: [(state, value)]."""
    def __init__(self, alts):
        self.alts = alts


# ----------------------------------------------------------- instructions
def lanes(f, ty, *vs):
    return tuple(f(*x) for x in zip(*vs))


def u2v(ex, v, w):
    """undef operand -> fresh value."""
    if v is UNDEF:
        return bv.var(f"undef!{next(ex.fresh)}", w)
    return v


def i_bin(ex, st, fr, mod, regs, i):
    _, dst, op, ty, a, b = i
    x = ex.val(mod, st, regs, ty, a)
    y = ex.val(mod, st, regs, ty, b)

    def one(x, y, w):
        x, y = u2v(ex, x, w), u2v(ex, y, w)
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
            if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
                ox = x.off & bv.mask(64) if isinstance(x.off, int) else x.off
                oy = y.off & bv.mask(64) if isinstance(y.off, int) else y.off
                return bv.binop('sub', w, ox, oy)
            if op in ('add', 'sub') and isinstance(x, Ptr):
                d = y if op == 'add' else bv.binop('sub', 64, 0, y)
                return ex.padd(x, bv.sgn(d, 64) if isinstance(d, int) else d)
            if op == 'and' and isinstance(x, Ptr) and isinstance(y, int) and y < 16 and isinstance(x.off, int):
                return x.off & y      # objects are taken as 16-byte aligned
            raise Unsupported(f"{op} on pointers")
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if not isinstance(y, E):
                if y == 0:
                    raise Fault('div-by-zero', f"{op} by zero in {fr.func.name}")
            else:
                nz = bv.bnot(bv.icmp('eq', w, y, 0))
                good, model = solve.valid(st.pc, nz)
                if not good:
                    f = Fault('div-by-zero', f"{op} by zero in {fr.func.name}", model, bv.bnot(nz))
                    if not solve.feasible(st.pc, nz):
                        raise f
                    side = st.clone()
                    side.fault = f
                    side.pc.append(bv.bnot(nz))
                    ex.finished.append(side)
                    st.pc.append(nz)
        return bv.binop(op, w, x, y)
    if ty[0] == 'vec':
        regs[dst] = tuple(one(p, q, ty[2][1]) for p, q in zip(x, y))
    else:
        regs[dst] = one(x, y, ty[1])


def i_fbin(ex, st, fr, mod, regs, i):
    _, dst, op, ty, a, b = i
    x = ex.val(mod, st, regs, ty, a)
    y = ex.val(mod, st, regs, ty, b)
    if ty[0] == 'vec':
        regs[dst] = tuple(bv.fop(op, ty[2][0], p, q) for p, q in zip(x, y))
    else:
        regs[dst] = bv.fop(op, ty[0], x, y)


def i_fneg(ex, st, fr, mod, regs, i):
    _, dst, ty, a = i
    x = ex.val(mod, st, regs, ty, a)
    if ty[0] == 'vec':
        regs[dst] = tuple(bv.fop('fneg', ty[2][0], p) for p in x)
    else:
        regs[dst] = bv.fop('fneg', ty[0], x)


def i_cast(ex, st, fr, mod, regs, i):
    _, dst, op, ty, a, t2 = i
    x = ex.val(mod, st, regs, ty, a)
    if ty[0] == 'vec' and t2[0] == 'vec' and ty[1] == t2[1]:
        regs[dst] = tuple(cast1(ex, st, op, p, ty[2], t2[2]) for p in x)
    elif ty[0] == 'vec' or t2[0] == 'vec':
        if op != 'bitcast':
            raise Unsupported("vector cast")
        # bitcast between vector and scalar / other vector via bits
        parts = []
        if ty[0] == 'vec':
            w = ex.sizeof(mod, ty[2])*8
            for p in x:
                parts.append((bv.to_bits(p) if isinstance(p, E) and p.sort != 'bv' else p, w))
        else:
            w = ex.sizeof(mod, ty)*8
            parts.append((bv.to_bits(x) if isinstance(x, E) and x.sort != 'bv' else x, w))
        if any(p[0] is UNDEF for p in parts):
            parts = [(u2v(ex, p, w), w) for p, w in parts]
        whole = bv.concat_list(list(reversed(parts)))
        tot = sum(p[1] for p in parts)

        def mkv(bits, t):
            return bv.from_bits(bits, t[0]) if t[0] in ('f32', 'f64') else bits
        if t2[0] == 'vec':
            w2 = ex.sizeof(mod, t2[2])*8
            regs[dst] = tuple(mkv(bv.extract(whole, (k+1)*w2-1, k*w2), t2[2]) for k in range(t2[1]))
        else:
            regs[dst] = mkv(whole, t2)
    else:
        if ex.real is not None and op in ('sitofp', 'uitofp') and isinstance(x, E) and ex.real.counts(x):
            out = []
            for s, v in ex.real.fork_int(st, x, ty[1]):
                s.frames[-1].regs[dst] = cast1(ex, s, op, v, ty, t2)
                s.frames[-1].ip += 1
                out.append(s)
            return out
        if ex.real is not None and op in ('fptosi', 'fptoui') and isinstance(x, E) and not bv.is_fc(x):
            out = []
            for s, v in ex.real.roundfork(st, x, 'trunc'):
                s.frames[-1].regs[dst] = v & bv.mask(t2[1])
                s.frames[-1].ip += 1
                out.append(s)
            return out
        regs[dst] = cast1(ex, st, op, x, ty, t2)


def cast1(ex, st, op, x, ty, t2):
    if x is UNDEF:
        if t2[0] in ('f32', 'f64'):
            return bv.from_bits(bv.var(f"undef!{next(ex.fresh)}", 32 if t2[0] == 'f32' else 64), t2[0])
        return bv.var(f"undef!{next(ex.fresh)}", t2[1]) if t2[0] == 'i' else 0
    if op == 'zext':
        return bv.zext(x, ty[1], t2[1])
    if op == 'sext':
        return bv.sext(x, ty[1], t2[1])
    if op == 'trunc':
        if isinstance(x, Ptr):
            raise Unsupported("trunc of pointer")
        return bv.extract(x, t2[1]-1, 0)
    if op == 'sitofp':
        return bv.sitofp(x, ty[1], t2[0])
    if op == 'uitofp':
        return bv.uitofp(x, ty[1], t2[0])
    if op in ('fptosi', 'fptoui'):
        if bv.is_fc(x):
            v = bv.fval(x)
            if v != v or v in (float('inf'), float('-inf')):
                return bv.var(f"undef!{next(ex.fresh)}", t2[1])
            return int(v) & bv.mask(t2[1])
        return bv.mk(op, t2[1], (x,))
    if op in ('fpext', 'fptrunc'):
        if bv.is_fc(x):
            return bv.fconst(bv.fval(x), t2[0])
        return bv.mk(op, 32 if t2[0] == 'f32' else 64, (x,), t2[0])
    if op == 'bitcast':
        if t2[0] in ('f32', 'f64') and ty[0] == 'i':
            return bv.from_bits(x, t2[0])
        if t2[0] == 'i' and ty[0] in ('f32', 'f64'):
            return bv.to_bits(x)
        return x
    if op in ('inttoptr', 'ptrtoint', 'addrspacecast'):
        return x
    raise Unsupported(op)


def i_load(ex, st, fr, mod, regs, i):
    _, dst, ty, p = i
    pv = regs[p[1]] if p[0] == 'reg' else ex.const(mod, st, ('ptr',), p)
    regs[dst] = ex.load(st, mod, ty, pv)


def i_store(ex, st, fr, mod, regs, i):
    _, _, ty, v, p = i
    pv = regs[p[1]] if p[0] == 'reg' else ex.const(mod, st, ('ptr',), p)
    ex.store(st, mod, ty, ex.val(mod, st, regs, ty, v), pv)


def i_gep(ex, st, fr, mod, regs, i):
    _, dst, bt, p, idx = i
    pv = ex.val(mod, st, regs, ('ptr',), p)
    off = 0
    sym = None
    cur = bt
    for k, (it, iv) in enumerate(idx):
        v = ex.val(mod, st, regs, it, iv)
        if k == 0:
            sc = ex.sizeof(mod, cur)
        else:
            cur = ex.resolve(mod, cur)
            if cur[0] in ('arr', 'vec'):
                cur = cur[2]
                sc = ex.sizeof(mod, cur)
            else:
                off += ex.field_off(mod, cur, v)
                cur = cur[1][v]
                continue
        if isinstance(v, int):
            off += bv.sgn(v, it[1])*sc
        elif isinstance(v, E):
            t = bv.binop('mul', 64, bv.sext(v, it[1], 64), sc)
            sym = t if sym is None else bv.binop('add', 64, sym, t)
        else:
            raise Unsupported(f"gep index {v!r}")
    r = ex.padd(pv, off) if off or sym is None else pv
    if sym is not None:
        r = ex.padd(r, sym)
    regs[dst] = r


def i_icmp(ex, st, fr, mod, regs, i):
    _, dst, pred, ty, a, b = i
    x = ex.val(mod, st, regs, ty, a)
    y = ex.val(mod, st, regs, ty, b)
    if ty[0] == 'vec':
        regs[dst] = tuple(icmp1(ex, pred, ty[2], p, q) for p, q in zip(x, y))
    else:
        regs[dst] = icmp1(ex, pred, ty, x, y)


def icmp1(ex, pred, ty, x, y):
    if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
            ox = x.off & bv.mask(64) if isinstance(x.off, int) else x.off
            oy = y.off & bv.mask(64) if isinstance(y.off, int) else y.off
            return bv.icmp(pred, 64, ox, oy)
        if pred == 'eq':
            return int(x == y)
        if pred == 'ne':
            return int(not (x == y))
        if isinstance(x, int):
            return int(pred in ('ult', 'ule'))
        if isinstance(y, int):
            return int(pred in ('ugt', 'uge'))
        raise Unsupported("ordering of unrelated pointers")
    w = 64 if ty[0] == 'ptr' else ty[1]
    x, y = u2v(ex, x, w), u2v(ex, y, w)
    return bv.icmp(pred, w, x, y)


def i_fcmp(ex, st, fr, mod, regs, i):
    _, dst, pred, ty, a, b = i
    x = ex.val(mod, st, regs, ty, a)
    y = ex.val(mod, st, regs, ty, b)
    if ty[0] == 'vec':
        raise Unsupported("vector fcmp")
    if ex.real is not None and not (bv.is_fc(x) and bv.is_fc(y)):
        if pred in ('ord', 'uno'):
            regs[dst] = int(pred == 'ord')
            return
        if pred[0] == 'u':
            pred = 'o' + pred[1:]
    regs[dst] = fcmp1(pred, x, y)


def fcmp1(pred, x, y):
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if bv.is_fc(x) and bv.is_fc(y):
        p, q = bv.fval(x), bv.fval(y)
        un = p != p or q != q
        if pred == 'ord':
            return int(not un)
        if pred == 'uno':
            return int(un)
        base = {'eq': p == q, 'gt': p > q, 'ge': p >= q, 'lt': p < q, 'le': p <= q, 'ne': p != q}[pred[1:]]
        return int(base and not un) if pred[0] == 'o' else int(base or un)
    if x is y and pred in ('ord', 'uno', 'oeq', 'une', 'ueq', 'one'):
        if pred in ('ueq',):
            return 1
        if pred in ('one',):
            return 0
    return bv.mk('fcmp_'+pred, 1, (x, y))


def i_jmp(ex, st, fr, mod, regs, i):
    ex.goto(fr, i[2])
    return 'next'


def i_br(ex, st, fr, mod, regs, i):
    _, _, c, a, b = i
    v = ex.val(mod, st, regs, ('i', 1), c)
    v = u2v(ex, v, 1)
    if not isinstance(v, E):
        ex.goto(fr, a if v else b)
        return 'next'
    t, f = ex.fork(st, v)
    out = []
    if t is not None:
        ex.goto(t.frames[-1], a)
        out.append(t)
    if f is not None:
        ex.goto(f.frames[-1], b)
        out.append(f)
    if len(out) == 1 and out[0] is st:
        return 'next'
    return out


def i_switch(ex, st, fr, mod, regs, i):
    _, _, ty, v, d, cases = i
    x = ex.val(mod, st, regs, ty, v)
    if not isinstance(x, E):
        for c, lab in cases:
            if c == x:
                ex.goto(fr, lab)
                return 'next'
        ex.goto(fr, d)
        return 'next'
    out = []
    rest = st
    for c, lab in cases:
        t, f = ex.fork(rest, bv.icmp('eq', ty[1], x, c))
        if t is not None:
            if t is rest and f is not None:
                pass
            ex.goto(t.frames[-1], lab)
            out.append(t)
        rest = f
        if rest is None:
            break
    if rest is not None:
        ex.goto(rest.frames[-1], d)
        out.append(rest)
    return out


def i_phi(ex, st, fr, mod, regs, i):
    raise Unsupported("phi outside block entry")


def i_select(ex, st, fr, mod, regs, i):
    _, dst, ct, c, ty, a, b = i
    cv = ex.val(mod, st, regs, ct, c)
    x = ex.val(mod, st, regs, ty, a)
    y = ex.val(mod, st, regs, ty, b)
    if ct[0] == 'vec':
        regs[dst] = tuple(sel(ex, st, p, q, r, ty[2]) for p, q, r in zip(cv, x, y))
        return
    if ty[0] == 'vec':
        regs[dst] = tuple(sel(ex, st, cv, q, r, ty[2]) for q, r in zip(x, y))
        return
    cv = u2v(ex, cv, 1)
    if isinstance(cv, E) and (isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)) or ty[0] == 'ptr'):
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj:
            ox = x.off & bv.mask(64) if isinstance(x.off, int) else x.off
            oy = y.off & bv.mask(64) if isinstance(y.off, int) else y.off
            regs[dst] = Ptr(x.obj, bv.ite(cv, ox, oy, 64))
            return
        if x == y:
            regs[dst] = x
            return
        t, f = ex.fork(st, cv)
        out = []
        for s, v in ((t, x), (f, y)):
            if s is not None:
                s.frames[-1].regs[dst] = v
                s.frames[-1].ip += 1
                out.append(s)
        return out
    if ex.real is not None and isinstance(cv, E) and x is not y and (ty[0] in ('f32', 'f64') or ex.real.is_real(cv)):
        t, f = ex.fork(st, cv)
        out = []
        for s, v in ((t, x), (f, y)):
            if s is not None:
                s.frames[-1].regs[dst] = v
                s.frames[-1].ip += 1
                out.append(s)
        return out
    regs[dst] = sel(ex, st, cv, x, y, ty)


def sel(ex, st, c, x, y, ty):
    w = 64 if ty[0] == 'f64' else 32 if ty[0] == 'f32' else (64 if ty[0] == 'ptr' else ty[1])
    if not isinstance(c, E):
        return x if c else y
    if x is UNDEF:
        return y
    if y is UNDEF:
        return x
    return bv.ite(c, x, y, w)


def i_call(ex, st, fr, mod, regs, i):
    return ex.do_call(st, fr, mod, regs, i[1], i[2], i[3], i[4])


def i_invoke(ex, st, fr, mod, regs, i):
    return ex.do_call(st, fr, mod, regs, i[1], i[2], i[3], i[4], nextlab=i[5])


def i_ret(ex, st, fr, mod, regs, i):
    v = None if i[3] is None else ex.val(mod, st, regs, i[2], i[3])
    return ex.do_return(st, v)


def i_unreachable(ex, st, fr, mod, regs, i):
    raise Fault('unreachable', f"undefined behaviour or abort reached in {fr.func.name}")


def i_alloca(ex, st, fr, mod, regs, i):
    _, dst, ty, n = i
    cnt = ex.val(mod, st, regs, ('i', 64), n)
    if isinstance(cnt, E):
        raise Unsupported("variable alloca")
    oid = ex.new_obj(st, cnt*ex.sizeof(mod, ty), 'stack', f"{fr.func.name}:{dst}")
    fr.allocas.append(oid)
    regs[dst] = Ptr(oid, 0)


def i_freeze(ex, st, fr, mod, regs, i):
    v = ex.val(mod, st, regs, i[2], i[3])
    if v is UNDEF:
        v = 0 if i[2][0] in ('i', 'ptr') else bv.fconst(0.0, i[2][0])
    regs[i[1]] = v


def i_extractvalue(ex, st, fr, mod, regs, i):
    v = ex.val(mod, st, regs, i[2], i[3])
    for k in i[4]:
        v = v[k]
    regs[i[1]] = v


def i_insertvalue(ex, st, fr, mod, regs, i):
    _, dst, ty, v, e, idx = i
    x = ex.val(mod, st, regs, ty, v)
    # element type is not needed for registers/consts of scalar kind
    t = ex.resolve(mod, ty)
    for k in idx:
        t = ex.resolve(mod, t[1][k] if t[0] == 'struct' else t[2])
    y = ex.val(mod, st, regs, t, e)

    def ins(x, idx):
        if not idx:
            return y
        l = list(x)
        l[idx[0]] = ins(l[idx[0]], idx[1:])
        return tuple(l)
    regs[dst] = ins(x, idx)


def i_extractelement(ex, st, fr, mod, regs, i):
    v = ex.val(mod, st, regs, i[2], i[3])
    k = ex.val(mod, st, regs, ('i', 64), i[4])
    if isinstance(k, E):
        raise Unsupported("symbolic extractelement")
    regs[i[1]] = v[k]


def i_insertelement(ex, st, fr, mod, regs, i):
    _, dst, ty, v, e, k = i
    x = list(ex.val(mod, st, regs, ty, v))
    kk = ex.val(mod, st, regs, ('i', 64), k)
    x[kk] = ex.val(mod, st, regs, ty[2], e)
    regs[dst] = tuple(x)


def i_shufflevector(ex, st, fr, mod, regs, i):
    _, dst, ty, a, b, mt, m = i
    x = ex.val(mod, st, regs, ty, a)
    y = ex.val(mod, st, regs, ty, b)
    mk = ex.val(mod, st, regs, mt, m)
    both = tuple(x) + tuple(y)
    regs[dst] = tuple(both[k] if isinstance(k, int) else UNDEF for k in mk)


DISPATCH = {'bin': i_bin, 'fbin': i_fbin, 'fneg': i_fneg, 'cast': i_cast, 'load': i_load, 'store': i_store,
            'gep': i_gep, 'icmp': i_icmp, 'fcmp': i_fcmp, 'jmp': i_jmp, 'br': i_br, 'switch': i_switch,
            'phi': i_phi, 'select': i_select, 'call': i_call, 'invoke': i_invoke, 'ret': i_ret,
            'unreachable': i_unreachable, 'alloca': i_alloca, 'freeze': i_freeze,
            'extractvalue': i_extractvalue, 'insertvalue': i_insertvalue, 'extractelement': i_extractelement,
            'insertelement': i_insertelement, 'shufflevector': i_shufflevector}


# ------------------------------------------------------------- intrinsics
def bswap(v, w):
    if not isinstance(v, E):
        return int.from_bytes(v.to_bytes(w//8, 'little'), 'big')
    return bv.concat_list([(bv.extract(v, 8*k+7, 8*k), 8) for k in range(w//8)])


def intrinsic(name):
    p = name.split('.')
    op = p[1]
    if op in ('lifetime', 'dbg', 'assume', 'experimental', 'donothing', 'prefetch', 'stacksave', 'stackrestore',
              'invariant', 'var'):
        if op == 'stacksave':
            return lambda ex, st, a, t: 0
        return lambda ex, st, a, t: None
    if op in ('memcpy', 'memmove'):
        return lambda ex, st, a, t: ex.memcpy(st, a[0], a[1], a[2])
    if op == 'memset':
        return lambda ex, st, a, t: ex.memset(st, a[0], a[1], a[2])
    if op == 'bswap':
        return lambda ex, st, a, t: bswap(a[0], t[0][1])
    if op in ('umin', 'umax', 'smin', 'smax'):
        pred = {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op]
        return lambda ex, st, a, t: bv.ite(bv.icmp(pred, t[0][1], a[0], a[1]), a[0], a[1], t[0][1])
    if op == 'abs':
        return lambda ex, st, a, t: bv.ite(bv.icmp('slt', t[0][1], a[0], 0), bv.binop('sub', t[0][1], 0, a[0]),
                                           a[0], t[0][1])
    if op in ('fshl', 'fshr'):
        def fsh(ex, st, a, t):
            w = t[0][1]
            if isinstance(a[2], E):
                raise Unsupported("symbolic funnel shift")
            k = a[2] % w
            whole = bv.concat_list([(a[0], w), (a[1], w)])
            if op == 'fshl':
                return bv.extract(whole, 2*w-1-k, w-k)
            return bv.extract(whole, w-1+k, k)
        return fsh
    if op == 'ctpop':
        def ctpop(ex, st, a, t):
            w = t[0][1]
            r = 0
            for k in range(w):
                r = bv.binop('add', w, r, bv.zext(bv.extract(a[0], k, k), 1, w))
            return r
        return ctpop
    if op in ('fmuladd', 'fma'):
        return lambda ex, st, a, t: bv.fop('fadd', t[0][0], bv.fop('fmul', t[0][0], a[0], a[1]), a[2])
    if op in ('sqrt', 'fabs', 'floor', 'round', 'ceil', 'trunc', 'rint', 'sin', 'cos', 'exp', 'log', 'pow'):
        return lambda ex, st, a, t: bv.fop(op, t[0][0], *a)
    if op == 'trap':
        def trap(ex, st, a, t):
            raise Fault('trap', 'llvm.trap')
        return trap
    if op in ('umul', 'uadd', 'smul', 'sadd', 'usub', 'ssub'):
        def ov(ex, st, a, t):
            w = t[0][1]
            o = op[1:]
            ext = bv.zext if op[0] == 'u' else bv.sext
            full = bv.binop(o, 2*w, ext(a[0], w, 2*w), ext(a[1], w, 2*w))
            lo = bv.extract(full, w-1, 0)
            return (lo, bv.bnot(bv.icmp('eq', 2*w, full, ext(lo, w, 2*w))))
        return ov
    if op in ('usub', ) and p[2] == 'sat':
        return None
    return None
