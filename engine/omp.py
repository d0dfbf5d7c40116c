"""
OpenMP regions on the IR executor.

A parallel region is executed by a team of N threads, N at least the number of
loop iterations, each of which runs the outlined function with one iteration of
its own (so any two iterations are on different threads, which some schedule
makes happen).  Every access to memory that existed before the region is logged
with the thread, the barrier phase and the critical section it happened in.
The solver is then asked for two threads and a byte that both touch in the
same phase, one of them writing, without a common critical section.
"""

import time

from . import bv, solve
from .bv import E
from .irexec import Fault, Frame, Ptr, Unsupported
from .solve import z3

WRITES = ('store', 'memcpy write', 'memset', 'FFT output', 'posix_memalign')


def stubs(K, team=40):
    def fork_call(ex, st, a, t):
        fn = a[2].name
        if st.env.get('omp'):
            raise Unsupported("nested parallel region")
        st.env['omp'] = (fn, frozenset(st.mem))
        st.env['omplog'] = None
        start(ex, st, fn, 0, team, tuple(a[3:]))
        return 'pushed'

    def start(ex, st, fn, k, n, args):
        f = ex.funcs[fn]
        tid = ex.new_obj(st, 4, 'stack', 'thread id')
        ex.raw_store(st.wobj(tid), 0, k, 4)
        r = {}
        for (pt, pn), v in zip(f.params, (Ptr(tid, 0), Ptr(tid, 0)) + args):
            r[pn] = v
        ex.entered[fn] = ex.entered.get(fn, 0) + 1
        st.env['thread'], st.env['phase'], st.env['crit'], st.env['disp'] = k, 0, None, None
        fr = Frame(f, r, None)

        def done(ex, st):
            if k+1 < n:
                start(ex, st, fn, k+1, n, args)
                return True
            st.env['races'] = st.env.get('races', ()) + ((fn, st.env['omplog']),)
            st.env['omp'] = None
            return False
        fr.after = done
        st.frames.append(fr)

    def iteration(st, lb, ub, step):
        if any(isinstance(x, E) for x in (lb, ub, step)):
            raise Unsupported("symbolic loop bounds of a parallel loop")
        n = (ub - lb)//step + 1 if ub >= lb else 0
        if n > team:
            raise Unsupported(f"{n} iterations of a parallel loop, {team} modelled")
        st.env['iters'] = n
        k = st.env['thread']
        return lb + k*step if k < n else None

    def dispatch_init(w):
        def f(ex, st, a, t):
            st.env['disp'] = iteration(st, *(bv.sgn(x, w) if not isinstance(x, E) else x for x in a[3:6]))
            return None
        return f

    def dispatch_next(w):
        def f(ex, st, a, t):
            i = st.env['disp']
            if i is None:
                return 0
            st.env['disp'] = None
            put(ex, st, a[2], 1, 4)
            put(ex, st, a[3], i & bv.mask(w), w//8)
            put(ex, st, a[4], i & bv.mask(w), w//8)
            put(ex, st, a[5], 1, w//8)
            return 1
        return f

    def put(ex, st, p, v, n):
        if isinstance(p, Ptr):
            m, off = ex.check_access(st, p, n, 'store')
            ex.raw_store(st.wobj(m.id), off, v, n)

    def static_init(w):
        def f(ex, st, a, t):
            # loc, gtid, schedule, plast, plower, pupper, pstride, incr, chunk
            m, o = ex.check_access(st, a[4], w//8, 'load')
            lb = ex.raw_load(m, o, w//8)
            m, o = ex.check_access(st, a[5], w//8, 'load')
            ub = ex.raw_load(m, o, w//8)
            i = iteration(st, *(bv.sgn(x, w) if not isinstance(x, E) else x for x in (lb, ub, a[7])))
            lo, hi = (i, i) if i is not None else (1, 0)
            put(ex, st, a[4], lo & bv.mask(w), w//8)
            put(ex, st, a[5], hi & bv.mask(w), w//8)
            put(ex, st, a[6], team, w//8)
            return None
        return f

    def barrier(ex, st, a, t):
        st.env['phase'] += 1
        return None

    def critical(ex, st, a, t):
        if st.env['crit'] is not None:
            raise Unsupported("nested critical section")
        st.env['crit'] = a[2].obj
        return None

    def end_critical(ex, st, a, t):
        st.env['crit'] = None
        return None

    def ret(v):
        return lambda ex, st, a, t: v

    s = {'__kmpc_fork_call': fork_call, '__kmpc_barrier': barrier, '__kmpc_critical': critical, '__kmpc_end_critical': end_critical,
         '__kmpc_for_static_fini': ret(None), '__kmpc_global_thread_num': ret(0), '__kmpc_push_num_threads': ret(None),
         'omp_get_thread_num': lambda ex, st, a, t: st.env.get('thread', 0), 'omp_get_num_threads': ret(team),
         'omp_get_max_threads': ret(team), 'omp_get_num_procs': ret(team)}
    for w in (4, 8):
        for u in ('', 'u'):
            s[f"__kmpc_dispatch_init_{w}{u}"] = dispatch_init(8*w)
            s[f"__kmpc_dispatch_next_{w}{u}"] = dispatch_next(8*w)
            s[f"__kmpc_dispatch_fini_{w}{u}"] = ret(None)
            s[f"__kmpc_for_static_init_{w}{u}"] = static_init(8*w)
    return s


def watch(ex, st, m, off, n, what):
    r = st.env.get('omp')
    if not r or m.id not in r[1]:
        return
    st.env['omplog'] = ((st.env['thread'], st.env['phase'], st.env['crit'], m.id, m.name or m.kind, off, n, what in WRITES), st.env['omplog'])


def races(st, bits=64):
    """[(region, description)] for the finished state."""
    out, queries = [], 0
    for fn, log in st.env.get('races', ()):
        by = {}
        while log is not None:
            e, log = log
            by.setdefault((e[3], e[1]), set()).add((e[0], e[2], e[5] if not isinstance(e[5], E) else e[5], e[6], e[7], e[4]))
        for (obj, phase), es in by.items():
            if not any(e[4] for e in es) or len({e[0] for e in es}) < 2:
                continue
            r = conflict(st, sorted(es, key=lambda e: (e[0], str(e[2]), e[3], e[4], str(e[1]))))
            queries += 1
            if r is not None:
                out.append((fn, obj, r))
    return out, queries


def merge(es):
    """Join neighbouring ranges of one thread."""
    out = []
    for th, lock, off, n, write, name in sorted(es, key=lambda e: (e[0], str(e[1]), e[4], e[2], e[3])):
        if out:
            l = out[-1]
            if (l[0], l[1], l[4]) == (th, lock, write) and off <= l[2]+l[3]:
                l[3] = max(l[3], off+n-l[2])
                continue
        out.append([th, lock, off, n, write, name])
    return out


def conflict(st, es):
    s = z3.Solver()
    s.set('timeout', solve.TIMEOUT_MS)
    b = z3.BitVec('byte', 64)
    pick = [z3.Int('first'), z3.Int('second')]
    thr, wr, cr = [], [], []
    locks = {None: 0}
    if any(isinstance(e[2], E) for e in es):
        raise Unsupported("symbolic address in a parallel region")
    rows = merge(es)
    for p, tag in zip(pick, 'ab'):
        t, w, c = z3.Int('t'+tag), z3.Bool('w'+tag), z3.Int('c'+tag)
        thr.append(t)
        wr.append(w)
        cr.append(c)
        alts = []
        for k, (th, lock, off, n, write, name) in enumerate(rows):
            lk = locks.setdefault(lock, len(locks))
            lo = z3.BitVecVal(off, 64)
            alts.append(z3.And(p == k, t == th, w == write, c == lk, z3.UGE(b, lo), z3.ULT(b, lo + n)))
        s.add(z3.Or(alts))
    s.add(thr[0] < thr[1], z3.Or(wr), z3.Or(cr[0] == 0, cr[0] != cr[1]))
    t0 = time.time()
    r = s.check()
    solve.note(t0, r)
    if r == z3.unsat:
        return None
    if r == z3.unknown:
        raise solve.Unknown("race query")
    m = s.model()
    x, y = (rows[m.eval(p).as_long()] for p in pick)
    return {'object': x[5], 'byte': m.eval(b, True).as_long(), 'iterations': [x[0], y[0]],
            'accesses': ['write' if e[4] else 'read' for e in (x, y)]}
