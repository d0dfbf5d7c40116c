import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import bv, common, readerlib as rl, solve
from checks import reader_specs as rs
from checks.reader_check import Reader

MODES = [(s, n) for s in (64, 128, 256) for n in (4, 8, 12, 16)]


def mode_pre(prefix, s, n):
    f = lambda i: bv.var(f"{prefix}{i}", 8)
    return [rs.byte_eq(f(16), s >> 8), rs.byte_eq(f(17), s & 0xFF), rs.byte_eq(f(18), n >> 8), rs.byte_eq(f(19), n & 0xFF)]


def prime(c, mod, method, mode):
    """Process state after one complete frame of `mode` has been read."""
    if mode is None:
        return None, []
    s, n = mode
    R = Reader(c, mod, method)
    f = lambda i: bv.var(f"h{i}", 8)
    pre = mode_pre('h', s, n) + [rs.sync5c(f)]
    # concrete everywhere but the header: only the cached state matters
    runs = R.explore(None, pre, None, False, lambda i: f(i) if i < 28 else (i*7) & 0xFF)
    st = [r for r in runs if r.kind == ('frame' if mode in MODES else 'SyncError')]
    if len(st) != 1:
        c.extra.setdefault('prime_outcomes', []).append([r.kind for r in runs])
        return 'bad', [(method, 'h', 28 + max(8192, s*n*2))]
    return st[0].st, [(method, 'h', 28 + 8192)]


def body(c):
    mod = rl.load()
    deep = common.thorough()
    for method, kind in (('read_tbx', 'cf32'), ('read_tbx_ci8', 'ci8')):
        R = Reader(c, mod, method)
        primes = [None, (64, 4), (128, 12), (256, 16), (77, 3)] if not deep else [None] + MODES + [(77, 3)]
        for k, p in enumerate(primes):
            base, hist = prime(c, mod, method, p)
            if base == 'bad':
                continue
            for j, (s, n) in enumerate(MODES):
                if not deep and p is not None and (j + k) % 4 and s*n > 1024:
                    continue
                name = f"{kind} {s} stands x {n} channels, after {'start-up' if p is None else f'a {p[0]}x{p[1]} frame'}"
                size = 28 + s*n*2
                R.check(name, lambda f: rs.tbx(f, kind, s, n), base=base, pre=mode_pre('f', s, n), history=hist,
                        sync_pos=0, short=(p is None), filelen=28+8192)
        # any other stand/channel count is not a frame
        f = lambda i: bv.var(f"f{i}", 8)
        ns, nc = bv.concat(f(16), 8, f(17), 8), bv.concat(f(18), 8, f(19), 8)
        known = 0
        for s, n in MODES:
            known = bv.bor(known, bv.band(bv.icmp('eq', 16, ns, s), bv.icmp('eq', 16, nc, n)))
        runs = R.explore(None, [bv.bnot(known)], None, False)
        cnt = 0
        for r in runs:
            cnt += 1
            if r.kind == 'SyncError' and r.untouched() and r.st.env['pos'] == 0:
                continue
            spec = lambda f: dict(rs.tbx(f, kind, 64, 4), valid=0)
            R.prefix = 'f'
            R.bad(f"{kind} unknown layout", f"a header with an unknown layout gives {r.kind}", r.st.pc, [], 28+8192, spec, 'diff')
        c.reach(f"{kind} unknown layout", cnt > 0)
        c.ob(f"{kind} unknown layout is a sync error", cnt)
    c.func(*mod.ex.entered)
    c.bounds.append('all 12 stand x channel layouts, every byte symbolic; histories of at most two reads (%s)' %
                    ('every ordered pair of layouts' if deep else 'a selection of layout pairs'))
    c.outside.append('time tags of 2^63 and above (signed/unsigned is not documented)')
    c.stubs.append('at least 8220 bytes remain in the file when the layout differs from the previous frame')


if __name__ == "__main__":
    common.run('R03', 'LLVM-IR symbolic execution of lsl/reader/tbx.cpp; every obligation is decided by z3 over all byte values', body)
