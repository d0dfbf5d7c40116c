import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, readerlib as rl
from checks import reader_specs as rs
from checks.reader_check import Reader


def body(c):
    mod = rl.load()
    for method, kind in (('read_drx', 'cf32'), ('read_drx_ci8', 'ci8')):
        R = Reader(c, mod, method)
        runs = R.check(f"{kind} first read", lambda f: rs.drx(f, kind, False))
        # a second read in the same process
        ok = [r for r in runs if r.kind == 'frame']
        if ok:
            R.check(f"{kind} later read", lambda f: rs.drx(f, kind, False), base=ok[0].st, prefix='g', history=[(method, 'f', 4128)])
    c.func(*[f for f in mod.ex.entered])
    c.bounds.append('frame of exactly 4128 symbolic bytes; histories of one and two reads')


if __name__ == "__main__":
    common.run('R01', 'LLVM-IR symbolic execution of lsl/reader/drx.cpp; every obligation is decided by z3 over all byte values', body)
