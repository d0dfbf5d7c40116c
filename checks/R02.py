import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, readerlib as rl
from checks import reader_specs as rs
from checks.reader_check import Reader


def body(c):
    mod = rl.load()
    for method, kind in (('read_drx8', 'cf32'), ('read_drx8_ci8', 'ci8')):
        R = Reader(c, mod, method)
        runs = R.check(f"{kind} first read", lambda f: rs.drx(f, kind, True))
        # a second read in the same process
        ok = [r for r in runs if r.kind == 'frame']
        if ok:
            R.check(f"{kind} later read", lambda f: rs.drx(f, kind, True), base=ok[0].st, prefix='g', history=[(method, 'f', 8224)])
    c.func(*[f for f in mod.ex.entered])
    c.bounds.append('frame of exactly 8224 symbolic bytes; histories of one and two reads')


if __name__ == "__main__":
    common.run('R02', 'LLVM-IR symbolic execution of lsl/reader/drx8.cpp; every obligation is decided by z3 over all byte values', body)
