import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import bv, common, readerlib as rl, solve
from checks import reader_specs as rs
from checks.reader_check import Reader

NCHANS = (33, 72, 112, 192)


def layout(prefix, nchan):
    """A frame of nchan channels followed by another frame, whose data do not
    imitate the sync word where a shorter frame would end."""
    f = lambda i: bv.var(f"{prefix}{i}", 8)
    pre = [rs.sync5c(f, 32+32*nchan)] if nchan < 192 else []
    for n in NCHANS:
        if n < nchan:
            pre.append(bv.bnot(rs.sync5c(f, 32+32*n)))
    return pre


def prime(c, mod, nchan):
    R = Reader(c, mod, 'read_cor')
    f = lambda i: bv.var(f"h{i}", 8)
    pos = {32+32*n+k for n in NCHANS for k in range(4)}
    pre = layout('h', nchan) + [rs.sync5c(f)]
    runs = R.explore(None, pre, None, False, lambda i: f(i) if i < 32 or i in pos else (i*7) & 0xFF)
    st = [r for r in runs if r.kind == 'frame']
    if not st:
        return None, []
    return st[0].st, [('read_cor', 'h', 32+32*192+4)]


def body(c):
    mod = rl.load()
    R = Reader(c, mod, 'read_cor')
    total = 32 + 32*192 + 4
    for n in NCHANS:
        R.check(f"{n} channels, after start-up", lambda f: rs.cor(f, n), pre=layout('f', n), sync_pos=0, filelen=total)
    # later reads: from a process that has read frames of another width
    for prev in NCHANS:
        base, hist = prime(c, mod, prev)
        if base is None:
            continue
        for n in NCHANS:
            name = f"{n} channels, after {prev}-channel frames"
            R.check(name, lambda f: rs.cor(f, n), base=base, pre=layout('f', n), history=hist, sync_pos=0, short=False, filelen=total)
    c.func(*mod.ex.entered)
    c.bounds.append('33/72/112/192 channels, all header and visibility bytes symbolic; histories of at most two reads')
    c.outside.append('time tag >= 2^63, navg >= 2^31, stand numbers >= 2^15 (signedness undocumented)')
    c.stubs.append('the width of a frame is only defined by where the next sync word is: a following frame exists and no visibility bytes equal the sync word at a shorter frame boundary')


if __name__ == "__main__":
    common.run('R04', 'LLVM-IR symbolic execution of lsl/reader/cor.cpp; every obligation is decided by z3 over all byte values', body)
