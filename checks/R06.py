import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import bv, common, readerlib as rl, solve
from checks import reader_specs as rs
from checks.reader_check import Reader


def body(c):
    mod = rl.load()
    sizes = (1, 2, 3) if not common.thorough() else (1, 2, 3, 4, 8, 16, 32)
    R = Reader(c, mod, 'read_drspec')
    f = lambda i: bv.var(f"f{i}", 8)
    prev = None
    for nf in sizes:
        for fmt in rs.DRSPEC_FORMATS:
            pre = [rs.byte_eq(f(45), fmt)] + [rs.byte_eq(f(48+k), (nf >> (8*k)) & 0xFF) for k in range(4)]
            runs = R.check(f"format {fmt:#04x}, {nf} channels", lambda g: rs.drspec(g, fmt, nf), pre=pre, sync_pos=0, short=(nf == sizes[0]))
            ok = [r for r in runs if r.kind == 'frame']
            if ok and prev is not None:
                # a spectrum of another size was read before
                pst, pfmt, pn = prev
                pre2 = [rs.byte_eq(bv.var(f"g{45}", 8), fmt)] + [rs.byte_eq(bv.var(f"g{48+k}", 8), (nf >> (8*k)) & 0xFF) for k in range(4)]
                R.check(f"format {fmt:#04x}, {nf} channels, after {pfmt:#04x}/{pn}", lambda g: rs.drspec(g, fmt, nf), base=pst, pre=pre2,
                        history=[('read_drspec', 'f', 76+4*16*pn)], prefix='g', sync_pos=0, short=False)
            if ok:
                prev = (ok[0].st, fmt, nf)
    # undocumented product combinations must be refused, not guessed
    nf = 2
    undoc = [x for x in range(256) if x not in rs.DRSPEC_FORMATS]
    cnt = 0
    for fmt in undoc:
        pre = [rs.byte_eq(f(45), fmt)] + [rs.byte_eq(f(48+k), (nf >> (8*k)) & 0xFF) for k in range(4)] + [rs.sync5c and 1]
        pre += [rs.bytes_eq(f, 0, rs.MAGIC1), rs.bytes_eq(f, 72, rs.MAGIC2)]
        runs = R.explore(None, pre, None, False)
        for r in runs:
            cnt += 1
            if r.ok or r.kind == 'fault' or not r.untouched():
                R.prefix = 'f'
                R.bad(f"format {fmt:#04x}", f"an undocumented product combination gives {r.kind}", r.st.pc, [], 76+4*16*nf,
                      lambda f: dict(rs.drspec(f, 0x0F, nf), valid=0), 'diff')
                break
    c.reach('undocumented formats', cnt >= len(undoc))
    c.ob('undocumented product combinations are refused', cnt)
    c.func(*mod.ex.entered)
    c.bounds.append(f"the 13 documented product sets, {'/'.join(map(str, sizes))} frequency channels, every other header byte and spectrum word symbolic; histories of at most two reads")
    c.stubs.append('normalisation compared in exact real arithmetic (rounding of the single division abstracted); fill count x channels below 2^32; non-zero fills')


if __name__ == "__main__":
    common.run('R06', 'LLVM-IR symbolic execution of lsl/reader/drspec.cpp; bit-precise for fields, exact-real for the normalisation', body)
