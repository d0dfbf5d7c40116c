import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import bv, common, readerlib as rl, solve
from checks import reader_specs as rs
from checks.reader_check import Reader


def pre_of(cons, prefix='f'):
    return [bv.icmp('eq', 8, bv.binop('and', 8, bv.var(f"{prefix}{i}", 8), m), v) for i, (m, v) in cons.items()]


def body(c):
    mod = rl.load()
    deep = common.thorough()
    chans = (0, 1, 2) if not deep else (0, 1, 2, 3, 4)
    words = (2, 3) if not deep else (2, 3, 5, 8, 16)
    for method, kind in (('read_vdif', 'f32'), ('read_vdif_i8', 'i8')):
        R = Reader(c, mod, method)
        last = None
        for legacy in (False, True):
            for nbits in (1, 2, 4, 8):
                for cx in (False, True):
                    for lc in chans:
                        for dw in words:
                            nw = dw + (2 if legacy else 4)
                            nsamp = 8*dw*8//nbits//(2 if cx else 1)
                            if nsamp % (1 << lc) or nsamp < (1 << lc):
                                continue
                            name = f"{kind} {nbits}-bit {'complex' if cx else 'real'} {1 << lc} channels {nw*8} bytes{' legacy' if legacy else ''}"
                            con = rs.vdif_header(nw, legacy, nbits, cx, lc)
                            r = R.check(name, lambda f: rs.vdif(f, kind, nw, legacy, nbits, cx, lc), pre=pre_of(con), short=(dw == words[0]))
        # reads after a frame of another size, layout or header kind
        lay = [(8, False, 1, 2, False), (2, True, 0, 3, True), (4, False, 0, 2, False)]
        if deep:
            lay += [(1, True, 2, 5, False), (8, True, 0, 8, True)]
        for a in lay:
            for b in lay:
                (nb1, cx1, lc1, dw1, lg1), (nb2, cx2, lc2, dw2, lg2) = a, b
                w1, w2 = dw1 + (2 if lg1 else 4), dw2 + (2 if lg2 else 4)
                if w1 == w2 and a != b:
                    continue
                runs = R.explore(None, pre_of(rs.vdif_header(w1, lg1, nb1, cx1, lc1)), None, False)
                ok = [r for r in runs if r.kind == 'frame']
                if not ok:
                    continue
                R.check(f"{kind} {nb2}-bit {8*w2} bytes after {nb1}-bit {8*w1} bytes", lambda f: rs.vdif(f, kind, w2, lg2, nb2, cx2, lc2),
                        base=ok[0].st, pre=pre_of(rs.vdif_header(w2, lg2, nb2, cx2, lc2), 'g'), prefix='g',
                        history=[(method, 'f', 8*w1)], short=False)
        # a length that cannot hold the header is a sync error, file rewound
        f = lambda i: bv.var(f"f{i}", 8)
        ln = bv.concat(bv.concat(f(10), 8, f(9), 8), 16, f(8), 8)
        leg = bv.extract(f(3), 6, 6)
        for lg, mn in ((0, 4), (1, 2)):
            runs = R.explore(None, [bv.icmp('eq', 1, leg, lg), bv.icmp('ult', 24, ln, mn)], None, False)
            for r in runs:
                if not (r.kind == 'SyncError' and r.untouched() and r.st.env['pos'] == 0):
                    R.prefix = 'f'
                    R.bad(f"{kind} length", f"a frame too short for its header gives {r.kind}", r.st.pc, [], 64,
                          lambda f: dict(rs.vdif(f, kind, 6, False, 8, False, 0), valid=0), 'diff')
            c.reach(f"{kind} impossible length", len(runs) > 0)
            c.ob(f"{kind} length below the header is a sync error (legacy={lg})", len(runs))
        # unsupported sample widths are refused
        nb = bv.extract(f(15), 6, 2)
        pre = [bv.icmp('eq', 24, ln, 5), bv.icmp('eq', 1, leg, 0)]
        pre += [bv.bnot(bv.icmp('eq', 5, nb, k-1)) for k in (1, 2, 4, 8)]
        runs = R.explore(None, pre, None, False)
        for r in runs:
            if r.ok or r.kind == 'fault' or not r.untouched():
                R.prefix = 'f'
                R.bad(f"{kind} width", f"an unsupported sample width gives {r.kind}", r.st.pc, [], 40,
                      lambda f: dict(rs.vdif(f, kind, 5, False, 8, False, 0), valid=0), 'diff')
        c.reach(f"{kind} unsupported width", len(runs) > 0)
        c.ob(f"{kind} unsupported sample width is refused", len(runs))
    c.func(*mod.ex.entered)
    c.bounds.append(f"1/2/4/8-bit real and complex samples, {'/'.join(str(1 << k) for k in chans)} channels, standard and legacy headers, "
                    f"payloads of {'/'.join(str(8*w) for w in words)} bytes, every other header bit and payload byte symbolic; histories of at most two reads")
    c.outside.append('longer payloads; payload sizes not divisible by the number of channels')


if __name__ == "__main__":
    common.run('R05', 'LLVM-IR symbolic execution of lsl/reader/vdif.cpp; every obligation is decided by z3 over all byte values', body)
