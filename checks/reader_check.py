"""Drive one reader over all paths of a symbolic frame and compare with the
specification; confirm every difference on the freshly built extension."""

import itertools
import struct

import numpy as np

from engine import bv, solve, pyapi, readerlib as rl, realtree
from engine.bv import E
from engine.common import Inconclusive
from engine.irexec import Ptr
from engine.readerlib import IW

DT = {pyapi.COMPLEX64: '<c8', pyapi.INT8: '|i1', pyapi.FLOAT32: '<f4'}


class Reader:
    def __init__(self, c, mod, method, extra=()):
        self.c, self.mod, self.method, self.extra = c, mod, method, extra

    # ------------------------------------------------------------ symbolic
    def explore(self, base=None, pre=(), size=None, short=True, content=rl.fbyte, pos=0):
        s = rl.start(self.mod, base, content=content, short=short, size=size, pos=pos)
        s.pc.extend(pre)
        return rl.call(self.mod, s, self.method, self.extra)

    def check(self, name, spec_fn, base=None, pre=(), size=None, short=True, history=(), nbytes=None, pos_after=None,
              sync_pos=None, prefix='f', filelen=None):
        """Explore and compare.  history: earlier reads (method, variable
        prefix, file length) replayed first.
        sync_pos: file position required after a SyncError (None: any)."""
        c = self.c
        pre = list(pre)
        content = lambda i: bv.var(f"{prefix}{i}", 8)
        self.prefix = prefix
        sp = spec_fn(content)
        pre += sp.get('assume', [])
        runs = self.explore(base, pre, size, short, content)
        flen = filelen or sp['size']
        seen = {'frame': 0, 'SyncError': 0, 'EOFError': 0}
        n = 0
        for r in runs:
            k = r.kind
            pc = r.st.pc
            shortrd = any(e[0] == 'short' for e in r.st.env['log'])
            if k == 'unsupported':
                self.bad(name, f"the analysis stops at: {r.st.unsup}", pc, history, flen, spec_fn, 'short' if shortrd else 'diff', short_at=r)
                continue
            if k == 'fault':
                self.bad(name, f"memory fault {r.st.fault}", pc, history, flen, spec_fn, 'crash')
                continue
            if shortrd:
                if k != 'EOFError':
                    self.bad(name, f"truncated frame gives {k}, not an end-of-file error", pc, history, flen, spec_fn, 'short', short_at=r)
                elif not r.untouched():
                    self.bad(name, "truncated frame changes the frame object", pc, history, flen, spec_fn, 'short', short_at=r)
                seen['EOFError'] += 1
                n += 1
                continue
            if k == 'frame':
                seen['frame'] += 1
                ok, m = solve.valid(pc, sp['valid'])
                n += 1
                if not ok:
                    self.bad(name, "frame accepted although the sync/magic word is wrong", pc, history, flen, spec_fn, 'diff', model=m)
                n += self.compare(name, r, sp, pc, history, flen, spec_fn)
                want = sp['size'] if pos_after is None else pos_after
                if r.st.env['pos'] != want:
                    self.bad(name, f"file left at {r.st.env['pos']} instead of {want}", pc, history, flen, spec_fn, 'pos')
                n += 1
            elif k == 'SyncError':
                seen['SyncError'] += 1
                ok, m = solve.valid(pc, bv.bnot(sp['valid']))
                n += 1
                if not ok:
                    self.bad(name, "valid frame rejected with a sync error", pc, history, flen, spec_fn, 'diff', model=m)
                if sync_pos is not None and r.st.env['pos'] != sync_pos:
                    self.bad(name, f"after a sync error the file is at {r.st.env['pos']}, not {sync_pos}", pc, history, flen, spec_fn, 'pos')
                n += 1
            else:
                ok, m = solve.valid(pc, 0)
                n += 1
                if not ok:
                    self.bad(name, f"complete frame gives {k}: {r.st.err}", pc, history, flen, spec_fn, 'diff', model=m)
        if not c.violations:
            c.reach(f"{name}: decoded frame", seen['frame'] >= 1)
            if isinstance(sp['valid'], E):
                c.reach(f"{name}: sync error", seen['SyncError'] >= 1)
            if short:
                c.reach(f"{name}: truncated frame", seen['EOFError'] >= 1)
        c.ob(name, n)
        return runs

    def compare(self, name, r, sp, pc, history, flen, spec_fn):
        n = 0
        for obj, fields in ((r.hdr, sp['header']), (r.pay, sp['payload'])):
            for k, want in fields.items():
                got = r.value(obj, k)
                n += 1
                if got is None or isinstance(got, Ptr):
                    self.bad(name, f"field {k} is missing", pc, history, flen, spec_fn, 'diff')
                    continue
                ok, m = solve.valid(pc, rl.eq66(got, want))
                if not ok:
                    self.bad(name, f"field {k} differs from the file", pc, history, flen, spec_fn, 'diff', model=m)
        for k, want in sp.get('lists', {}).items():
            p = r.attrs(r.pay).get(k)
            items = r.st.mem[p.obj].meta.get('items') if p is not None else None
            n += 1
            if items is None or len(items) != len(want):
                self.bad(name, f"field {k} is missing", pc, history, flen, spec_fn, 'diff')
                continue
            for g, w in zip(items, want):
                ok, m = solve.valid(pc, rl.eq66(r.st.mem[g.obj].meta['val'], w))
                n += 1
                if not ok:
                    self.bad(name, f"field {k} differs from the file", pc, history, flen, spec_fn, 'diff', model=m)
        for k, (dims, typ, elems) in sp['data'].items():
            p = r.attrs(r.pay).get(k)
            if p is None or r.st.mem[p.obj].meta.get('py') != 'array':
                self.bad(name, f"array {k} is missing", pc, history, flen, spec_fn, 'diff')
                continue
            gd, gs, gt, _ = r.array(p)
            if tuple(gd) != tuple(dims) or gt != typ:
                self.bad(name, f"array {k} has shape {gd} type {gt}, expected {dims} {typ}", pc, history, flen, spec_fn, 'diff')
                continue
            nbad = 0
            for idx, want in zip(itertools.product(*[range(d) for d in dims]), elems):
                got = r.element(p, idx)
                for g, w in zip(got, want):
                    n += 1
                    ok, m = self.same(pc, g, w, sp.get('real'))
                    if not ok:
                        nbad += 1
                        if nbad <= 2:
                            self.bad(name, f"{k}{list(idx)} differs from the file", pc, history, flen, spec_fn, 'diff', model=m)
                if nbad > 2:
                    break
        return n

    def same(self, pc, g, w, real):
        if isinstance(w, E) and w.sort == 'bv' or not isinstance(w, E):
            gb = bv.to_bits(g) if isinstance(g, E) and g.sort != 'bv' else g
            width = gb.w if isinstance(gb, E) else w.w if isinstance(w, E) else 32
            if not isinstance(gb, E) and not isinstance(w, E):
                return (True, None) if gb == w else solve.valid(pc, 0)
            return solve.valid(pc, bv.icmp('eq', width, gb, w))
        if isinstance(g, E) and g.id == w.id:
            return True, None
        if real and isinstance(g, E) and g.sort != 'bv':
            if solve.real_equal(pc, g, w):
                return True, None
            return False, None
        return rl.same_value(pc, g, w)

    # -------------------------------------------------------------- replay
    def bad(self, name, what, pc, history, flen, spec_fn, mode, model=None, short_at=None):
        c = self.c
        models = []
        if model is not None:
            models.append(model)
        ok, m = solve.check_sat(list(pc))
        if not ok:
            c.open(f"{name}: {what}: path not satisfiable")
            return
        models.append(m)
        # the same with a correct sync word, in case the path never looked
        sp = spec_fn(lambda i: bv.var(f"{self.prefix}{i}", 8))
        if isinstance(sp['valid'], E):
            ok, m2 = solve.check_sat(list(pc) + [sp['valid']])
            if ok:
                models.append(m2)
        # a few more assignments of the free bytes, to make a real-valued
        # difference visible
        rnd = dict(m)
        for i in range(flen):
            rnd.setdefault(f"{self.prefix}{i}", (i*37+11) & 0xFF)
        models.append(rnd)
        for extra in sp.get('show', []):
            ok, m3 = solve.check_sat(list(pc) + list(extra))
            if ok:
                m3 = dict(m3)
                for i in range(flen):
                    m3.setdefault(f"{self.prefix}{i}", 0x41 if i % 4 == 3 else (i*37+11) & 0xFF)
                models.append(m3)
        for m in models:
            data = bytes((m.get(f"{self.prefix}{i}", (i*37+11) & 0xFF)) & 0xFF for i in range(flen))
            hist = [{'level': 'c', 'method': h[0], 'file': bytes(m.get(f"{h[1]}{i}", 0) & 0xFF for i in range(h[2])).hex()}
                    for h in history]
            if mode == 'short':
                n = m.get('shortlen0', 0)
                for k in range(6):
                    if f"shortlen{k}" in m:
                        e = [x for x in short_at.st.env['log'] if x[0] == 'short'][0]
                        n = e[1] + m[f"shortlen{k}"]
                data = data[:n]
            diff = self.replay(hist, data, spec_fn, mode)
            if diff:
                c.violation(f"{self.method} {name}: {what} [{diff}]", f"{self.method}:{name}:{what}",
                            {'method': self.method, 'history': hist, 'file_hex': data[:128].hex(),
                             'file_len': len(data), 'full_file_hex': data.hex(), 'observed': diff})
                return
        c.open(f"{name}: '{what}' did not reproduce on the real extension")

    def replay(self, history, data, spec_fn, mode):
        steps = [dict(h) for h in history]
        steps.append({'level': 'c', 'method': self.method, 'file': data.hex()})
        st, out, err = rl.replay_c(steps)
        if st == 'crash':
            return f"the process dies with signal {-out}"
        if st != 'ok':
            raise Inconclusive(f"replay failed: {err[-2000:]}")
        res = out[-1]
        if mode == 'short':
            if res['kind'] != 'EOFError':
                return f"truncated to {len(data)} bytes: {res['kind']}"
            if res.get('touched'):
                return 'frame object changed'
            return None
        sp = spec_fn(lambda i: data[i] if i < len(data) else 0)
        if res['kind'] != 'frame':
            if sp['valid']:
                return f"valid frame gives {res['kind']}: {res.get('msg')}"
            if mode == 'pos':
                return f"file position {res['pos']} after {res['kind']}"
            return None
        if not sp['valid']:
            return 'invalid frame decoded without an error'
        if mode == 'pos' and res['pos'] != sp['size']:
            return f"file position {res['pos']} after the frame"
        for part in ('header', 'payload'):
            for k, w in sp[part].items():
                if res[part].get(k) != w:
                    return f"{k} = {res[part].get(k)}, file says {w}"
        for k, w in sp.get('lists', {}).items():
            if res['payload'].get(k) != w:
                return f"{k} = {res['payload'].get(k)}, file says {w}"
        for k, (dims, typ, elems) in sp['data'].items():
            a = res['payload'].get(k)
            if not isinstance(a, dict):
                return f"array {k} missing"
            if a['dtype'] != DT[typ] or tuple(a['shape']) != tuple(dims):
                return f"array {k}: {a['dtype']} {a['shape']}"
            got = bytes.fromhex(a['hex'])
            for i, e in enumerate(elems):
                for j, w in enumerate(e):
                    nb = 1 if typ == pyapi.INT8 else 4
                    o = (i*len(e)+j)*nb
                    g = int.from_bytes(got[o:o+nb], 'little')
                    wb = w if not isinstance(w, E) else bv.to_bits(w)
                    if g != wb:
                        if sp.get('real'):
                            x, y = (struct.unpack('<f', struct.pack('<I', v))[0] for v in (g, wb))
                            if x != x and y != y or np.isclose(x, y, rtol=1e-5, atol=0) or (x in (float('inf'), -float('inf')) or y in (float('inf'), -float('inf'))):
                                continue
                        return f"{k} element {i} component {j}: bits {g:#x}, file says {wb:#x}"
        return None
