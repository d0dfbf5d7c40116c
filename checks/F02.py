import itertools
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import common, pyrun, pysym as ps, symfile

MAX = 4096
# names in the order of the parts is not the order they are given in
NAMES = {True: ['obs_c', 'obs_a', 'obs_d', 'obs_b'], False: ['obs_b', 'obs_d', 'obs_a', 'obs_c']}


def opened(env, parts, sort):
    """-> wrapper, total size, check(data, start, length)"""
    sizes = [env.int(f"size{i}", 0, MAX) for i in range(parts)]
    total = sum(sizes)
    names = NAMES[sort][:parts]
    order = sorted(names) if sort else list(names)
    if env.sym:
        utils = pyrun.imp('lsl.reader.utils')
        base = [0]
        for s in sizes:
            base.append(base[-1] + s)
        book = {n: (base[i], sizes[i]) for i, n in enumerate(order)}
        utils.__dict__['os'] = symfile.OS(os, {n: s for n, (b, s) in book.items()})

        def fopen(name, mode='r', *a, **k):
            assert 'b' in mode, mode
            return symfile.File(name, *book[name])
        utils.__dict__['open'] = fopen

        def same(data, start, n, what):
            if not isinstance(data, symfile.SymData):
                env.check(isinstance(data, (bytes, bytearray)) and not data, f"{what}: not file contents")
                env.eq(n, 0, f"{what}: too few bytes")
                return
            env.eq(data.n, n, f"{what}: wrong number of bytes")
            at = start
            for s, k in data.segs:
                env.check(env.implies(k > 0, s == at), f"{what}: bytes from another place")
                at = at + k
        return utils.SplitFileWrapper(list(names), sort=sort), total, same
    from lsl.reader import utils
    d = env.tmp = tempfile.mkdtemp()
    content = b''
    for i, n in enumerate(order):
        b = bytes(((len(content)+j)*2654435761 >> 13) & 255 for j in range(sizes[i]))
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b)
        content += b

    def same(data, start, n, what):
        env.check(len(data) == n, f"{what}: wrong number of bytes: {len(data)} instead of {n} (parts {sizes}, from {start})")
        env.check(bytes(data) == content[start:start+n], f"{what}: bytes from another place")
    return utils.SplitFileWrapper([os.path.join(d, n) for n in names], sort=sort), total, same


def run(env, parts, sort, ops):
    try:
        go(env, parts, sort, ops)
    finally:
        if getattr(env, 'tmp', None):
            shutil.rmtree(env.tmp)


def go(env, parts, sort, ops):
    f, total, same = opened(env, parts, sort)
    env.eq(f.size, total, 'size is not the size of all parts together')
    pos = 0
    env.eq(f.tell(), 0, 'not at the start when opened')
    for i, op in enumerate(ops):
        if op in ('read', 'rest'):
            left = total - pos
            left = left if left > 0 else 0
            if op == 'read':
                n = env.int(f"n{i}", 0, 5*MAX)
                data = f.read(n)
                k = n if n < left else left
            else:
                data = f.read(-1)
                k = left
            same(data, pos, k, 'read()')
            if k > 0:
                env.reach('read')
            pos = pos + k
        else:
            d = env.int(f"d{i}", -5*MAX, 5*MAX)
            w = int(op[4])
            p = d if w == 0 else (pos + d if w == 1 else total + d)
            if p < 0:
                e = env.raises((ValueError, OSError), f.seek, d, w)
                env.check(e is not None, 'seek() to before the start is accepted')
            else:
                if w == 0 and i % 2:
                    f.seek(d)
                else:
                    f.seek(d, w)
                pos = p
        env.eq(f.tell(), pos, f"position after {op}()")
    f.close()
    env.check(f.closed, 'not closed after close()')
    for g in (lambda: f.read(1), f.tell, lambda: f.seek(0)):
        env.check(env.raises(ValueError, g) is not None, 'usable after close()')
    f.close()


H = {'run': run}


def body(c):
    utils = pyrun.imp('lsl.reader.utils')
    symfile.literals(utils)
    undo = ps.patch(utils, **symfile.SHADOW)
    S = os.path.abspath(__file__)
    T = common.thorough()
    O = ['read', 'seek0', 'seek1', 'seek2']
    jobs = []

    def add(parts, sort, ops):
        lab = f"run | {parts} {sort} {' '.join(ops)}"
        jobs.append(lambda c: pyrun.explore(c, lab, run, S, dict(parts=parts, sort=sort, ops=list(ops)), reach=('read',), max_paths=20000))
    for parts in (4, 3, 2, 1):
        if parts == 4:
            seqs = [('read',)] + [(a, 'read') for a in O] + ([(a, b, 'read') for a in O for b in O] if T else [('seek0', 'read', 'read')])
        else:
            seqs = [(a, b, 'read') for a in O for b in O] + [('seek0', 'rest'), ('rest', 'read', 'seek1', 'read') if parts < 3 else ('read', 'rest'), ('rest', 'seek2', 'rest')]
            if T and parts < 3:
                seqs += [(a, b, d, 'read') for a in O for b in O for d in O]
        for q in seqs:
            add(parts, parts != 2, q)
    common.parallel(c, jobs)
    ps.unpatch(undo)
    c.bounds.append(f"1 to 4 parts of 0 to {MAX} bytes each (every combination of sizes, empty parts included), sequences of up to {4 if T else 3} read()/seek() calls with every size and offset up to {5*MAX}")
    c.stubs.append('open(), os.path.getsize() and the binary files: the standard library semantics of a read-only binary file, contents known by position')


if __name__ == "__main__":
    pyrun.main('F02', 'symbolic execution of lsl/reader/utils.py SplitFileWrapper with symbolic part sizes, offsets and read sizes; oracle: the concatenated file', body, H, __file__)
