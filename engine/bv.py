"""
Hash-consed bit-vector / floating-point expression layer used by the LLVM-IR
symbolic executor.

Concrete integers are plain Python ints (always reduced modulo 2**w); symbolic
values are `E` nodes.  Float values are `E` nodes whose sort is 'f32'/'f64'
(constants included: op 'fc').  Nodes are translated to z3 only when a query is
asked, and verdicts are cached modulo renaming of the variables, so that the
4096 identical per-sample obligations of a frame cost one solver call.
"""

import math
import struct


class E:
    __slots__ = ('op', 'w', 'args', 'id', 'sort')

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def mk(op, w, args, sort='bv'):
    key = (op, w, sort, tuple((a.id if isinstance(a, E) else ('k', a)) for a in args))
    e = _table.get(key)
    if e is None:
        e = E()
        e.op = op
        e.w = w
        e.args = args
        e.sort = sort
        _count[0] += 1
        e.id = _count[0]
        _table[key] = e
    return e


def show(e, depth=6):
    if not isinstance(e, E):
        return str(e)
    if e.op == 'v':
        return str(e.args[0])
    if e.op == 'fc':
        return repr(e.args[0])
    if depth == 0:
        return '...'
    return f"{e.op}{e.w}({', '.join(show(a, depth-1) for a in e.args)})"


def var(name, w):
    return mk('v', w, (name,))


def fvar(name, sort):
    return mk('v', 32 if sort == 'f32' else 64, (name,), sort)


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w-1) else v


def is_sym(x):
    return isinstance(x, E)


COMM = {'add', 'mul', 'and', 'or', 'xor'}


def binop(op, w, a, b):
    """Integer binary operation on w-bit values."""
    sa, sb = isinstance(a, E), isinstance(b, E)
    m = (1 << w) - 1
    if not sa and not sb:
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w-1)) & m
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        if op == 'sdiv':
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & m
        if op == 'srem':
            x, y = sgn(a, w), sgn(b, w)
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & m
        raise NotImplementedError(op)
    # identities
    if op in COMM and sa is False:
        a, b, sa, sb = b, a, sb, sa
    if not sb:
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
            return a
        if op == 'and':
            if b == 0:
                return 0
            if b == m:
                return a
            # contiguous low mask
            k = b.bit_length()
            if b == (1 << k) - 1:
                return zext(extract(a, k-1, 0), k, w)
        if op == 'mul':
            if b == 0:
                return 0
            if b == 1:
                return a
            if b & (b-1) == 0:
                return binop('shl', w, a, b.bit_length()-1)
        if op == 'udiv' and b and b & (b-1) == 0:
            return binop('lshr', w, a, b.bit_length()-1)
        if op == 'urem' and b and b & (b-1) == 0:
            return binop('and', w, a, b-1)
        if op == 'add' and a.op == 'add' and not isinstance(a.args[1], E):
            return binop('add', w, a.args[0], (a.args[1] + b) & m)
        if op == 'shl':
            if b >= w:
                return 0
            return concat(extract(a, w-1-b, 0), w-b, 0, b)
        if op == 'lshr':
            if b >= w:
                return 0
            return zext(extract(a, w-1, b), w-b, w)
        if op == 'ashr' and b < w:
            return sext(extract(a, w-1, b), w-b, w)
    if op == 'sub' and sa and sb and a is b:
        return 0
    if op == 'xor' and a is b:
        return 0
    if op in ('and', 'or') and a is b:
        return a
    if op == 'or' and sa and sb:
        # or of disjoint concats (built by shifts): merge when the known-zero
        # parts complement each other
        r = _or_merge(w, a, b)
        if r is not None:
            return r
    return mk(op, w, (a, b))


def _pieces(e, w):
    """Decompose into [(value, width)] from most significant piece."""
    if isinstance(e, E) and e.op == 'concat':
        return [(v, vw) for v, vw in zip(e.args[0::2], e.args[1::2])]
    return [(e, w)]


def _or_merge(w, a, b):
    pa, pb = _pieces(a, w), _pieces(b, w)
    if len(pa) == 1 and len(pb) == 1:
        return None
    out = []
    i = j = 0
    ra, rb = pa[0][1], pb[0][1]
    va, vb = pa[0][0], pb[0][0]
    while True:
        n = min(ra, rb)
        xa = extract2(va, ra, n)
        xb = extract2(vb, rb, n)
        if not isinstance(xa, E) and xa == 0:
            out.append((xb, n))
        elif not isinstance(xb, E) and xb == 0:
            out.append((xa, n))
        else:
            return None
        ra -= n
        rb -= n
        if ra == 0:
            i += 1
            if i < len(pa):
                va, ra = pa[i]
        else:
            va = extract(va, ra-1, 0) if isinstance(va, E) else va & mask(ra)
        if rb == 0:
            j += 1
            if j < len(pb):
                vb, rb = pb[j]
        else:
            vb = extract(vb, rb-1, 0) if isinstance(vb, E) else vb & mask(rb)
        if i >= len(pa) and j >= len(pb):
            break
    return concat_list(out)


def extract2(v, w, n):
    """Top n bits of the w-bit value v."""
    if isinstance(v, E):
        return extract(v, w-1, w-n)
    return v >> (w-n)


def extract(a, hi, lo):
    if not isinstance(a, E):
        return (a >> lo) & mask(hi-lo+1)
    if lo == 0 and hi == a.w-1:
        return a
    if a.op == 'extract':
        return extract(a.args[0], a.args[2]+hi, a.args[2]+lo)
    if a.op == 'concat':
        out = []
        top = a.w
        for v, vw in zip(a.args[0::2], a.args[1::2]):
            bot = top - vw
            h, l = min(hi, top-1), max(lo, bot)
            if h >= l:
                out.append((extract(v, h-bot, l-bot), h-l+1))
            top = bot
        return concat_list(out)
    if a.op == 'sext' and hi < a.args[0].w:
        return extract(a.args[0], hi, lo)
    if a.op in ('and', 'or', 'xor'):
        return binop(a.op, hi-lo+1, extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if a.op in ('add', 'sub', 'mul') and lo == 0:
        return binop(a.op, hi+1, extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    if a.op == 'ite':
        return ite(a.args[0], extract(a.args[1], hi, lo), extract(a.args[2], hi, lo), hi-lo+1)
    return mk('extract', hi-lo+1, (a, hi, lo))


def concat_list(parts):
    """Concatenate [(value, width)] given from the most significant part."""
    flat = []
    for v, vw in parts:
        if isinstance(v, E) and v.op == 'concat':
            sub = list(zip(v.args[0::2], v.args[1::2]))
        else:
            sub = [(v, vw)]
        for s, sw in sub:
            if flat:
                p, pw = flat[-1]
                if not isinstance(p, E) and not isinstance(s, E):
                    flat[-1] = ((p << sw) | s, pw+sw)
                    continue
                if isinstance(p, E) and isinstance(s, E):
                    pb, ph, pl = (p.args if p.op == 'extract' else (p, p.w-1, 0))
                    sb, sh, sl = (s.args if s.op == 'extract' else (s, s.w-1, 0))
                    if pb is sb and pl == sh+1:
                        flat[-1] = (extract(pb, ph, sl), pw+sw)
                        continue
            flat.append((s, sw))
    if len(flat) == 1:
        return flat[0][0]
    args = []
    w = 0
    for v, vw in flat:
        args += [v, vw]
        w += vw
    return mk('concat', w, tuple(args))


def concat(a, wa, b, wb):
    return concat_list([(a, wa), (b, wb)])


def zext(a, w0, w1):
    if w0 == w1:
        return a
    if not isinstance(a, E):
        return a
    return concat_list([(0, w1-w0), (a, w0)])


def sext(a, w0, w1):
    if w0 == w1:
        return a
    if not isinstance(a, E):
        return sgn(a, w0) & mask(w1)
    if a.op == 'sext':
        return sext(a.args[0], a.args[0].w, w1)
    if a.op == 'concat' and not isinstance(a.args[0], E) and a.args[0] == 0:
        return zext(a, w0, w1)
    return mk('sext', w1, (a,))


def icmp(pred, w, a, b):
    """Returns a 1-bit value (int 0/1 or E of width 1)."""
    if not isinstance(a, E) and not isinstance(b, E):
        if pred == 'eq':
            r = a == b
        elif pred == 'ne':
            r = a != b
        elif pred[0] == 'u':
            r = {'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b}[pred]
        else:
            x, y = sgn(a, w), sgn(b, w)
            r = {'sgt': x > y, 'sge': x >= y, 'slt': x < y, 'sle': x <= y}[pred]
        return int(r)
    if a is b:
        return int(pred in ('eq', 'uge', 'ule', 'sge', 'sle'))
    if pred == 'ne':
        return bnot(icmp('eq', w, a, b))
    if pred in ('ugt', 'sgt'):
        return icmp('ult' if pred[0] == 'u' else 'slt', w, b, a)
    if pred in ('uge', 'sge'):
        return bnot(icmp('ult' if pred[0] == 'u' else 'slt', w, a, b))
    if pred in ('ule', 'sle'):
        return bnot(icmp('ult' if pred[0] == 'u' else 'slt', w, b, a))
    if pred == 'eq' and not isinstance(a, E):
        a, b = b, a
    if pred == 'eq' and not isinstance(b, E) and a.op == 'concat' and not isinstance(a.args[0], E):
        vw = a.args[1]
        if (b >> (w-vw)) != a.args[0]:
            return 0
        rest = concat_list(list(zip(a.args[2::2], a.args[3::2])))
        return icmp('eq', w-vw, rest, b & mask(w-vw))
    if w == 1 and pred == 'eq' and not isinstance(b, E):
        return a if b else bnot(a)
    return mk('icmp_'+pred, 1, (a, b))


def bnot(a):
    if not isinstance(a, E):
        return 1 - a
    if a.op == 'bnot':
        return a.args[0]
    return mk('bnot', 1, (a,))


def band(a, b):
    return binop('and', 1, a, b)


def bor(a, b):
    return binop('or', 1, a, b)


def ite(c, a, b, w=None):
    if not isinstance(c, E):
        return a if c else b
    if a is b or (not isinstance(a, E) and not isinstance(b, E) and a == b):
        return a
    sort = 'bv'
    for x in (a, b):
        if isinstance(x, E):
            w = x.w
            sort = x.sort
    if c.op == 'bnot':
        return ite(c.args[0], b, a, w)
    return mk('ite', w, (c, a, b), sort)


# ---------------------------------------------------------------- floats
def f32(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fconst(x, sort):
    x = f32(x) if sort == 'f32' else float(x)
    return mk('fc', 32 if sort == 'f32' else 64, (x, math.copysign(1.0, x)), sort)


def fval(e):
    return e.args[0]


def is_fc(e):
    return isinstance(e, E) and e.op == 'fc'


def fop(op, sort, *args):
    if all(is_fc(a) for a in args):
        v = [a.args[0] for a in args]
        try:
            if op == 'fadd':
                r = v[0] + v[1]
            elif op == 'fsub':
                r = v[0] - v[1]
            elif op == 'fmul':
                r = v[0] * v[1]
            elif op == 'fdiv':
                if v[1] == 0:
                    r = math.nan if (v[0] == 0 or math.isnan(v[0])) else math.copysign(math.inf, v[0]) * math.copysign(1, v[1])
                else:
                    r = v[0] / v[1]
            elif op == 'fneg':
                r = -v[0]
            elif op == 'sqrt':
                r = math.sqrt(v[0])
            elif op == 'fabs':
                r = abs(v[0])
            elif op == 'round':
                r = math.copysign(math.floor(abs(v[0])+0.5), v[0])
            elif op == 'floor':
                r = math.floor(v[0])
            elif op == 'fma':
                r = v[0]*v[1] + v[2]
            else:
                r = None
            if r is not None:
                return fconst(r, sort)
        except (ValueError, OverflowError):
            pass
    return mk(op, 32 if sort == 'f32' else 64, tuple(args), sort)


def to_bits(e):
    if is_fc(e):
        if e.sort == 'f32':
            return struct.unpack('<I', struct.pack('<f', e.args[0]))[0]
        return struct.unpack('<Q', struct.pack('<d', e.args[0]))[0]
    if e.op == 'bits2f':
        return e.args[0]
    if e.op == 'fneg':
        return binop('xor', e.w, to_bits(e.args[0]), 1 << (e.w-1))
    if e.op == 'fabs':
        return binop('and', e.w, to_bits(e.args[0]), mask(e.w-1))
    if e.op == 'ite':
        return ite(e.args[0], to_bits(e.args[1]), to_bits(e.args[2]), e.w)
    return mk('f2bits', e.w, (e,))


def from_bits(b, sort):
    if not isinstance(b, E):
        if sort == 'f32':
            return fconst(struct.unpack('<f', struct.pack('<I', b))[0], sort)
        return fconst(struct.unpack('<d', struct.pack('<Q', b))[0], sort)
    if b.op == 'f2bits':
        return b.args[0]
    return mk('bits2f', b.w, (b,), sort)


def sitofp(a, w, sort):
    if not isinstance(a, E):
        return fconst(sgn(a, w), sort)
    return mk('sitofp', 32 if sort == 'f32' else 64, (a,), sort)


def uitofp(a, w, sort):
    if not isinstance(a, E):
        return fconst(a, sort)
    return mk('uitofp', 32 if sort == 'f32' else 64, (a,), sort)


# --------------------------------------------------- table look-ups
_tables = {}
_byid = {}


def register_table(values):
    """Intern a concrete table (tuple of ints, one byte each)."""
    key = tuple(values)
    if key not in _tables:
        _tables[key] = len(_tables)
        _byid[_tables[key]] = key
    return _tables[key]


def table_values(tid):
    return _byid[tid]


def leaves(e, acc=None, seen=None):
    """The variables below e, in deterministic traversal order."""
    if acc is None:
        acc, seen = [], set()
    stack = [e]
    while stack:
        x = stack.pop()
        if not isinstance(x, E) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'v':
            acc.append(x)
        else:
            for a in reversed(x.args):
                stack.append(a)
    return acc
