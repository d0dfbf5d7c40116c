"""
Model of the Python/NumPy C API for the symbolic executor: reference counts
live in memory at the offsets the inlined header macros use, so a double
release, a use after free or a leak is an observable event.
"""

import re
import subprocess

from . import bv, solve
from .bv import E
from .irexec import Exec, Ptr, FnPtr, Fault, Forks, Unsupported, UNDEF

IMMORTAL = 0xFFFFFFFF
BOOL, INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64 = 0, 1, 2, 3, 4, 5, 6, 7, 8
FLOAT32, FLOAT64, COMPLEX64, COMPLEX128 = 11, 12, 14, 15
ITEMSIZE = {0: 1, 1: 1, 2: 1, 3: 2, 4: 2, 5: 4, 6: 4, 7: 8, 8: 8, 9: 8, 10: 8, 11: 4, 12: 8, 14: 8, 15: 16}
IW = 66     # width that holds every C integer as a mathematical integer


def api_slots(numpy_include):
    """slot number -> name, from the installed header."""
    txt = open(f"{numpy_include}/numpy/__multiarray_api.h").read()
    out = {}
    for m in re.finditer(r'#define\s+(PyArray_\w+)\s*\\?\s*(.*?)PyArray_API\[(\d+)\]', txt, re.S):
        if '#define' in m.group(2):
            continue
        out.setdefault(int(m.group(3)), m.group(1))
    return out


def new_py(ex, st, kind, size=16, ref=1, **meta):
    oid = ex.new_obj(st, size, 'py', kind, 'zero')
    m = st.mem[oid]
    m.cells[0] = (ref, 8)
    m.maxn = 8
    m.meta.update(meta)
    m.meta['py'] = kind
    tp = TYPE_OF.get(kind)
    if tp is not None and tp in ex.globmap:
        m.cells[8] = (Ptr(ex.globmap[tp], 0), 8)
    return Ptr(oid, 0)


TYPE_OF = {'bytes': 'PyBytes_Type', 'int': 'PyLong_Type', 'float': 'PyFloat_Type', 'list': 'PyList_Type',
           'str': 'PyUnicode_Type', 'capsule': 'PyCapsule_Type', 'tuple': 'PyTuple_Type', 'dict': 'PyDict_Type'}


def ref_of(st, p):
    v = st.mem[p.obj].cells[0][0]
    return v


def live(st, p, what):
    if not isinstance(p, Ptr):
        raise Fault('null-object', f"{what} given {p!r}")
    m = st.mem[p.obj]
    if m.freed:
        raise Fault('use-after-free', f"{what} on a released {m.name} object")
    return m


def gil(st, what):
    if st.env.get('nogil'):
        raise Fault('gil', f"{what} called without holding the interpreter lock")


def incref(ex, st, p):
    m = live(st, p, 'Py_INCREF')
    r = m.cells[0][0]
    if r >> 31 == 1:
        return
    m = st.wobj(p.obj)
    m.cells[0] = (r+1, 8)


def decref(ex, st, p):
    m = live(st, p, 'Py_DECREF')
    r = m.cells[0][0]
    if r >> 31 == 1:
        return
    if r == 0:
        raise Fault('double-free', f"release of dead {m.name}")
    m = st.wobj(p.obj)
    m.cells[0] = (r-1, 8)
    if r == 1:
        dealloc(ex, st, p)


def dealloc(ex, st, p):
    m = st.mem[p.obj]
    if m.freed:
        raise Fault('double-free', f"second release of {m.name}")
    m = st.wobj(p.obj)
    m.freed = True
    for v in list(m.meta.get('attrs', {}).values()) + list(m.meta.get('items', [])):
        if isinstance(v, Ptr):
            decref(ex, st, v)
    if m.meta.get('py') == 'array':
        b = m.meta.get('base')
        if b is not None:
            decref(ex, st, b)
        else:
            st.wobj(m.meta['data'].obj).freed = True
    rel = m.meta.get('release')
    if rel is not None:
        rel(ex, st, p)


def cstr(ex, st, p):
    if not isinstance(p, Ptr):
        return None
    m = st.mem[p.obj]
    out = []
    o = p.off
    while True:
        b = ex.get_byte(m, o)
        if not isinstance(b, int):
            raise Unsupported("symbolic C string")
        if b == 0:
            break
        out.append(b)
        o += 1
    return bytes(out).decode('latin-1')


def sext66(v, w=32):
    v = bv.extract(v, w-1, 0)
    return bv.sext(v, w, IW)


def zext66(v, w=32):
    v = bv.extract(v, w-1, 0)
    return bv.zext(v, w, IW)


def mkint(ex, st, v):
    return new_py(ex, st, 'int', 32, val=v)


def py_int(st, p):
    return st.mem[p.obj].meta['val']


def build_one(ex, st, c, a, i):
    if c == 's' or c == 'z':
        if not isinstance(a[i], Ptr):
            return new_py(ex, st, 'none', ref=IMMORTAL), i+1
        return new_py(ex, st, 'str', 64, val=cstr(ex, st, a[i])), i+1
    if c in 'bBhi':
        return mkint(ex, st, sext66(a[i])), i+1
    if c == 'H':
        return mkint(ex, st, zext66(a[i])), i+1
    if c == 'I':
        return mkint(ex, st, zext66(a[i])), i+1
    if c in 'lnL':
        return mkint(ex, st, sext66(a[i], 64)), i+1
    if c in 'kK':
        return mkint(ex, st, zext66(a[i], 64)), i+1
    if c in 'fd':
        return new_py(ex, st, 'float', 24, val=a[i]), i+1
    if c in 'OSN':
        if a[i] == 0:
            if st.err is None:
                st.err = ('SystemError', 'NULL object passed to Py_BuildValue')
            return 0, i+1
        live(st, a[i], 'Py_BuildValue')
        if c != 'N':
            incref(ex, st, a[i])
        return a[i], i+1
    raise Unsupported(f"Py_BuildValue format {c!r}")


def s_BuildValue(ex, st, a, t):
    gil(st, 'Py_BuildValue')
    fmt = cstr(ex, st, a[0])
    inner = fmt
    items = []
    i = 1
    flat = [c for c in inner if c not in '(), ']
    if len(flat) == 1 and '(' not in fmt:
        r, _ = build_one(ex, st, flat[0], a, 1)
        return r
    if not flat:
        return new_py(ex, st, 'none', ref=IMMORTAL)
    for c in flat:
        r, i = build_one(ex, st, c, a, i)
        items.append(r)
    return new_py(ex, st, 'tuple', 24, items=items)


def parse_args(ex, st, objs, fmt, outs):
    fmt = fmt.split(':')[0].split(';')[0]
    opt = False
    k = 0
    oi = 0
    i = 0
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c == '|':
            opt = True
            continue
        if c == '$':
            continue
        if c == 'O' and i < len(fmt) and fmt[i] == '!':
            i += 1
            oi += 1
        if k >= len(objs) or objs[k] is None:
            if not opt:
                st.err = ('TypeError', 'argument count')
                return 0
            k += 1
            oi += 1
            continue
        v = objs[k]
        p = outs[oi]
        oi += 1
        k += 1
        m, off = ex.check_access(st, p, 1, 'argument store')
        if c == 'O':
            m = st.wobj(m.id)
            ex.raw_store(m, off, v, 8)
        elif c in 'iI':
            val = py_int(st, v) if isinstance(v, Ptr) else v
            m = st.wobj(m.id)
            ex.raw_store(m, off, bv.extract(val, 31, 0), 4)
        elif c in 'lLnkK':
            val = py_int(st, v) if isinstance(v, Ptr) else v
            m = st.wobj(m.id)
            ex.raw_store(m, off, bv.extract(val, 63, 0), 8)
        elif c in 'fd':
            m = st.wobj(m.id)
            ex.raw_store(m, off, v, 4 if c == 'f' else 8)
        elif c in 's':
            m = st.wobj(m.id)
            ex.raw_store(m, off, v, 8)
        elif c == 'p':
            m = st.wobj(m.id)
            ex.raw_store(m, off, bv.extract(v, 31, 0), 4)
        else:
            raise Unsupported(f"argument format {c!r}")
    return 1


def s_ParseTuple(ex, st, a, t):
    gil(st, 'PyArg_ParseTuple')
    objs = st.mem[a[0].obj].meta['items']
    return parse_args(ex, st, objs, cstr(ex, st, a[1]), a[2:])


def s_ParseTupleKw(ex, st, a, t):
    gil(st, 'PyArg_ParseTupleAndKeywords')
    objs = st.mem[a[0].obj].meta['items']
    return parse_args(ex, st, objs, cstr(ex, st, a[2]), a[4:])


def s_ErrFormat(ex, st, a, t):
    gil(st, 'PyErr_Format')
    if not isinstance(a[0], Ptr):
        raise Fault('null-object', 'PyErr_Format with a NULL exception')
    name = st.mem[a[0].obj].meta.get('excname', '?')
    st.err = (name, cstr(ex, st, a[1]))
    return 0


def s_GetAttrString(ex, st, a, t):
    gil(st, 'PyObject_GetAttrString')
    m = live(st, a[0], 'PyObject_GetAttrString')
    n = cstr(ex, st, a[1])
    v = m.meta.get('attrs', {}).get(n)
    if v is None:
        st.err = ('AttributeError', n)
        return 0
    incref(ex, st, v)
    return v


def s_SetAttrString(ex, st, a, t):
    gil(st, 'PyObject_SetAttrString')
    live(st, a[0], 'PyObject_SetAttrString')
    if not isinstance(a[2], Ptr):
        raise Fault('null-object', f"attribute '{cstr(ex, st, a[1])}' set to NULL")
    live(st, a[2], 'PyObject_SetAttrString value')
    n = cstr(ex, st, a[1])
    m = st.wobj(a[0].obj)
    at = dict(m.meta.get('attrs', {}))
    old = at.get(n)
    incref(ex, st, a[2])
    at[n] = a[2]
    m = st.wobj(a[0].obj)
    m.meta['attrs'] = at
    st.env.setdefault('sets', [])
    st.env['sets'] = st.env['sets'] + [(a[0].obj, n)]
    if old is not None:
        decref(ex, st, old)
    return 0


def s_HasAttrString(ex, st, a, t):
    gil(st, 'PyObject_HasAttrString')
    m = live(st, a[0], 'PyObject_HasAttrString')
    n = cstr(ex, st, a[1])
    return int(n in m.meta.get('attrs', {}) or n in m.meta.get('methods', {}))


def call_method(ex, st, ph, name, args):
    gil(st, f"method {name}()")
    m = live(st, ph, f"method call {name}()")
    f = m.meta.get('methods', {}).get(name)
    if f is None:
        raise Unsupported(f"method {name}() of {m.name}")
    return f(ex, st, ph, args)


def s_CallMethodObjArgs(ex, st, a, t):
    name = py_int(st, a[1])
    args = []
    for v in a[2:]:
        if v == 0:
            break
        live(st, v, 'method argument')
        args.append(st.mem[v.obj].meta.get('val', v))
    return call_method(ex, st, a[0], name, args)


def s_CallMethod(ex, st, a, t):
    name = cstr(ex, st, a[1])
    fmt = cstr(ex, st, a[2]) or ''
    args = []
    for c, v in zip(fmt.replace('(', '').replace(')', ''), a[3:]):
        if c in 'bBhi':
            args.append(sext66(v))
        elif c in 'HI':
            args.append(zext66(v))
        elif c in 'lnL':
            args.append(sext66(v, 64))
        elif c in 'kK':
            args.append(zext66(v, 64))
        else:
            args.append(v)
    return call_method(ex, st, a[0], name, args)


def conc(v):
    if isinstance(v, E):
        raise Unsupported("symbolic argument where a concrete one is needed")
    return bv.sgn(v, IW)


# -------------------------------------------------------------- file model
def file_read(ex, st, ph, args):
    """read(n) on a file whose bytes are symbolic.

    env: pos (int), content(i) -> byte value, size (int; bytes present, or
    None for 'enough'), short (fork a short read), ioerr (fork a failure)."""
    n = args[0]
    if isinstance(n, E):
        vals = ex.enum_values(st, n, 40)
        if len(vals) != 1:
            raise Unsupported("read() of symbolic length")
        n = vals[0]
    n = conc(n)
    alts = []
    env = st.env
    if env.get('ioerr'):
        s2 = st.clone()
        s2.err = ('OSError', 'read')
        s2.env['ioerr'] = False
        s2.env['log'] = s2.env['log'] + [('read-error', n)]
        alts.append((s2, 0))
    # bytes that were read before are still there
    known = max([0] + [e[1]+e[2] for e in env['log'] if e[0] == 'read' and isinstance(e[1], int)])
    least = max(0, known - env['pos']) if isinstance(env['pos'], int) else 0
    if env.get('short') and n > least:
        s3 = st.clone()
        ln = bv.var(f"shortlen{len(s3.env['log'])}", 64)
        s3.pc.append(bv.icmp('ult', 64, ln, n))
        if least:
            s3.pc.append(bv.bnot(bv.icmp('ult', 64, ln, least)))
        s3.env['short'] = False
        s3.env['log'] = s3.env['log'] + [('short', s3.env['pos'], n)]
        b = make_bytes(ex, s3, s3.env['pos'], n, ln)
        s3.env['pos'] = ('eof', s3.env['pos'], len(s3.env['log']), 0)
        alts.append((s3, b))
    pos = env['pos']
    if isinstance(pos, tuple):
        raise Unsupported('read after a short read')
    size = env.get('size')
    if n < 0:
        if size is None:
            raise Unsupported('read to the end of an unbounded file')
        n = size - pos
    got = n if size is None else max(0, min(n, size-pos))
    env['log'] = env['log'] + [('read', pos, n)]
    b = make_bytes(ex, st, pos, got, got)
    env['pos'] = pos + got
    if alts:
        return Forks([(st, b)] + alts)
    return b


def make_bytes(ex, st, pos, n, size):
    total = 33 + n if not isinstance(size, E) else bv.binop('add', 64, size, 33)
    p = new_py(ex, st, 'bytes', total)
    m = st.mem[p.obj]
    m.cells[16] = (size, 8)
    content = st.env['content']
    if not isinstance(size, E):
        cells = m.cells
        for i in range(n):
            cells[32+i] = (content(pos+i), 1)
        cells[32+n] = (0, 1)
    else:
        # short read: content is arbitrary
        m.default = 'undef'
        for k in range(20, 32):
            m.cells[k] = (0, 1)
    return p


def file_seek(ex, st, ph, args):
    off = conc(args[0])
    wh = conc(args[1]) if len(args) > 1 else 0
    pos = st.env['pos']
    if isinstance(pos, tuple) and wh == 1:
        # relative to the unknown end of the file
        st.env['log'] = st.env['log'] + [('seek', off, wh)]
        st.env['pos'] = pos[:3] + (pos[3] + off,)
        return mkint(ex, st, bv.var(f"pos!{next(ex.fresh)}", IW))
    if wh == 0:
        pos = off
    elif wh == 1:
        pos = pos + off
    else:
        raise Unsupported('seek from the end')
    if pos < 0:
        st.err = ('OSError', 'seek before start')
        return 0
    st.env['log'] = st.env['log'] + [('seek', off, wh)]
    st.env['pos'] = pos
    return mkint(ex, st, pos & bv.mask(IW))


def file_tell(ex, st, ph, args):
    return mkint(ex, st, st.env['pos'])


# ---------------------------------------------------------------- numpy
def make_array(ex, st, dims, typ, name='array'):
    n = ITEMSIZE[typ]
    total = n
    for d in dims:
        total *= d
    data = ex.new_obj(st, max(total, n), 'arraydata', name, 'zero')
    return wrap_array(ex, st, dims, typ, Ptr(data, 0), None, name)


def wrap_array(ex, st, dims, typ, data, strides, name, base=None):
    n = ITEMSIZE[typ]
    if strides is None:
        strides = []
        s = n
        for d in reversed(dims):
            strides.insert(0, s)
            s *= d
    p = new_py(ex, st, 'array', 96)
    m = st.mem[p.obj]
    dd = ex.new_obj(st, max(16*len(dims), 16), 'arraydims', name, 'zero')
    for i, (d, s) in enumerate(zip(dims, strides)):
        ex.raw_store(st.mem[dd], 8*i, d, 8)
        ex.raw_store(st.mem[dd], 8*(len(dims)+i), s, 8)
    m.meta.update(data=data, dims=list(dims), strides=list(strides), typ=typ, base=base)
    ex.raw_store(m, 16, data, 8)
    ex.raw_store(m, 24, len(dims), 4)
    ex.raw_store(m, 32, Ptr(dd, 0), 8)
    ex.raw_store(m, 40, Ptr(dd, 8*len(dims)), 8)
    ex.raw_store(m, 48, base if base is not None else 0, 8)
    ex.raw_store(m, 56, descr(ex, st, typ), 8)
    ex.raw_store(m, 64, 0x0501, 4)
    return p


def descr(ex, st, typ):
    key = f"descr{typ}"
    d = st.env.get(key)
    if d is None:
        d = new_py(ex, st, 'descr', 256, ref=IMMORTAL, typ=typ)
        m = st.mem[d.obj]
        ex.raw_store(m, 28, typ, 4)
        ex.raw_store(m, 40, ITEMSIZE[typ], 8)
        st.env[key] = d
    return d


def np_Empty(ex, st, a, t):
    """An array with arbitrary contents."""
    r = np_Zeros(ex, st, a, t)
    for p in ([v for _, v in r.alts] if isinstance(r, Forks) else [r]):
        if isinstance(p, Ptr):
            st.mem[st.mem[p.obj].meta['data'].obj].default = 'undef'
    return r


def np_New(ex, st, a, t):
    # subtype, nd, dims, type number, strides, data, itemsize, flags, obj
    if any(x != 0 for x in (a[4], a[5])):
        raise Unsupported("PyArray_New on given memory")
    d = new_py(ex, st, 'descr', 32, ref=IMMORTAL, typ=bv.sgn(a[3], 32))
    return np_Empty(ex, st, [a[1], a[2], d], t)


def np_MultiplyList(ex, st, a, t):
    n = 1
    for i in range(bv.sgn(a[1], 32)):
        m, off = ex.check_access(st, ex.padd(a[0], 8*i), 8, 'dims')
        n *= ex.raw_load(m, off, 8)
    return n


def fail_alloc(ex, st, alts, what):
    kinds = st.env.get('nomem_kinds')
    if kinds is not None and what not in kinds:
        return
    st.env['nalloc'] = st.env.get('nalloc', 0) + 1
    if st.env.get('nomem'):
        s2 = st.clone()
        s2.env['nomem'] = False
        s2.env['failed_alloc'] = st.env['nalloc']
        s2.env['log'] = s2.env['log'] + [('nomem', what)]
        alts.append((s2, 0))


def np_Zeros(ex, st, a, t):
    gil(st, 'PyArray_Zeros')
    nd = bv.sgn(a[0], 32) if isinstance(a[0], int) else None
    if nd is None:
        raise Unsupported("symbolic ndim")
    dims = []
    for i in range(nd):
        m, off = ex.check_access(st, ex.padd(a[1], 8*i), 8, 'dims')
        v = ex.raw_load(m, off, 8)
        if isinstance(v, E):
            vals = ex.enum_values(st, v, 8)
            if len(vals) != 1:
                raise Unsupported(f"array of symbolic size ({vals})")
            v = vals[0]
        dims.append(bv.sgn(v, 64))
    typ = st.mem[a[2].obj].meta['typ']
    alts = []
    fail_alloc(ex, st, alts, 'array')
    for s2, _ in alts:
        s2.err = ('MemoryError', 'array')
    if any(d < 0 for d in dims):
        st.err = ('ValueError', 'negative dimensions')
        return 0
    p = make_array(ex, st, dims, typ)
    return Forks([(st, p)] + alts) if alts else p


def np_DescrFromType(ex, st, a, t):
    return descr(ex, st, a[0])


def np_Return(ex, st, a, t):
    return a[0]


def np_Newshape(ex, st, a, t):
    gil(st, 'PyArray_Newshape')
    src = live(st, a[0], 'PyArray_Newshape')
    m, off = ex.check_access(st, a[1], 12, 'dims')
    dp = ex.raw_load(m, off, 8)
    nd = ex.raw_load(m, off+8, 4)
    dims = []
    for i in range(nd):
        mm, oo = ex.check_access(st, ex.padd(dp, 8*i), 8, 'dims')
        v = ex.raw_load(mm, oo, 8)
        if isinstance(v, E):
            vals = ex.enum_values(st, v, 8)
            if len(vals) != 1:
                raise Unsupported("symbolic shape")
            v = vals[0]
        dims.append(bv.sgn(v, 64))
    tot = 1
    for d in src.meta['dims']:
        tot *= d
    known = 1
    for d in dims:
        if d != -1:
            known *= d
    if -1 in dims:
        if known == 0 or tot % known:
            st.err = ('ValueError', 'cannot reshape')
            return 0
        dims[dims.index(-1)] = tot // known
        known = tot
    if known != tot:
        st.err = ('ValueError', 'cannot reshape')
        return 0
    src = st.mem[a[0].obj]
    alts = []
    fail_alloc(ex, st, alts, 'newshape')
    for s2, _ in alts:
        s2.err = ('MemoryError', 'newshape')
    incref(ex, st, a[0])
    p = wrap_array(ex, st, dims, src.meta['typ'], src.meta['data'], None, 'view', base=a[0])
    return Forks([(st, p)] + alts) if alts else p


def np_Transpose(ex, st, a, t):
    gil(st, 'PyArray_Transpose')
    src = live(st, a[0], 'PyArray_Transpose')
    if a[1] != 0:
        raise Unsupported("transpose with axes")
    incref(ex, st, a[0])
    return wrap_array(ex, st, list(reversed(src.meta['dims'])), src.meta['typ'], src.meta['data'],
                      list(reversed(src.meta['strides'])), 'view', base=a[0])


# ------------------------------------------------------------- libc & misc
def s_malloc(ex, st, a, t):
    alts = []
    fail_alloc(ex, st, alts, 'malloc')
    size = a[0]
    if isinstance(size, E):
        vals = ex.enum_values(st, size, 8)
        if len(vals) == 1:
            size = vals[0]
    oid = ex.new_obj(st, size, 'heap', 'malloc')
    st.env['heap'] = st.env.get('heap', []) + [oid]
    p = Ptr(oid, 0)
    return Forks([(st, p)] + alts) if alts else p


def s_calloc(ex, st, a, t):
    if isinstance(a[0], E) or isinstance(a[1], E):
        raise Unsupported("symbolic calloc")
    r = s_malloc(ex, st, [a[0]*a[1]], None)
    st.mem[(r.alts[0][1] if isinstance(r, Forks) else r).obj].default = 'zero'
    return r


def s_free(ex, st, a, t):
    if a[0] == 0:
        return None
    if not isinstance(a[0], Ptr):
        raise Unsupported("free of a non-pointer")
    m = st.mem[a[0].obj]
    if m.freed:
        raise Fault('double-free', 'free() twice')
    if a[0].off != 0 or m.kind != 'heap':
        raise Fault('bad-free', f"free() of {m.kind}")
    st.wobj(a[0].obj).freed = True
    return None


def s_dealloc(ex, st, a, t):
    gil(st, '_Py_Dealloc')
    dealloc(ex, st, a[0])


def s_save(ex, st, a, t):
    if st.env.get('nogil'):
        raise Fault('gil', 'released twice')
    st.env['nogil'] = True
    return 1


def s_restore(ex, st, a, t):
    st.env['nogil'] = False


def s_list_new(ex, st, a, t):
    gil(st, 'PyList_New')
    alts = []
    fail_alloc(ex, st, alts, 'list')
    for s2, _ in alts:
        s2.err = ('MemoryError', 'list')
    p = new_py(ex, st, 'list', 40, items=[None]*a[0])
    return Forks([(st, p)] + alts) if alts else p


def s_list_set(ex, st, a, t):
    gil(st, 'PyList_SetItem')
    live(st, a[0], 'PyList_SetItem')
    if not isinstance(a[2], Ptr):
        raise Fault('null-object', 'list item set to NULL')
    m = st.wobj(a[0].obj)
    it = list(m.meta['items'])
    i = bv.sgn(a[1], 64)
    if not 0 <= i < len(it):
        decref(ex, st, a[2])
        st.err = ('IndexError', 'list assignment')
        return bv.mask(32)
    old = it[i]
    it[i] = a[2]
    m.meta['items'] = it
    if old is not None:
        decref(ex, st, old)
    return 0


def s_list_append(ex, st, a, t):
    m = st.wobj(a[0].obj)
    incref(ex, st, a[1])
    m = st.wobj(a[0].obj)
    m.meta['items'] = m.meta['items'] + [a[1]]
    return 0


def stubs(numpy_include):
    s = {
        'PyArg_ParseTuple': s_ParseTuple, 'PyArg_ParseTupleAndKeywords': s_ParseTupleKw,
        '_PyArg_ParseTuple_SizeT': s_ParseTuple, '_PyArg_ParseTupleAndKeywords_SizeT': s_ParseTupleKw,
        'Py_BuildValue': s_BuildValue, '_Py_BuildValue_SizeT': s_BuildValue,
        'PyErr_Format': s_ErrFormat,
        'PyErr_SetString': s_ErrFormat,
        'PyErr_NoMemory': lambda ex, st, a, t: setattr(st, 'err', ('MemoryError', '')) or 0,
        'PyErr_Occurred': lambda ex, st, a, t: 0 if st.err is None else 1,
        'PyErr_Clear': lambda ex, st, a, t: setattr(st, 'err', None),
        'PyErr_Print': lambda ex, st, a, t: None,
        'PyErr_ExceptionMatches': lambda ex, st, a, t: int(st.err is not None and st.mem[a[0].obj].meta.get('excname') == st.err[0]),
        'PyObject_GetAttrString': s_GetAttrString, 'PyObject_SetAttrString': s_SetAttrString,
        'PyObject_HasAttrString': s_HasAttrString,
        'PyObject_CallMethodObjArgs': s_CallMethodObjArgs, 'PyObject_CallMethod': s_CallMethod,
        '_PyObject_CallMethod_SizeT': s_CallMethod,
        'PyEval_SaveThread': s_save, 'PyEval_RestoreThread': s_restore,
        'PyLong_FromUnsignedLong': lambda ex, st, a, t: mkint(ex, st, zext66(a[0], 64)),
        'PyLong_FromUnsignedLongLong': lambda ex, st, a, t: mkint(ex, st, zext66(a[0], 64)),
        'PyLong_FromSize_t': lambda ex, st, a, t: mkint(ex, st, zext66(a[0], 64)),
        'PyLong_FromLong': lambda ex, st, a, t: mkint(ex, st, sext66(a[0], 64)),
        'PyLong_FromLongLong': lambda ex, st, a, t: mkint(ex, st, sext66(a[0], 64)),
        'PyLong_FromSsize_t': lambda ex, st, a, t: mkint(ex, st, sext66(a[0], 64)),
        'PyFloat_FromDouble': lambda ex, st, a, t: new_py(ex, st, 'float', 24, val=a[0]),
        'PyLong_AsLong': lambda ex, st, a, t: bv.extract(st.mem[a[0].obj].meta['val'], 63, 0),
        'PyLong_AsSsize_t': lambda ex, st, a, t: bv.extract(st.mem[a[0].obj].meta['val'], 63, 0),
        'PyLong_AsLongLong': lambda ex, st, a, t: bv.extract(st.mem[a[0].obj].meta['val'], 63, 0),
        'PyLong_AsUnsignedLong': lambda ex, st, a, t: bv.extract(st.mem[a[0].obj].meta['val'], 63, 0),
        'PyFloat_AsDouble': lambda ex, st, a, t: st.mem[a[0].obj].meta['val'],
        'PyBytes_Size': lambda ex, st, a, t: ex.raw_load(live(st, a[0], 'PyBytes_Size'), 16, 8),
        'PyBytes_AsString': lambda ex, st, a, t: live(st, a[0], 'PyBytes_AsString') and Ptr(a[0].obj, 32),
        '_Py_Dealloc': s_dealloc,
        'PyList_New': s_list_new, 'PyList_SetItem': s_list_set, 'PyList_Append': s_list_append,
        'PyDict_New': lambda ex, st, a, t: new_py(ex, st, 'dict', 64),
        'PyDict_SetItemString': lambda ex, st, a, t: 0,
        'PyUnicode_FromString': lambda ex, st, a, t: new_py(ex, st, 'str', 64, val=cstr(ex, st, a[0])),
        'PyErr_NewException': lambda ex, st, a, t: new_py(ex, st, 'exception', 64, ref=IMMORTAL,
                                                          excname=cstr(ex, st, a[0]).split('.')[-1]),
        'PyModule_AddObject': lambda ex, st, a, t: 0,
        'PyImport_ImportModule': lambda ex, st, a, t: new_py(ex, st, 'module', 64, ref=IMMORTAL,
                                                             attrs={'_ARRAY_API': st.env['capsule'],
                                                                    '_UFUNC_API': st.env['capsule']}),
        'PyCapsule_GetPointer': lambda ex, st, a, t: st.env['apitable'],
        'malloc': s_malloc, 'calloc': s_calloc, 'free': s_free,
        '_Znwm': s_malloc, '_Znam': s_malloc, '_ZdlPv': s_free, '_ZdaPv': s_free,
        '_ZdlPvm': s_free, '_ZdaPvm': s_free,
        'memcpy': lambda ex, st, a, t: ex.memcpy(st, a[0], a[1], a[2]) or a[0],
        'memmove': lambda ex, st, a, t: ex.memcpy(st, a[0], a[1], a[2]) or a[0],
        'memset': lambda ex, st, a, t: ex.memset(st, a[0], bv.extract(a[1], 7, 0), a[2]) or a[0],
        '__external_global__': external_global,
        'Py_DecRef': lambda ex, st, a, t: decref(ex, st, a[0]) if a[0] != 0 else None,
        'Py_IncRef': lambda ex, st, a, t: incref(ex, st, a[0]) if a[0] != 0 else None,
    }
    for fn in ('round', 'floor', 'sqrt', 'fabs', 'ceil', 'trunc', 'sin', 'cos', 'exp', 'log', 'pow', 'hypot', 'atan2'):
        s[fn] = (lambda fn: lambda ex, st, a, t: bv.fop(fn, 'f64', *a))(fn)
        s[fn+'f'] = (lambda fn: lambda ex, st, a, t: bv.fop(fn, 'f32', *a))(fn)
    named = {'PyArray_Zeros': np_Zeros, 'PyArray_DescrFromType': np_DescrFromType, 'PyArray_Return': np_Return,
             'PyArray_Newshape': np_Newshape, 'PyArray_Transpose': np_Transpose, 'PyArray_Empty': np_Empty, 'PyArray_New': np_New, 'PyArray_MultiplyList': np_MultiplyList,
             'PyArray_GetNDArrayCVersion': lambda ex, st, a, t: 0x02000000,
             'PyArray_GetNDArrayCFeatureVersion': lambda ex, st, a, t: 0x00000016,
             'PyArray_GetEndianness': lambda ex, st, a, t: 1}
    for slot, nm in api_slots(numpy_include).items():
        s[f"PyArray_API[{slot}]"] = named.get(nm) or unmodelled(nm)
    # these two are macros/inline accessors in the header
    s.setdefault('PyArray_API[0]', named['PyArray_GetNDArrayCVersion'])
    s.setdefault('PyArray_API[210]', named['PyArray_GetEndianness'])
    s.setdefault('PyArray_API[211]', named['PyArray_GetNDArrayCFeatureVersion'])
    return s


def unmodelled(nm):
    def f(ex, st, a, t):
        raise Unsupported(f"NumPy C API {nm}")
    return f


def external_global(ex, st, name, oid):
    m = st.mem[oid]
    m.default = 'zero'
    if name.startswith('PyExc_'):
        p = new_py(ex, st, 'exception', 64, ref=IMMORTAL, excname=name[6:] if name != 'PyExc_IOError' else 'OSError')
        ex.raw_store(st.mem[oid], 0, p, 8)
    if name.startswith('_Py_') or name.endswith('_Type'):
        m.cells[0] = (IMMORTAL, 8)
        m.maxn = 8


def base_state(ex, nslots=400):
    st = ex.init_state
    st.env.update(log=[], nogil=False, heap=[], sets=[])
    tab = ex.new_obj(st, 8*nslots, 'apitable', 'ARRAY_API')
    for k in range(nslots):
        st.mem[tab].cells[8*k] = (FnPtr(f"PyArray_API[{k}]"), 8)
    st.mem[tab].maxn = 8
    st.env['apitable'] = Ptr(tab, 0)
    st.env['capsule'] = new_py(ex, st, 'capsule', 64, ref=IMMORTAL)
    return st


def check_refs(ex, st, held):
    """Reference-count audit of a final state.  `held`: obj id -> references
    the caller holds.  Returns a list of discrepancies."""
    cnt = dict(held)

    def add(p):
        if isinstance(p, Ptr) and p.obj in st.mem and st.mem[p.obj].kind == 'py':
            cnt[p.obj] = cnt.get(p.obj, 0) + 1
    for m in st.mem.values():
        if m.freed:
            continue
        if m.kind == 'py':
            for v in m.meta.get('attrs', {}).values():
                add(v)
            for v in m.meta.get('items', []):
                add(v)
            if m.meta.get('base') is not None:
                add(m.meta['base'])
        elif m.kind == 'global':
            for v, n in m.cells.values():
                add(v)
    add(st.ret)
    out = []
    for oid, m in st.mem.items():
        if m.kind != 'py':
            continue
        want = cnt.get(oid, 0)
        if m.freed:
            if want:
                out.append(('dangling', m.name, oid))
            continue
        have = m.cells[0][0]
        if have >> 31 == 1:
            continue
        if have > want:
            out.append(('leak', m.name, oid))
        elif have < want:
            out.append(('over-released', m.name, oid))
    for oid in st.env.get('heap', []):
        if not st.mem[oid].freed:
            out.append(('leak', 'malloc', oid))
    return out
