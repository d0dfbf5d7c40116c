"""
Parser for the textual LLVM IR produced by `clang -S -emit-llvm` (LLVM 18,
opaque pointers).  Only what the library's extension modules need.
"""

import re

TOK = re.compile(r'''
    (?P<str>c"(?:[^"])*")
  | (?P<qid>[%@$]"[^"]*")
  | (?P<id>[%@$][-a-zA-Z$._0-9]+)
  | (?P<meta>![-a-zA-Z$._0-9]*(?:\([^()]*\))?)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|-?0x[KLMH]?[0-9A-Fa-f]+|-?[0-9]+)
  | (?P<word>[a-zA-Z_][-a-zA-Z_0-9.]*)
  | (?P<dots>\.\.\.)
  | (?P<punc>[][(){}<>,=*:|])
  | (?P<qs>"[^"]*")
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n':
            i += 1
            continue
        if c == ';':
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError(f"IR token at: {s[i:i+60]!r}")
        k = m.lastgroup
        t = m.group()
        if k == 'qid':
            t = t[0] + t[2:-1]
            k = 'id'
        out.append((k, t))
        i = m.end()
    return out


class TS:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r[1]

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.peek() != s:
            raise SyntaxError(f"expected {s!r} got {self.peek()!r} in {' '.join(x[1] for x in self.t)[:300]}")
        self.i += 1

    def done(self):
        return self.i >= len(self.t)


INT = re.compile(r'^i\d+$')


def p_type(ts):
    t = ts.next()
    if INT.match(t):
        r = ('i', int(t[1:]))
    elif t == 'float':
        r = ('f32',)
    elif t == 'double':
        r = ('f64',)
    elif t in ('x86_fp80', 'half', 'fp128'):
        r = (t,)
    elif t == 'ptr':
        if ts.peek() == 'addrspace':
            ts.next()
            ts.expect('(')
            ts.next()
            ts.expect(')')
        r = ('ptr',)
    elif t == 'void':
        r = ('void',)
    elif t in ('label', 'metadata', 'token', 'opaque'):
        r = (t,)
    elif t == '[':
        n = int(ts.next())
        ts.expect('x')
        e = p_type(ts)
        ts.expect(']')
        r = ('arr', n, e)
    elif t == '<':
        if ts.peek() == '{':
            ts.next()
            r = ('struct', p_fields(ts), True)
            ts.expect('>')
        else:
            n = int(ts.next())
            ts.expect('x')
            e = p_type(ts)
            ts.expect('>')
            r = ('vec', n, e)
    elif t == '{':
        r = ('struct', p_fields(ts), False)
    elif t[0] == '%':
        r = ('named', t[1:])
    else:
        raise SyntaxError(f"type {t!r}")
    # function type
    while ts.peek() == '(':
        ts.next()
        args = []
        va = False
        while not ts.accept(')'):
            if ts.accept('...'):
                va = True
            else:
                args.append(p_type(ts))
            ts.accept(',')
        r = ('fn', r, tuple(args), va)
    return r


def p_fields(ts):
    f = []
    while not ts.accept('}'):
        f.append(p_type(ts))
        ts.accept(',')
    return tuple(f)


import struct as _struct


def p_fnum(t, ty):
    if t.startswith('0x'):
        v = int(t[2:], 16)
        return _struct.unpack('<d', _struct.pack('<Q', v))[0]
    return float(t)


def p_const(ts, ty):
    """Parse a value of the given type -> operand tuple."""
    k = ts.kind()
    t = ts.next()
    if k == 'id':
        if t[0] == '%':
            return ('reg', t[1:])
        return ('glob', t[1:])
    if t == 'null' or t == 'none':
        return ('c', 0)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t == 'true':
        return ('c', 1)
    if t == 'false':
        return ('c', 0)
    if k == 'num':
        if ty[0] in ('f32', 'f64'):
            return ('fc', p_fnum(t, ty))
        if ty[0] == 'i':
            return ('c', int(t) & ((1 << ty[1]) - 1))
        raise SyntaxError(f"number {t} of type {ty}")
    if k == 'str':
        s = t[2:-1]
        out = []
        i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i+1:i+3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return ('bytes', bytes(out))
    if t in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[t]
        if t == '<' and ts.peek() == '{':
            ts.next()
            vals = []
            while not ts.accept('}'):
                et = p_type(ts)
                vals.append((et, p_const(ts, et)))
                ts.accept(',')
            ts.expect('>')
            return ('agg', vals)
        vals = []
        while not ts.accept(close):
            et = p_type(ts)
            vals.append((et, p_const(ts, et)))
            ts.accept(',')
        return ('agg', vals)
    if t == 'getelementptr':
        while ts.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            ts.next()
        ts.expect('(')
        bt = p_type(ts)
        ops = []
        while not ts.accept(')'):
            ts.expect(',')
            while ts.peek() in ('inrange',):
                ts.next()
            et = p_type(ts)
            ops.append((et, p_const(ts, et)))
        return ('cgep', bt, ops)
    if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext'):
        ts.expect('(')
        et = p_type(ts)
        v = p_const(ts, et)
        ts.expect('to')
        p_type(ts)
        ts.expect(')')
        return v if t != 'inttoptr' else v
    raise SyntaxError(f"constant {t!r} of type {ty}")


PATTR = {'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'noalias', 'signext', 'zeroext', 'returned',
         'immarg', 'readnone', 'inreg', 'swiftself', 'allocptr', 'allocalign', 'writable', 'dead_on_unwind', 'nofree'}
PATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'nofpclass', 'byref',
             'elementtype', 'inalloca', 'captures', 'initializes'}


def p_attrs(ts):
    at = []
    while True:
        t = ts.peek()
        if t in PATTR:
            ts.next()
            at.append(t)
        elif t in PATTR_ARG:
            ts.next()
            at.append(t)
            if ts.peek() == '(':
                d = 0
                while True:
                    x = ts.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            elif ts.kind() == 'num':
                ts.next()
        else:
            return at


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext',
         'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
         'reassoc', 'samesign'}


def p_callee(ts, kind):
    """after 'call'/'invoke': returns (op, rettype, callee operand, [(type, operand)])."""
    while ts.peek() in FLAGS or ts.peek() in ('fastcc', 'ccc', 'coldcc', 'cc', 'tailcc'):
        ts.next()
    p_attrs(ts)
    rt = p_type(ts)
    if rt[0] == 'fn':
        rt = rt[1]
    callee = p_const(ts, ('ptr',))
    ts.expect('(')
    args = []
    while not ts.accept(')'):
        if ts.peek() == 'metadata':
            # metadata operand, skip
            d = 0
            while not (d == 0 and ts.peek() in (',', ')')):
                x = ts.next()
                d += x in '([{'
                d -= x in ')]}'
            args.append((('metadata',), ('undef',)))
        else:
            at = p_type(ts)
            a = p_attrs(ts)
            v = p_const(ts, at)
            args.append((at, v))
        ts.accept(',')
    return rt, callee, args


def p_instr(ts):
    dst = None
    if ts.kind() == 'id' and ts.peek(1) == '=':
        dst = ts.next()[1:]
        ts.next()
    op = ts.next()
    if op in ('tail', 'musttail', 'notail'):
        op = ts.next()
    if op in BINOPS or op in FBIN:
        while ts.peek() in FLAGS:
            ts.next()
        ty = p_type(ts)
        a = p_const(ts, ty)
        ts.expect(',')
        b = p_const(ts, ty)
        return ('fbin' if op in FBIN else 'bin', dst, op, ty, a, b)
    if op == 'fneg':
        while ts.peek() in FLAGS:
            ts.next()
        ty = p_type(ts)
        return ('fneg', dst, ty, p_const(ts, ty))
    if op in CASTS:
        while ts.peek() in FLAGS:
            ts.next()
        ty = p_type(ts)
        v = p_const(ts, ty)
        ts.expect('to')
        return ('cast', dst, op, ty, v, p_type(ts))
    if op == 'load':
        ts.accept('volatile')
        ts.accept('atomic')
        ty = p_type(ts)
        ts.expect(',')
        pt = p_type(ts)
        return ('load', dst, ty, p_const(ts, pt))
    if op == 'store':
        ts.accept('volatile')
        ts.accept('atomic')
        ty = p_type(ts)
        v = p_const(ts, ty)
        ts.expect(',')
        pt = p_type(ts)
        return ('store', None, ty, v, p_const(ts, pt))
    if op == 'getelementptr':
        while ts.peek() in ('inbounds', 'nuw', 'nusw'):
            ts.next()
        bt = p_type(ts)
        ts.expect(',')
        pt = p_type(ts)
        p = p_const(ts, pt)
        idx = []
        while ts.accept(','):
            if ts.kind() == 'meta':
                break
            it = p_type(ts)
            idx.append((it, p_const(ts, it)))
        return ('gep', dst, bt, p, idx)
    if op in ('icmp', 'fcmp'):
        while ts.peek() in FLAGS:
            ts.next()
        pred = ts.next()
        ty = p_type(ts)
        a = p_const(ts, ty)
        ts.expect(',')
        return (op, dst, pred, ty, a, p_const(ts, ty))
    if op == 'br':
        if ts.accept('label'):
            return ('jmp', None, ts.next()[1:])
        ty = p_type(ts)
        c = p_const(ts, ty)
        ts.expect(',')
        ts.expect('label')
        a = ts.next()[1:]
        ts.expect(',')
        ts.expect('label')
        return ('br', None, c, a, ts.next()[1:])
    if op == 'switch':
        ty = p_type(ts)
        v = p_const(ts, ty)
        ts.expect(',')
        ts.expect('label')
        d = ts.next()[1:]
        ts.expect('[')
        cases = []
        while not ts.accept(']'):
            ct = p_type(ts)
            c = p_const(ts, ct)
            ts.expect(',')
            ts.expect('label')
            cases.append((c[1], ts.next()[1:]))
        return ('switch', None, ty, v, d, cases)
    if op == 'phi':
        while ts.peek() in FLAGS:
            ts.next()
        ty = p_type(ts)
        inc = []
        while True:
            ts.expect('[')
            v = p_const(ts, ty)
            ts.expect(',')
            lab = ts.next()[1:]
            ts.expect(']')
            inc.append((v, lab))
            if not ts.accept(','):
                break
            if ts.kind() == 'meta':
                break
        return ('phi', dst, ty, dict((l, v) for v, l in inc))
    if op == 'select':
        while ts.peek() in FLAGS:
            ts.next()
        ct = p_type(ts)
        c = p_const(ts, ct)
        ts.expect(',')
        ty = p_type(ts)
        a = p_const(ts, ty)
        ts.expect(',')
        ty2 = p_type(ts)
        return ('select', dst, ct, c, ty, a, p_const(ts, ty2))
    if op == 'call':
        rt, callee, args = p_callee(ts, 'call')
        return ('call', dst, rt, callee, args)
    if op == 'invoke':
        rt, callee, args = p_callee(ts, 'invoke')
        while ts.peek() != 'to':
            ts.next()
        ts.next()
        ts.expect('label')
        return ('invoke', dst, rt, callee, args, ts.next()[1:])
    if op == 'ret':
        ty = p_type(ts)
        if ty[0] == 'void':
            return ('ret', None, ty, None)
        return ('ret', None, ty, p_const(ts, ty))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'alloca':
        ts.accept('inalloca')
        ty = p_type(ts)
        n = ('c', 1)
        if ts.accept(',') and ts.peek() not in ('align', 'addrspace') and ts.kind() != 'meta':
            nt = p_type(ts)
            n = p_const(ts, nt)
        return ('alloca', dst, ty, n)
    if op == 'freeze':
        ty = p_type(ts)
        return ('freeze', dst, ty, p_const(ts, ty))
    if op == 'extractvalue':
        ty = p_type(ts)
        v = p_const(ts, ty)
        idx = []
        while ts.accept(','):
            if ts.kind() != 'num':
                break
            idx.append(int(ts.next()))
        return ('extractvalue', dst, ty, v, idx)
    if op == 'insertvalue':
        ty = p_type(ts)
        v = p_const(ts, ty)
        ts.expect(',')
        et = p_type(ts)
        e = p_const(ts, et)
        idx = []
        while ts.accept(','):
            if ts.kind() != 'num':
                break
            idx.append(int(ts.next()))
        return ('insertvalue', dst, ty, v, e, idx)
    if op == 'extractelement':
        ty = p_type(ts)
        v = p_const(ts, ty)
        ts.expect(',')
        it = p_type(ts)
        return ('extractelement', dst, ty, v, p_const(ts, it))
    if op == 'insertelement':
        ty = p_type(ts)
        v = p_const(ts, ty)
        ts.expect(',')
        et = p_type(ts)
        e = p_const(ts, et)
        ts.expect(',')
        it = p_type(ts)
        return ('insertelement', dst, ty, v, e, p_const(ts, it))
    if op == 'shufflevector':
        ty = p_type(ts)
        a = p_const(ts, ty)
        ts.expect(',')
        ty2 = p_type(ts)
        b = p_const(ts, ty2)
        ts.expect(',')
        mt = p_type(ts)
        m = p_const(ts, mt)
        return ('shufflevector', dst, ty, a, b, mt, m)
    if op in ('landingpad', 'resume', 'fence'):
        return (op, dst)
    return ('unsupported', dst, op)


class Func:
    def __init__(self, name, rt, params):
        self.name = name
        self.rt = rt
        self.params = params
        self.blocks = {}
        self.entry = None
        self.module = None
        self.ninstr = 0


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}     # name -> (type, init operand or None, const?)
        self.funcs = {}
        self.internal = set()
        self.declared = set()


LINK = {'private', 'internal', 'dso_local', 'local_unnamed_addr', 'unnamed_addr', 'linkonce_odr', 'linkonce', 'weak',
        'weak_odr', 'external', 'hidden', 'protected', 'default', 'common', 'appending', 'available_externally',
        'extern_weak', 'thread_local', 'dllimport', 'dllexport', 'noundef', 'constinit'}

LABEL = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')


def parse(text, name):
    mod = Module(name)
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        if not ln or ln[0] in ';!' or ln.startswith(('source_filename', 'target ', 'attributes', '$', 'module asm')):
            i += 1
            continue
        if ln[0] == '%':
            m = re.match(r'^%("[^"]*"|[-a-zA-Z$._0-9]+) = type (.*)$', ln)
            nm = m.group(1).strip('"')
            if m.group(2).startswith('opaque'):
                mod.types[nm] = ('struct', (), False)
            else:
                mod.types[nm] = p_type(TS(tokenize(m.group(2))))
            i += 1
            continue
        if ln[0] == '@':
            p_global(mod, ln)
            i += 1
            continue
        if ln.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            mod.declared.add(m.group(1).strip('"'))
            i += 1
            continue
        if ln.startswith('define'):
            f, i = p_func(mod, lines, i)
            mod.funcs[f.name] = f
            continue
        raise SyntaxError(f"IR line: {ln[:100]!r}")
    return mod


def p_global(mod, ln):
    ts = TS(tokenize(ln))
    nm = ts.next()[1:]
    ts.expect('=')
    link = set()
    while ts.peek() not in ('global', 'constant', 'alias'):
        t = ts.next()
        link.add(t)
        if t == 'thread_local' and ts.peek() == '(':
            while ts.next() != ')':
                pass
    kind = ts.next()
    if kind == 'alias':
        return
    if link & {'private', 'internal'}:
        mod.internal.add(nm)
    ty = p_type(ts)
    init = None
    if 'external' not in link and 'extern_weak' not in link:
        init = p_const(ts, ty)
    mod.globals[nm] = (ty, init, kind == 'constant')


def p_func(mod, lines, i):
    ln = lines[i]
    ts = TS(tokenize(ln))
    ts.expect('define')
    link = set()
    while True:
        t = ts.peek()
        if t in LINK or t in ('fastcc', 'ccc'):
            link.add(ts.next())
        elif t in PATTR or t in PATTR_ARG:
            p_attrs(ts)
        else:
            break
    rt = p_type(ts)
    nm = ts.next()[1:]
    ts.expect('(')
    params = []
    k = 0
    while not ts.accept(')'):
        if ts.accept('...'):
            continue
        pt = p_type(ts)
        p_attrs(ts)
        if ts.kind() == 'id':
            pn = ts.next()[1:]
        else:
            pn = str(k)
        k += 1
        params.append((pt, pn))
        ts.accept(',')
    f = Func(nm, rt, params)
    f.module = mod
    if link & {'private', 'internal'}:
        mod.internal.add(nm)
    i += 1
    cur = None
    buf = None
    unnamed = len([1 for p in params if p[1].isdigit()])
    while True:
        ln = lines[i]
        i += 1
        if ln.startswith('}'):
            break
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if not ln.startswith(' '):
            m = LABEL.match(ln)
            cur = m.group(1).strip('"')
            f.blocks[cur] = []
            if f.entry is None:
                f.entry = cur
            continue
        if cur is None:
            cur = f.entry = str(unnamed)
            f.blocks[cur] = []
        if s.startswith('switch') and s.rstrip().endswith('['):
            while ']' not in lines[i]:
                s += ' ' + lines[i].strip()
                i += 1
            s += ' ' + lines[i].strip()
            i += 1
        if s.startswith(('catch ', 'cleanup', 'filter ', 'to label', 'unwind')):
            if s.startswith('to label'):
                lab = re.match(r'to label %("[^"]*"|\S+) ', s + ' ').group(1).strip('"')
                prev = f.blocks[cur][-1]
                f.blocks[cur][-1] = prev[:5] + (lab,)
            continue
        if re.search(r'(^|= )invoke ', s) and ' to label ' not in s:
            # continuation line follows
            s += ' ' + lines[i].strip()
            i += 1
        ins = p_instr(TS(tokenize(s)))
        f.blocks[cur].append(ins)
        f.ninstr += 1
    return f, i
