"""Real relaxation of mixed integer/real queries.

Every integer becomes a real, strict and negated integer comparisons are
tightened by one, anything else that needs integrality is dropped.  `unsat`
of the relaxed query means `unsat` of the original; any other answer means
nothing.  Linear queries about rounded floating-point arithmetic, on which
branch-and-bound wanders, are usually settled by this alone."""

from .solve import z3


class Relax:
    def __init__(self):
        self.terms = {}
        self.forms = {}
        self.keep = []
        self.vars = {}
        self.n = 0
        self.side = []

    def fresh(self, sort):
        self.n += 1
        return z3.Const(f"relax!{self.n}", sort)

    def term(self, t):
        k = t.get_id()
        r = self.terms.get(k)
        if r is None:
            r = self._term(t)
            self.terms[k] = r
            self.keep.append(t)
        return r

    def _term(self, t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_rational_value(t):
            return t
        d = t.decl()
        kind = d.kind()
        if t.num_args() == 0:
            if t.sort() == z3.IntSort():
                return z3.Real(f"{d.name()}#r")
            return t
        if kind == z3.Z3_OP_TO_REAL:
            return self.term(t.arg(0))
        a = [None]*t.num_args()
        if kind == z3.Z3_OP_ITE:
            c = self.fresh(z3.BoolSort())
            self.side.append(z3.Implies(c, self.form(t.arg(0), True)))
            self.side.append(z3.Implies(z3.Not(c), self.form(t.arg(0), False)))
            return z3.If(c, self.term(t.arg(1)), self.term(t.arg(2)))
        a = [self.term(x) for x in t.children()]
        if kind == z3.Z3_OP_ADD:
            return z3.Sum(*a) if len(a) > 1 else a[0]
        if kind == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r*x
            return r
        if kind == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if kind == z3.Z3_OP_UMINUS:
            return -a[0]
        if kind == z3.Z3_OP_DIV and z3.is_rational_value(a[1]):
            return a[0]/a[1]
        return self.fresh(z3.RealSort())

    def form(self, f, pos):
        k = (f.get_id(), pos)
        r = self.forms.get(k)
        if r is None:
            r = self._form(f, pos)
            self.forms[k] = r
            self.keep.append(f)
        return r

    def _form(self, f, pos):
        if z3.is_true(f) or z3.is_false(f):
            return z3.BoolVal(z3.is_true(f) == pos)
        if z3.is_not(f):
            return self.form(f.arg(0), not pos)
        if z3.is_and(f):
            x = [self.form(y, pos) for y in f.children()]
            return z3.And(*x) if pos else z3.Or(*x)
        if z3.is_or(f):
            x = [self.form(y, pos) for y in f.children()]
            return z3.Or(*x) if pos else z3.And(*x)
        if z3.is_implies(f):
            a, b = f.arg(0), f.arg(1)
            return z3.Or(self.form(a, False), self.form(b, True)) if pos else z3.And(self.form(a, True), self.form(b, False))
        k = f.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            a, b = f.arg(0), f.arg(1)
            isint = a.sort() == z3.IntSort()
            x, y = self.term(a), self.term(b)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                x, y = y, x
            strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
            if not pos:
                x, y, strict = y, x, not strict
            if not strict:
                return x <= y
            return x + 1 <= y if isint else x < y
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and f.num_args() == 2:
            a, b = f.arg(0), f.arg(1)
            if k == z3.Z3_OP_DISTINCT:
                pos = not pos
            s = a.sort()
            if s in (z3.IntSort(), z3.RealSort()):
                x, y = self.term(a), self.term(b)
                if pos:
                    return x == y
                return z3.Or(x + 1 <= y, y + 1 <= x) if s == z3.IntSort() else z3.Or(x < y, y < x)
            if s == z3.BoolSort():
                p = z3.And(z3.Or(self.form(a, False), self.form(b, True)), z3.Or(self.form(a, True), self.form(b, False)))
                n = z3.And(z3.Or(self.form(a, True), self.form(b, True)), z3.Or(self.form(a, False), self.form(b, False)))
                return p if pos else n
        if k == z3.Z3_OP_ITE:
            c = f.arg(0)
            return z3.And(z3.Or(self.form(c, False), self.form(f.arg(1), pos)), z3.Or(self.form(c, True), self.form(f.arg(2), pos)))
        if f.num_args() == 0 and f.sort() == z3.BoolSort():
            return f if pos else z3.Not(f)
        return z3.BoolVal(True)

    def splits(self, fs):
        """Integer terms whose sign is worth a case split: the two sides of the
        comparisons in the goal, conditional parts left out."""
        out = []
        seen = set()

        def noite(t):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                return z3.IntVal(0)
            if t.num_args() == 0:
                return t
            return t.decl()(*[noite(x) for x in t.children()]) if t.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) else \
                (z3.Sum(*map(noite, t.children())) if t.decl().kind() == z3.Z3_OP_ADD else z3.Product(*map(noite, t.children())))

        def hasite(t):
            return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(map(hasite, t.children())))

        def walk(f):
            if f.get_id() in seen or not z3.is_app(f):
                return
            seen.add(f.get_id())
            if f.sort() == z3.BoolSort() and f.num_args() == 2 and f.arg(0).sort() == z3.IntSort():
                d = f.arg(0) - f.arg(1)
                if hasite(d):
                    out.append(noite(d))
                return
            if f.sort() == z3.BoolSort():
                for x in f.children():
                    walk(x)
        for f in fs:
            walk(f)
        return out[:2]

    def unsat(self, pc, extra, ms):
        extra = list(extra)
        out = [self.form(f, True) for f in list(pc) + extra]
        cases = [[]]
        for t in self.splits(extra):
            x = self.term(z3.simplify(t))
            cases = [c + [y] for c in cases for y in (x <= -1, x == 0, x >= 1)]
        for c in cases:
            s = z3.Solver()
            s.set('timeout', ms)
            s.add(*out)
            s.add(*self.side)
            s.add(*c)
            if s.check() != z3.unsat:
                return False
        return True
