"""Run a harness over every path of the real Python code (see pysym)."""

import importlib
import json
import math
import numbers
import os
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

from . import common, realtree, solve
from . import pysym as ps
from .pysym import ENG, z3

numbers.Integral.register(ps.SInt)
numbers.Real.register(ps.SReal)

_loaded = None


def load_lsl():
    """Import the package from a scratch copy of the current tree, extensions
    replaced by placeholders.  Idempotent."""
    global _loaded
    if _loaded is None:
        d = realtree.tree(())
        home = os.path.join(d, 'home')
        os.makedirs(home, exist_ok=True)
        os.environ.update(HOME=home, LSLCONFIGDIR=os.path.join(home, 'lsl'), XDG_CONFIG_HOME=home, MPLBACKEND='Agg', TZ='UTC')
        time.tzset()
        sys.dont_write_bytecode = True
        sys.path.insert(0, d)
        import warnings
        warnings.simplefilter('ignore')
        import lsl
        assert os.path.realpath(lsl.__file__).startswith(os.path.realpath(d)), lsl.__file__
        _loaded = d
    return _loaded


def imp(name):
    load_lsl()
    return importlib.import_module(name)


# ------------------------------------------------ functions that were run

SEEN = set()
_TOOL = 3


def _watch():
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is not None:
        return
    mon.use_tool_id(_TOOL, 'verif')

    def start(code, off):
        fn = code.co_filename
        i = fn.rfind('/lsl/')
        if i >= 0 and '/verif-real-' in fn:
            SEEN.add(f"{fn[i+1:]}:{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(_TOOL, mon.events.PY_START, start)
    mon.set_events(_TOOL, mon.events.PY_START)


# --------------------------------------------------------------- envs

class Failed(Exception):
    pass


class Env:
    """Symbolic mode."""
    sym = True

    def __init__(self, runner):
        self.r = runner

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        ENG.vars[name] = t
        if lo is not None:
            ENG.add(t >= lo)
        if hi is not None:
            ENG.add(t <= hi)
        return ps.mkint(t)

    def real(self, name, lo=None, hi=None):
        t = z3.Real(name)
        ENG.vars[name] = t
        if lo is not None:
            ENG.add(t >= ps._frac(lo))
        if hi is not None:
            ENG.add(t <= ps._frac(hi))
        return ps.SReal(t)

    def cplx(self, name, lo=None, hi=None):
        return ps.SCplx(self.real(name+'.re', lo, hi), self.real(name+'.im', lo, hi))

    def bool(self, name):
        t = z3.Bool(name)
        ENG.vars[name] = t
        return ps.SBool(t)

    def choice(self, name, seq):
        seq = list(seq)
        t = z3.Int(name)
        ENG.vars[name] = t
        ENG.add(z3.And(t >= 0, t < len(seq)))
        return seq[ENG.concretise(t)]

    def bytes(self, name, n):
        return [self.int(f"{name}{i}", 0, 255) for i in range(n)]

    def assume(self, c):
        t = ps.tb(c)
        ENG.add(t)
        if ENG.check() == z3.unsat:
            raise ps.Abort()

    def check(self, c, what):
        self.r.check(c, what)

    def eq(self, a, b, what):
        if ps.is_sym(a) or ps.is_sym(b):
            if a is None or b is None or isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
                return self.check(False, what)
        self.check(a == b, what)

    def close(self, a, b, tol, what):
        d = a - b
        self.check(ps.land(d <= tol, d >= -tol), what)

    def reach(self, name):
        self.r.reached.add(name)

    def fail(self, what):
        self.check(False, what)

    def raises(self, exc, f, *a, **k):
        """Does f raise exc?  Returns the exception or None."""
        try:
            f(*a, **k)
        except exc as e:
            return e
        return None

    land, lor, lnot, ite, implies = map(staticmethod, (ps.land, ps.lor, ps.lnot, ps.ite, ps.implies))


class Concrete:
    """Replay mode: the same harness on plain values and unpatched code."""
    sym = False

    def __init__(self, model):
        self.m = model
        self.failed = []

    def int(self, name, lo=None, hi=None):
        v = self.m.get(name)
        return int(v) if v is not None else (lo if lo is not None else (hi if hi is not None and hi < 0 else 0))

    def real(self, name, lo=None, hi=None):
        v = self.m.get(name)
        if v is None:
            v = lo if lo is not None else 0
        v = float(Fraction(v))
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def cplx(self, name, lo=None, hi=None):
        return complex(self.real(name+'.re', lo, hi), self.real(name+'.im', lo, hi))

    def bool(self, name):
        return bool(self.m.get(name, False))

    def choice(self, name, seq):
        return list(seq)[int(self.m.get(name, 0))]

    def bytes(self, name, n):
        return [self.int(f"{name}{i}", 0) for i in range(n)]

    def assume(self, c):
        if not c:
            raise ps.Abort()

    def check(self, c, what):
        if not c:
            raise Failed(what)

    def eq(self, a, b, what):
        if not (a == b):
            raise Failed(f"{what}: {a!r} != {b!r}")

    def close(self, a, b, tol, what):
        if not abs(a - b) <= tol:
            raise Failed(f"{what}: {a!r} differs from {b!r} by more than {float(tol)!r}")

    def reach(self, name):
        pass

    def fail(self, what):
        raise Failed(what)

    raises = Env.raises

    @staticmethod
    def land(*x):
        return all(x)

    @staticmethod
    def lor(*x):
        return any(x)

    @staticmethod
    def lnot(x):
        return not x

    @staticmethod
    def ite(c, a, b):
        return a if c else b

    @staticmethod
    def implies(a, b):
        return (not a) or bool(b)


# ------------------------------------------------------------- explorer

class Runner:
    def __init__(self, c, name, func, params, script, exts, reach, max_paths, budget):
        self.c, self.name, self.func, self.params = c, name, func, params
        self.script, self.exts = script, exts
        self.reached = set()
        self.checks = 0
        self.paths = 0
        self.max_paths = max_paths
        self.budget = budget
        self.want = reach
        self.bad = {}
        self.spurious = []

    def model(self, extra=(), soft=True):
        """Values of the inputs on this path (preferring exact float results)."""
        tries = [list(extra) + ENG.errs] if (soft and ENG.errs) else []
        tries.append(list(extra))
        for i, ex in enumerate(tries):
            r = ENG.check(*ex, ms=(10000 if i < len(tries)-1 else None))
            if r == z3.sat:
                m = ENG.solver.model()
                return {k: val(m, t) for k, t in ENG.vars.items()}
        return None

    def check(self, cond, what):
        self.checks += 1
        if not ps.is_sym(cond):
            if cond:
                return
            neg = z3.BoolVal(True)
        else:
            neg = z3.simplify(z3.Not(ps.tb(cond)))
            if z3.is_false(neg):
                return
            r = ENG.check(neg)
            if r == z3.unsat:
                ENG.add(z3.Not(neg))
                return
            if r != z3.sat:
                # nonlinear queries: try the general-purpose tactic afresh
                r = self._retry(neg)
                if r == z3.unsat:
                    ENG.add(z3.Not(neg))
                    return
                if r != z3.sat:
                    self.probe(what, [])
                    raise ps.Limit(f"no verdict on: {what}")
        self.candidate(what, [neg])
        # go on with the values for which it holds
        if z3.is_true(neg):
            raise ps.Abort()
        ENG.add(z3.Not(neg))
        if ENG.check() == z3.unsat:
            raise ps.Abort()

    def _retry(self, neg):
        for tac in ('qfnra-nlsat', 'smt'):
            try:
                s = z3.Tactic(tac).solver()
                s.set('timeout', ENG.timeout)
                s.add(*ENG.pc)
                s.add(neg)
                t0 = time.time()
                r = s.check()
                solve.note(t0, r)
                if r != z3.unknown:
                    return r
            except z3.Z3Exception:
                continue
        return z3.unknown

    def candidate(self, what, extra):
        if self.bad.get(what, 0) >= 2:
            return
        block = []
        for attempt in range(4):
            m = self.model(list(extra) + block, soft=(attempt < 3))
            if m is None:
                break
            ok, out = self.replay(m)
            if ok:
                self.bad[what] = 99
                self.c.violation(f"{self.name}: {what} [{out}]", f"{self.name}:{what}",
                                 {'harness': self.name, 'params': self.params, 'inputs': m, 'what': what, 'observed': out,
                                  'replay': f"/opt/venv/bin/python {self.script} --replay <this file>"})
                return
            self.last = (m, out)
            vs = [ENG.vars[k] != tosym(ENG.vars[k], v) for k, v in m.items()]
            if vs:
                block.append(z3.Or(*vs))
        if self.spread(what, extra):
            return
        self.bad[what] = self.bad.get(what, 0) + 1
        self.spurious.append({'harness': self.name, 'what': what, 'inputs': getattr(self, 'last', (None, None))[0],
                              'observed': getattr(self, 'last', (None, None))[1]})

    def spread(self, what, extra):
        """Where rounding decides, a model need not be a double on which it goes
        the wrong way: take models that lie apart, and their neighbours."""
        reals = [k for k, t in ENG.vars.items() if t.sort() == z3.RealSort()]
        if not (ENG.float_err and reals) or self.bad.get(what):
            return False
        ms, block, t0 = [], [], time.time()
        while len(ms) < 60 and time.time() - t0 < 60:
            m = self.model(list(extra) + block, soft=False)
            if m is None:
                break
            ms.append(m)
            ds = []
            for k in reals:
                v = Fraction(m[k])
                d = ps._frac(abs(v)/1000 + Fraction(1, 10**6))
                ds += [ENG.vars[k] > ps._frac(v) + d, ENG.vars[k] < ps._frac(v) - d]
            block.append(z3.Or(*ds))
        if not ms:
            return False
        doc = {'data': {'harness': self.name, 'params': self.params, 'inputs': ms[0], 'batch': ms, 'reals': reals}}
        ok, out = replay_process(self.script, doc, self.exts, timeout=300)
        if not ok:
            return False
        m, out = out if isinstance(out, list) else (ms[0], out)
        self.bad[what] = 99
        self.c.violation(f"{self.name}: {what} [{out}]", f"{self.name}:{what}",
                         {'harness': self.name, 'params': self.params, 'inputs': m, 'what': what, 'observed': out,
                          'replay': f"/opt/venv/bin/python {self.script} --replay <this file>"})
        return True

    def probe(self, what, extra):
        """The engine lost the thread here: see whether the real code fails on
        the values that lead here before giving up."""
        try:
            m = self.model(extra)
        except ps.Limit:
            m = None
        if m is None:
            return False
        ok, out = self.replay(m)
        if ok:
            self.c.violation(f"{self.name}: {what} [{out}]", f"{self.name}:{what}",
                             {'harness': self.name, 'params': self.params, 'inputs': m, 'what': what, 'observed': out})
            return True
        return False

    def replay(self, m):
        doc = {'data': {'harness': self.name, 'params': self.params, 'inputs': m}}
        return replay_process(self.script, doc, self.exts)

    def run(self):
        t0 = time.time()
        work = [[]]
        _watch()
        while work:
            if self.paths >= self.max_paths:
                raise common.Inconclusive(f"{self.name}: more than {self.max_paths} paths")
            if time.time() - t0 > self.budget:
                raise common.Inconclusive(f"{self.name}: more than {self.budget} s")
            prefix = work.pop()
            ENG.begin(prefix)
            env = Env(self)
            try:
                self.func(env, **self.params)
                self.paths += 1
            except ps.Abort:
                pass
            except (ps.Limit, ps.Unsupported) as e:
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                tbk = traceback.extract_tb(e.__traceback__)
                where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tbk if '/lsl/' in f.filename or '/checks/' in f.filename][-3:]
                if not self.probe(f"gives up at {where}", []):
                    raise common.Inconclusive(f"{self.name}: {type(e).__name__}: {e} at {where}")
            except common.Enough:
                raise
            except Exception as e:
                self.paths += 1
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                tbk = traceback.extract_tb(e.__traceback__)
                where = [f"{os.path.basename(f.filename)}" for f in tbk if '/lsl/' in f.filename][-1:]
                self.candidate(f"unexpected {type(e).__name__}: {str(e)[:80]} {where}", [])
            finally:
                ENG.active = False
            work.extend(ENG.alts)
        if self.spurious and not self.c.violations:
            raise common.Inconclusive(f"counterexamples that do not reproduce: {self.spurious[:2]}")
        if not self.c.violations:
            for w in self.want:
                self.c.reach(f"{self.name}: {w}", w in self.reached)
            if not self.want:
                self.c.reach(f"{self.name}: completes", self.paths > 0)
        self.c.ob(self.name + (f" {self.params}" if self.params else ''), self.checks, paths=self.paths, wall_s=round(time.time()-t0, 2))
        self.c.func(*SEEN)


def val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return f"{v.numerator_as_long()}/{v.denominator_as_long()}"
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return f"{a.numerator_as_long()}/{a.denominator_as_long()}"
    if z3.is_true(v) or z3.is_false(v):
        return z3.is_true(v)
    return str(v)


def tosym(t, v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if t.sort() == z3.IntSort():
        return z3.IntVal(v)
    return z3.RealVal(v)


def replay_process(script, doc, exts=(), timeout=120):
    d = realtree.tree(exts)
    home = tempfile.mkdtemp(prefix='home', dir=d)
    fn = os.path.join(home, 'cex.json')
    with open(fn, 'w') as f:
        json.dump(doc, f)
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': home, 'PYTHONPATH': d, 'PYTHONDONTWRITEBYTECODE': '1',
         'LSLCONFIGDIR': os.path.join(home, 'lsl'), 'XDG_CONFIG_HOME': home, 'MPLBACKEND': 'Agg', 'TZ': 'UTC', 'LANG': 'C.UTF-8',
         'OMP_NUM_THREADS': '2', 'PYTHONWARNINGS': 'ignore', 'VERIF_REPO': common.REPO, 'VERIF_REPLAY': '1'}
    try:
        r = subprocess.run([realtree.PY, script, '--replay', fn], cwd=home, env=e, text=True, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, f"the real code does not finish within {timeout} s"
    for line in r.stdout.splitlines():
        if line.startswith('REPLAY '):
            j = json.loads(line[7:])
            return j['failed'], j['what']
    if r.returncode < 0:
        return True, f"the real code dies with signal {-r.returncode}"
    return False, f"replay broken: {r.stdout[-300:]} {r.stderr[-600:]}"


def explore(c, name, func, script, params=None, exts=(), reach=(), max_paths=4000, budget=600, decisions=400, concretise=40, float_err=False):
    ENG.max_decisions, ENG.max_concretise, ENG.float_err = decisions, concretise, float_err
    R = Runner(c, name, func, params or {}, script, exts, reach, max_paths, budget)
    try:
        R.run()
    finally:
        if R.checks:
            c.extra.setdefault('paths', 0)
            c.extra['paths'] += R.paths
    return R


def batch(doc, harnesses):
    f = harnesses[doc['harness'].split(' | ')[0]]
    t0 = time.time()
    for m in doc['batch']:
        for k in doc['reals']:
            x = y = float(Fraction(m[k]))
            for n in range(12):
                for z in (x, y):
                    if time.time() - t0 > 200:
                        return {'failed': False, 'what': 'no failure on the real code'}
                    mm = dict(m, **{k: f"{Fraction(z).numerator}/{Fraction(z).denominator}"})
                    try:
                        f(Concrete(mm), **doc['params'])
                    except Failed as e:
                        return {'failed': True, 'what': [mm, str(e)]}
                    except ps.Abort:
                        pass
                    except BaseException as e:
                        if any('/lsl/' in fr.filename for fr in traceback.extract_tb(e.__traceback__)):
                            return {'failed': True, 'what': [mm, f"{type(e).__name__}: {e}"]}
                x, y = math.nextafter(x, math.inf), math.nextafter(y, -math.inf)
    return {'failed': False, 'what': 'no failure on the real code'}


def main(prop, note, body, harnesses, script):
    """Entry point of a check file: verification run or replay of one case."""
    script = os.path.abspath(script)
    if '--replay' in sys.argv:
        doc = json.load(open(sys.argv[sys.argv.index('--replay')+1]))['data']
        if not os.environ.get('VERIF_REPLAY'):
            # by hand: go through the scratch tree of the current sources
            print(replay_process(script, {'data': doc}, exts=tuple(doc.get('exts', EXTS.get(prop, ())))))
            sys.exit(0)
        env = Concrete(doc['inputs'])
        out = {'failed': False, 'what': 'no failure on the real code'}
        if 'batch' in doc:
            print('REPLAY ' + json.dumps(batch(doc, harnesses), default=str))
            sys.exit(0)
        try:
            harnesses[doc['harness'].split(' | ')[0]](env, **doc['params'])
        except Failed as e:
            out = {'failed': True, 'what': str(e)}
        except ps.Abort:
            out = {'failed': False, 'what': 'assumption not met by the concrete values'}
        except BaseException as e:
            tbk = traceback.extract_tb(e.__traceback__)
            inlsl = any('/lsl/' in f.filename for f in tbk)
            out = {'failed': inlsl or isinstance(e, AssertionError), 'what': f"{type(e).__name__}: {e}"}
            if not inlsl:
                out['what'] += ' (in the harness) ' + ''.join(traceback.format_tb(e.__traceback__)[-2:])
        print('REPLAY ' + json.dumps(out, default=str))
        sys.exit(0)
    common.run(prop, note, body)


EXTS = {}
