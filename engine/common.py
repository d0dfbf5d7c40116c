"""Bookkeeping every check shares: obligations, evidence, verdict, exit code."""

import glob
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVID = os.path.join(VERIF, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def thorough():
    return os.environ.get('VERIF_TIER', 'quick') == 'thorough' or '--thorough' in sys.argv


class Inconclusive(Exception):
    pass


MAXV = int(os.environ.get('VERIF_MAXV', '3'))


class Enough(BaseException):
    """Enough counterexamples: stop exploring."""


class Check:
    """One property.  The body calls `ob(name)` per obligation discharged,
    `violation(...)` per counterexample confirmed on the real code."""

    def __init__(self, prop, technique_note):
        self.prop = prop
        self.t0 = time.time()
        self.note = technique_note
        self.obligations = []
        self.violations = []
        self.known = []
        self.functions = {}
        self.bounds = []
        self.outside = []
        self.stubs = []
        self.inconclusive = []
        self.opened = []
        self.child = False
        self.extra = {}
        self.witness = []
        self.tier = 'thorough' if thorough() else 'quick'
        self.kf = self._load_known()
        for f in glob.glob(os.path.join(EVID, f"{prop}-counterexample-*.json")):
            os.remove(f)

    def _load_known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)) if k.get('property') == self.prop and k.get('status') == 'known']

    def ob(self, name, n=1, **kw):
        d = {'obligation': name, 'cases': n}
        d.update(kw)
        self.obligations.append(d)

    def reach(self, name, ok):
        """A reachability twin: it must be satisfiable or the claim is vacuous."""
        self.witness.append({'witness': name, 'reached': bool(ok)})
        if not ok:
            self.open(f"vacuous: {name} is not reachable")

    def open(self, what):
        """Something left undecided: the run goes on (a counterexample may still
        turn up) but cannot end in a pass."""
        if what not in self.opened:
            self.opened.append(what)

    def func(self, *names):
        for n in names:
            self.functions[n] = self.functions.get(n, 0) + 1

    def violation(self, what, key, data):
        """Record a counterexample already reproduced on the real code."""
        for k in self.kf:
            if k.get('key') == key:
                if k['what'] not in [x['what'] for x in self.known]:
                    self.known.append({'key': key, 'what': k['what']})
                return
        if key in [v['key'] for v in self.violations]:
            return
        if self.child:
            self.violations.append({'what': what, 'key': key, 'data': data})
            if len(self.violations) >= MAXV:
                raise Enough()
            return
        os.makedirs(EVID, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(EVID, f"{self.prop}-counterexample-{n}.json")
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'key': key, 'data': data}, f, indent=1, default=str)
        self.violations.append({'what': what, 'key': key, 'replay': path})
        if n+1 >= MAXV:
            raise Enough()

    def evidence(self, stats):
        cov = {
            'explanation': self.note,
            'functions_encoded': sorted(self.functions),
            'bounds': self.bounds,
            'outside_the_claim': self.outside,
            'stubs_and_assumptions': self.stubs,
            'obligations': len(self.obligations),
            'cases': sum(o['cases'] for o in self.obligations),
            'obligation_list': trim(self.obligations),
            'reachability_witnesses': trim(self.witness),
            'solver': stats,
            'known_findings': self.known,
            'violations': self.violations,
            'inconclusive': self.inconclusive,
        }
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': 'other', 'coverage': cov,
              'wall_s': round(time.time()-self.t0, 2)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{self.prop}.json"), 'w') as f:
            json.dump(ev, f, indent=1, default=str)


def trim(rows, most=400, width=300):
    """Keep the evidence readable: long fields and long lists are cut short."""
    def cut(v):
        t = v if isinstance(v, str) else json.dumps(v, default=str)
        return v if len(t) <= width else t[:width] + f" ... ({len(t)} characters)"
    out = [{k: cut(v) for k, v in r.items()} for r in rows[:most]]
    if len(rows) > most:
        out.append({'and_more': len(rows)-most})
    return out


NPROC = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 2)


def parallel(c, jobs, nproc=None):
    """Run jobs (callables taking the Check) in forked processes and merge what
    they report.  A job that dies leaves the check undecided."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    from . import solve
    nproc = nproc or NPROC
    jobs = list(jobs)
    if nproc <= 1 or len(jobs) <= 1:
        for j in jobs:
            j(c)
        return
    ctx = mp.get_context('fork')

    def work(conn, job):
        c.child = True
        for k in ('obligations', 'violations', 'known', 'bounds', 'outside', 'stubs', 'opened', 'witness'):
            setattr(c, k, [])
        c.functions, c.extra = {}, {}
        s0 = solve.STATS.__dict__.copy()
        from . import realtree
        had = set(realtree._trees)
        err = None
        try:
            job(c)
        except Enough:
            pass
        except BaseException as e:
            err = f"{type(e).__name__}: {e}"
            traceback.print_exc()
        out = {k: getattr(c, k) for k in ('obligations', 'violations', 'known', 'bounds', 'outside', 'stubs', 'opened', 'witness', 'functions', 'extra')}
        out['stats'] = {k: v - s0[k] for k, v in solve.STATS.__dict__.items()}
        out['err'] = err
        conn.send(json.dumps(out, default=str))
        conn.close()
        for k, d in realtree._trees.items():
            if k not in had:
                shutil.rmtree(d, ignore_errors=True)
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(0)

    todo = list(enumerate(jobs))
    live = {}
    results = {}
    sys.stdout.flush()
    sys.stderr.flush()
    stop = False
    while todo or live:
        while todo and len(live) < nproc and not stop:
            i, j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(b, j))
            p.start()
            b.close()
            live[a] = (i, p)
        for a in wait(list(live)):
            i, p = live.pop(a)
            try:
                results[i] = json.loads(a.recv())
            except EOFError:
                results[i] = {'err': f"job {i} died"}
            a.close()
            p.join()
            if sum(len(r.get('violations', ())) for r in results.values()) >= MAXV:
                stop = True
        if stop:
            todo = []
            for a, (i, p) in live.items():
                p.kill()
                p.join()
            live = {}
    for i in sorted(results):
        r = results[i]
        for k in ('obligations', 'known', 'witness'):
            for x in r.get(k, ()):
                if k != 'known' or x['what'] not in [y['what'] for y in c.known]:
                    getattr(c, k).append(x)
        for k in ('bounds', 'outside', 'stubs'):
            for x in r.get(k, ()):
                if x not in getattr(c, k):
                    getattr(c, k).append(x)
        for x in r.get('opened', ()):
            c.open(x)
        c.func(*r.get('functions', ()))
        for k, v in r.get('extra', {}).items():
            if isinstance(v, (int, float)):
                c.extra[k] = c.extra.get(k, 0) + v
            else:
                c.extra.setdefault(k, v)
        for k, v in r.get('stats', {}).items():
            setattr(solve.STATS, k, getattr(solve.STATS, k) + v)
        if r.get('err'):
            c.open(f"job {i}: {r['err']}")
    for i in sorted(results):
        for v in results[i].get('violations', ()):
            c.violation(v['what'], v['key'], v['data'])


def run(prop, note, body):
    """Run a check body and exit with its verdict."""
    from . import solve
    c = Check(prop, note)
    code = 0
    try:
        body(c)
        if not c.obligations and not c.violations:
            raise Inconclusive('no obligation was discharged')
        if c.opened and not c.violations:
            raise Inconclusive(f"{len(c.opened)} undecided: {c.opened[:3]}")
    except Enough:
        pass
    except Exception as e:
        c.inconclusive.append(f"{type(e).__name__}: {e}")
        traceback.print_exc()
        code = 2
    stats = solve.STATS.as_dict()
    c.evidence(stats)
    for k in c.known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if c.violations:
        for v in c.violations:
            print(f"{prop}: {v['what']}")
        for v in c.violations:
            print(f"VIOLATION property={prop} replay={v['replay']}")
        sys.stdout.flush()
        sys.exit(1)
    if code:
        print(f"INCONCLUSIVE property={prop}: {c.inconclusive}")
        sys.exit(code)
    print(f"OK property={prop} tier={c.tier} obligations={len(c.obligations)} cases={sum(o['cases'] for o in c.obligations)} "
          f"queries={stats['queries']} cached={stats['discharged_by_renaming_cache']} solver_s={stats['solver_s']} wall_s={time.time()-c.t0:.1f}")
    sys.exit(0)
