"""Runs the proof units of one property, replays failures on the real code, writes evidence, prints the verdict.

A unit is (name, callable) -> UnitResult.  Exit status: 0 every obligation discharged; 1 with a VIOLATION line
otherwise (the replay file holds a concrete failing input found on the real code, or, when none was found, the failed
obligation and the back end's answer).
"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')


class UnitResult:
    def __init__(self):
        self.obls = []         # dict(name,status,secs,backend,note,model)
        self.functions = set()
        self.assumed = set()
        self.trivial = 0
        self.solver_s = 0.0
        self.bounded = []

    def from_engine(self, E):
        for o in E.obls:
            self.add(o.name, o.status, o.secs, o.backend, o.note, o.model)
        self.trivial += E.trivial
        self.functions |= E.touched
        self.solver_s += E.solver_time
        self.assumed |= E.assumptions
        return self

    def add(self, name, status, secs=0.0, backend='z3', note=None, model=None):
        m = None
        if model is not None and status != 'proved':
            try:
                m = str(model)[:3000]
            except Exception:
                m = '?'
        self.obls.append(dict(name=name, status=status, secs=round(secs, 3), backend=backend, note=note, model=m))

    def check(self, name, ok, note=None, backend='eval'):
        self.add(name, 'proved' if ok else 'failed', 0.0, backend, note)
        return ok


def _work(args):
    name, fn = args
    t = time.time()
    try:
        r = fn()
        if not r.obls and not r.trivial:
            r.add(name + ': unit generated no obligation', 'failed', 0, 'driver')
    except Exception as e:
        r = UnitResult()
        r.add('%s: the verifier could not process the current source: %s: %s' % (name, type(e).__name__, e), 'unknown',
              time.time() - t, 'driver', traceback.format_exc()[-2500:])
    return name, time.time() - t, r


def run_units(units, jobs=8, limit=780, poll=None):
    out = []
    ctx = mp.get_context('fork')
    t0 = time.time()
    q = ctx.Queue()

    def child(i, name, fn):
        q.put((i,) + _work((name, fn)))

    pending = list(enumerate(units))
    live = {}
    res = {}
    while pending or live:
        while pending and len(live) < jobs:
            i, (name, fn) = pending.pop(0)
            p = ctx.Process(target=child, args=(i, name, fn))
            p.start()
            live[i] = (p, name, time.time())
        try:
            i, name, dt, r = q.get(timeout=1.0)
            res[i] = (name, dt, r)
            p = live.pop(i)[0]
            p.join(5)
        except Exception:
            pass
        if poll is not None and poll():
            # a failing input is known: a little more time for the obligations to name themselves
            limit = min(limit, time.time() - t0 + 45)
            poll = None
        for i in list(live):
            p, name, ts = live[i]
            if not p.is_alive() and q.empty() and i not in res:
                time.sleep(0.3)
                if q.empty() and i not in res:
                    r = UnitResult()
                    r.add(name + ': proof process ended without an answer (memory or crash)', 'unknown', 0, 'driver')
                    res[i] = (name, 0, r)
                    live.pop(i)
            elif time.time() - t0 > limit:
                p.terminate()
                p.join(3)
                if p.is_alive():
                    p.kill()
                r = UnitResult()
                r.add(name + ': time budget of the proof exhausted', 'unknown', time.time() - ts, 'driver')
                res[i] = (name, time.time() - ts, r)
                live.pop(i)
        if time.time() - t0 > limit and pending:
            for i, (name, fn) in pending:
                r = UnitResult()
                r.add(name + ': time budget of the proof exhausted', 'unknown', 0, 'driver')
                res[i] = (name, 0, r)
            pending = []
    return [res[i] for i in sorted(res)]


def search_child(fn, failed, seed, budget, q):
    try:
        q.put(fn(failed, seed, budget))
    except Exception:
        q.put({'_error': traceback.format_exc()[-2500:]})


class Search:
    """concrete search for a failing input, in a child process, while the proofs run (a crash of the real code is itself
    reported by the search functions, which run the code under test in grandchildren)"""

    def __init__(self, fn, seed, budget):
        ctx = mp.get_context('fork')
        self.q = ctx.Queue()
        self.p = ctx.Process(target=search_child, args=(fn, [], seed, budget, self.q))
        self.p.start()
        self.done = False
        self.r = None

    def poll(self, wait=0.0):
        """True once a failing input is found"""
        if not self.done:
            try:
                self.r = self.q.get(timeout=wait) if wait else self.q.get_nowait()
                self.done = True
            except Exception:
                if not self.p.is_alive() and self.q.empty():
                    time.sleep(0.2)
                    if self.q.empty():
                        self.done = True
        return self.concrete()

    def concrete(self):
        return isinstance(self.r, dict) and not self.r.get('_error')

    def finish(self, secs):
        t = time.time()
        while not self.done and time.time() - t < secs:
            self.poll(1.0)
        self.stop()
        return self.r

    def stop(self):
        import signal
        if self.p.is_alive():
            try:
                kids = [int(x) for x in open('/proc/%d/task/%d/children' % (self.p.pid, self.p.pid)).read().split()]
            except Exception:
                kids = []
            self.p.kill()
            for k in kids:
                try:
                    os.kill(k, signal.SIGKILL)
                except OSError:
                    pass
        self.p.join(5)


def load_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        return json.load(open(path))
    return []


def main(prop, units, search=None, assumptions=(), checker_cmd='', trusted=(), findings=None, extra=None,
         search_budget=None):
    """findings: function(list of known finding records for this property) -> list of (record, reproduced: bool)"""
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    S = Search(search, seed, min(search_budget or 300, 300)) if search is not None else None
    res = run_units(units, jobs=int(os.environ.get('VERIF_JOBS', '8')), limit=520 if tier == 'quick' else 780,
                    poll=S.poll if S else None)
    obls = [o for _, _, r in res for o in r.obls]
    triv = sum(r.trivial for _, _, r in res)
    funcs = sorted(set(f for _, _, r in res for f in r.functions))
    failed = [o for o in obls if o['status'] != 'proved']
    # a known finding covers exactly the obligations it names
    known = [k for k in load_findings() if k.get('property') == prop and k.get('kind') == 'known']
    covered = []
    rest = []
    for o in failed:
        k = next((k for k in known if k.get('obligation') and o['name'].startswith(k['obligation'])), None)
        (covered if k else rest).append((o, k))
    rest = [o for o, _ in rest]
    viol = 0
    replay = None
    found = None
    if S is not None and S.poll():
        viol = 1
    if rest or (not obls):
        viol = 1
    if S is not None:
        found = S.finish(min(320, 840 - (time.time() - t0))) if viol else S.stop()
    backs = {}
    for o in obls:
        if o['status'] == 'proved':
            backs[o['backend']] = backs.get(o['backend'], 0) + 1
    ev = dict(property=prop, tier=tier, seed=seed, level='proof',
              coverage=dict(obligations=len(obls) + triv, discharged=len([o for o in obls if o['status'] == 'proved']) + triv,
                            checker_cmd=checker_cmd or ('cd /verif && python3-vt checks/run.py ' + prop),
                            trusted_base=list(trusted),
                            functions_under_contract=funcs,
                            discharged_by_backend=dict(backs, constant_folding=triv),
                            solver_seconds=round(sum(r.solver_s for _, _, r in res), 2),
                            units=[dict(name=n, seconds=round(dt, 2), obligations=len(r.obls)) for n, dt, r in res],
                            bounded_not_counted=[b for _, _, r in res for b in r.bounded],
                            samples=[o['name'] for o in obls[:: max(1, len(obls) // 12)]][:14]),
              assumptions=sorted(set(assumptions) | set(trusted) | set(a for _, _, r in res for a in r.assumed)),
              wall_s=0.0, violations=viol)
    if extra:
        ev['coverage'].update(extra)
    ev['coverage']['covered_by_known_findings'] = [o['name'] for o, _ in covered]
    rc = 0
    lines = []
    for k in known:
        if any(kk is k for _, kk in covered):
            lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        rc = 1
        os.makedirs(EVID, exist_ok=True)
        replay = os.path.join(EVID, 'replay-%s.json' % prop)
        concrete = isinstance(found, dict) and not found.get('_error')
        with open(replay, 'w') as fh:
            json.dump(dict(property=prop, concrete=found if concrete else None,
                           search_error=found.get('_error') if isinstance(found, dict) else None,
                           failed_obligations=rest[:40]), fh, indent=1, default=str)
        for o in rest[:12]:
            print('FAILED OBLIGATION: %s [%s]' % (o['name'], o['status']))
        if concrete:
            print('failing input on the real code: %s' % json.dumps(found, default=str)[:1500])
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if concrete else ' no-failing-input-found'))
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d functions, %.1fs' % (prop, ev['coverage']['obligations'], ev['coverage']['discharged'], len(funcs), ev['wall_s']))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return rc
