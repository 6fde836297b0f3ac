"""Concrete search over the real Python code: a worker process of the repository's own interpreter per seed."""
import json
import os
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def oracle(name):
    """a module of /verif/oracle (under its own name: /repo has modules of the same names)"""
    import importlib.util
    sp = importlib.util.spec_from_file_location('vx_' + name, os.path.join(VERIF, 'oracle', name + '.py'))
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


class Slow(BaseException):
    pass


def _alarm(*a):
    raise Slow()


def worker(cases, test, limit=30):
    """called from the script of a property: argv = seed budget.  cases(seed) yields JSON-able dicts, test(case) returns
    None or a description of the failure"""
    seed, budget = int(sys.argv[1]), float(sys.argv[2])
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    real = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    n = 0
    for c in cases(seed):
        if time.time() - t0 > budget:
            break
        signal.alarm(limit)
        try:
            r = test(c)
        except Slow:
            r = 'no answer after %d s' % limit
        except RecursionError:
            r = 'unbounded recursion'
        except Exception as e:
            r = 'raises %s: %s' % (type(e).__name__, str(e)[:200])
        signal.alarm(0)
        n += 1
        if r:
            sys.stdout = real
            print(json.dumps(dict(case=c, failure=r), default=lambda x: x.hex() if isinstance(x, (bytes, bytearray)) else str(x)))
            return
    sys.stdout = real
    print(json.dumps(dict(cases=n)))


def search(script, jobs=3, py=None, args=()):
    """-> search function for runner.main"""
    PY = py or globals()['PY']
    def fn(failed, seed, budget):
        repo = os.environ.get('VERIF_REPO', '/repo')
        env = dict(os.environ, PYTHONPATH=':'.join([os.path.join(repo, 'pythonref'), os.path.join(VERIF, 'oracle', 'pystub')]),
                   PYTHONDONTWRITEBYTECODE='1')
        path = os.path.join(VERIF, 'hunts', script)
        ps = [subprocess.Popen([PY, path, str(seed + 1000 * i), str(budget)] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env, text=True, cwd=os.path.join(repo, 'pythonref')) for i in range(jobs)]
        try:
            left = list(ps)
            err = None
            t0 = time.time()
            while left and time.time() - t0 < budget + 60:
                for p in list(left):
                    if p.poll() is None:
                        continue
                    left.remove(p)
                    out, e = p.communicate()
                    line = out.strip().splitlines()[-1] if out.strip() else ''
                    try:
                        r = json.loads(line)
                    except ValueError:
                        r = None
                    if r is None:
                        if 'ModuleNotFoundError' in e and 'No module named' in e:
                            err = e[-1500:]
                        else:
                            # the module under test cannot even be imported or the worker died
                            return dict(case='import', failure=(e or 'worker died')[-800:])
                    elif 'failure' in r:
                        return r
                time.sleep(0.2)
            if err:
                return {'_error': err}
            return None
        finally:
            for p in ps:
                if p.poll() is None:
                    p.kill()
    return fn
