"""Shared parts of the contracts on the Solidity code."""
import os
import sys
import z3
_V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(_V, 'engine'), os.path.join(_V, 'oracle')]
sys.setrecursionlimit(20000)
import solex
from solex import Program, Ex, Ptr, Region, Revert, StopPath, Infeasible, Unsupported, paths, U256, BYTES, Cd, Contract, Path
import soldom
from soldom import Space, V, Q, padd, pscale, pmul, pconst, prove
from runner import UnitResult

SRC = os.environ.get('VERIF_REPO', '/repo') + '/src/'
EXT = os.environ.get('VERIF_REPO', '/repo') + '/external/'
N = 512
PSI = 49
_progs = {}


def prog(path):
    if path not in _progs:
        _progs[path] = Program(path)
    return _progs[path]


def brv(i, k):
    r = 0
    for _ in range(k):
        r = r * 2 + (i & 1)
        i >>= 1
    return r


def root(j, n=N):
    """the point at which output j of the forward transform of length n evaluates"""
    k = n.bit_length() - 1
    return pow(PSI, (512 // n) * (2 * brv(j, k) + 1), Q)


def symarr(ex, sp, name, n, lo=0, hi=Q - 1):
    vs = [sp.sym('%s[%d]' % (name, i), lo, hi) for i in range(n)]
    return ex.new_array(vs, name), vs


def same(x, y):
    """two words are the same integer"""
    if type(x) is int or type(y) is int:
        return type(x) is int and type(y) is int and x == y
    return isinstance(x, V) and isinstance(y, V) and x.key() == y.key()


def fcls(x):
    return pconst(x) if type(x) is int else x.f


def reduced(x):
    return 0 <= x < Q if type(x) is int else (x.lo >= 0 and x.hi < Q)


def snapshot(*ps):
    return [(p.r, dict(p.r.cells)) for p in ps]


def unchanged(snap):
    for r, c in snap:
        if set(r.cells) != set(c):
            return False
        for k, v in c.items():
            w = r.cells[k]
            if w is not v and not (type(v) is int and type(w) is int and v == w) and not (hasattr(v, 'key') and hasattr(w, 'key') and v.key() == w.key()):
                return False
    return True


def no_problems(R, name, ex):
    R.check(name + ': every memory access is inside its object', not ex.problems, str(ex.problems[:3]))


def isarr(ex, p, n):
    return isinstance(p, Ptr) and p.o == 0 and p.r.cells.get(0) == n


def straight(R, name, ex, thunk):
    """a function of which only one path is feasible and which returns"""
    try:
        out = thunk()
    except Revert as e:
        R.check(name + ': returns', False, 'reverts: %r' % (e.data,))
        return None
    except StopPath:
        R.check(name + ': returns', False, str(ex.problems[:3]))
        return None
    if ex.pending:
        R.check(name + ': a single path', False, '%d alternatives' % len(ex.pending))
        return None
    R.check(name + ': returns, without a revert', not ex.reverts, str([r[1] for r in ex.reverts[:2]]))
    no_problems(R, name, ex)
    R.functions |= ex.touched
    return out
