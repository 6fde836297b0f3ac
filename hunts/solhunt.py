"""Concrete runs of the Solidity sources of /repo (this sandbox has no compiler and no EVM: the executor of /verif/engine in
its concrete mode stands in for them)."""
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'hunts')]
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import solex
from solex import Program, Ex, Ptr, Revert
import pyhunt
from pyhunt import worker, oracle

REPO = os.environ.get('VERIF_REPO', '/repo')
_p = {}


class Reverted(Exception):
    pass


def prog(name):
    f = os.path.join(REPO, 'external' if name in ('NTT_Recursive', 'ETHFalcon_Recursive') else 'src', name + '.sol')
    if f not in _p:
        _p[f] = Program(f)
    return _p[f]


class Sol:
    """one execution context on one source file, possibly with an instance of a contract"""

    def __init__(self, file, contract=None, args=(), stubs=None):
        self.ex = Ex(prog(file), 'run', stubs=stubs)
        self.c = self.ex.new_contract(contract, [self.arg(a) for a in args]) if contract else None

    def arg(self, a):
        if isinstance(a, (bytes, bytearray)):
            return self.ex.new_bytes(bytes(a))
        if isinstance(a, (list, tuple)):
            return self.ex.new_array(list(a))
        return a

    def val(self, r):
        if isinstance(r, tuple):
            return tuple(self.val(x) for x in r)
        return r

    def call(self, fn, *args, types=None, fun=None):
        """the result (pointers are left as they are), or Reverted"""
        vals = [self.arg(a) for a in args]
        self.args = vals
        try:
            if fun is not None:
                out = self.ex.invoke(fun, vals, self.c)
            else:
                out = self.ex.call(fn, vals, self.c, types=types)
        except Revert as e:
            raise Reverted(repr(e.data)[:80])
        if self.ex.problems:
            raise Exception('memory access outside an object: %s' % (self.ex.problems[:2],))
        return out[0]

    def arr(self, p):
        return self.ex.get_array(p)

    def bytes(self, p):
        return self.ex.get_bytes(p)


def words(coefs):
    """16 coefficients per word, least significant first"""
    return [sum((c & 0xffff) << (16 * j) for j, c in enumerate(coefs[i:i + 16])) for i in range(0, len(coefs), 16)]


def coefs(ws):
    return [w >> (16 * j) & 0xffff for w in ws for j in range(16)]
