"""loop contracts that find their own invariants"""
import z3
import bv
from symex import LoopSpec


class Auto(LoopSpec):
    """loop contract whose invariants are found: among the candidates over the scalar variables, whatever their names,
    those that hold on entry and are preserved (the engine then proves them as any other invariant)"""

    def __init__(self, func, ordinal, name):
        LoopSpec.__init__(self, func, ordinal, name)
        self.alive = None

    def candidates(self, E, L):
        return []

    def ghosts(self, E, L):
        """update of the ghost state at a back edge"""

    def invariants(self, E, L):
        if self.alive is None:
            return []
        return [(k, g) for k, g in self.candidates(E, L) if k in self.alive]

    def step(self, E, L):
        self.ghosts(E, L)

    def infer(self, E, fr, header, entry, mk):
        import symex
        self.alive = set()
        L0 = symex.View(E, fr, entry, entry)
        al = {k for k, g in self.candidates(E, L0) if E.holds(entry, g)}
        E.quiet += 1
        while True:
            self.alive = al
            h = mk().fork()
            vh = symex.View(E, fr, h, entry)
            for k, g in self.invariants(E, vh):
                h.assume(g)
            head = h.fork()
            bad = set()
            for kind, s2, b2, prev in E._run(fr, h, start=header, region=header):
                if kind != 'back':
                    continue
                v2 = symex.View(E, fr, s2, entry, head)
                self.ghosts(E, v2)
                for k, g in self.candidates(E, v2):
                    if k in al and k not in bad and not E.holds(s2, g):
                        bad.add(k)
            if not bad:
                break
            al = al - bad
        E.quiet -= 1


def scalars(L, ws=(32, 64)):
    """scalar variables in sight: (name, 64-bit zero extension, 64-bit sign extension, width)"""
    out = []
    for nm, w in L.scalars():
        if w in ws:
            v = bv.z(L.v(nm), w)
            out.append((nm, z3.ZeroExt(64 - w, v) if w < 64 else v, z3.SignExt(64 - w, v) if w < 64 else v, w))
    return out
