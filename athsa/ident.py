"""Identities between gated values by random interpretation.

A summarised value is a graph of polynomials, radicals, quotients and gates
(merges of branches, MAX, MIN, absolute values).  A state interprets the reads;
it selects one side of every gate it meets, a path.  On a path both sides of an
identity are algebraic functions of the state, and algebraic functions which
agree in a generic state (compared with 60 digits) are the same function: so an
identity that holds in a generic state holds for all states of its path, and
one that fails there is violated.  Which gates were taken which way is recorded,
so that the evidence can say what was left out."""
import mpmath
from . import sym
from .sym import Fraction

TOL = mpmath.mpf(10) ** -20
DPS = 60


class State(sym.Valuation):
    """named(atom) -> number or None"""

    def __init__(self, named, seed=1, forbid=None):
        sym.Valuation.__init__(self, seed)
        self.named = named
        self.forbid = forbid
        self.sig = {}

    def _atom(self, a):
        k = a.kind
        if k in ('ld', 'sym', 'rd'):
            v = self.named(a)
            if v is not None:
                return mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else mpmath.mpf(v)
        why = self.forbid and self.forbid(a)
        if why:
            raise sym._CantEval(why + sym.show_atom(a)[:80])
        if k == 'ite':
            c = self.cond(a.args[0])
            self.sig[a.id] = c
            return self.poly(a.args[1] if c else a.args[2])
        if k in ('max', 'min'):
            vs = [self.poly(x) for x in a.args[0]]
            v = max(vs) if k == 'max' else min(vs)
            self.sig[a.id] = vs.index(v)
            return v
        if k == 'abs':
            v = self.poly(a.args[0])
            self.sig[a.id] = v >= 0
            return abs(v)
        return sym.Valuation._atom(self, a)


class Cover:
    """which gates of some values were taken which way"""

    def __init__(self, values):
        self.gates = {}
        seen = set()
        for v in values:
            self.walk(v, seen)
        self.paths = set()

    def walk(self, x, seen):
        stack = [x]
        while stack:
            x = stack.pop()
            if isinstance(x, sym.Poly):
                stack.extend(x.atoms())
            elif isinstance(x, sym.Atom):
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.kind == 'ite' or x.kind == 'abs':
                    self.gates[x.id] = {True: 0, False: 0}
                elif x.kind in ('max', 'min'):
                    self.gates[x.id] = {i: 0 for i in range(len(x.args[0]))}
                stack.extend(x.args)
            elif isinstance(x, (tuple, list, set, frozenset)):
                stack.extend(x)

    def add(self, st):
        for g, c in st.sig.items():
            if g in self.gates and c in self.gates[g]:
                self.gates[g][c] += 1
        self.paths.add(tuple(sorted(st.sig.items())))

    def fresh(self, st):
        return any(g in self.gates and not self.gates[g].get(c, 1) for g, c in st.sig.items())

    def missing(self):
        return [(g, c) for g, d in self.gates.items() for c, n in d.items() if not n]

    def sides(self):
        return sum(len(d) for d in self.gates.values())


def same(x, y, scale=1, tol=None):
    return abs(x - y) <= (tol or TOL) * max(abs(x), abs(y), mpmath.mpf(scale))
