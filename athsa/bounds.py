"""Lower and upper bounds of values accumulated by MIN/MAX over loops.

lower(p) lists terms t(x) with guard g(x) and binders x in [lo,hi] such that
p >= t(x) whenever g(x), for every x in range; upper(p) likewise for p <= t(x).
The accumulators may be carried through several nested loops and feed each
other; a carried value counts only if no iteration can lower (raise) it."""
from . import sym
from .sym import P, atom, c_and, c_or, c_not, subst


class Term:
    __slots__ = ('v', 'g', 'b')

    def __init__(self, v, g=True, b=()):
        self.v, self.g, self.b = v, g, b

    def scale(self, f):
        return Term(self.v * f, self.g, self.b)


REDUCIBLE = {'max', 'min', 'red', 'lout', 'ite', 'fn'}


class Bounds:
    def __init__(self, it, passthrough=('all-min', 'all-max')):
        self.it = it
        self.n = 0
        self.memo = {}
        self.byloop = {}
        for a, (base, out, lid, k) in it.loopinfo.items():
            self.byloop[(lid, k)] = (a, base, out)

    def of(self, p, up):
        """terms bounding p from above (up) or below"""
        key = (p, up)
        if key not in self.memo:
            self.memo[key] = self._of(p, up)
        return self.memo[key]

    def _of(self, p, up):
        out = [Term(p)]
        # a sum: try each monomial that contains something accumulated
        for m, c in list(p.t.items()):
            for aid, e in m:
                a = sym.atom_by_id(aid)
                if a.kind not in REDUCIBLE and not (a.kind == 'inv'):
                    continue
                if abs(e) != 1:
                    continue
                rest = tuple((x, y) for x, y in m if x != aid)
                f = sym.Poly({rest: c})
                other = p - sym.Poly({m: c})
                pol = up if c > 0 else not up
                if e == 1:
                    for t in self.atom(a, pol):
                        out.append(Term(t.v * f + other, t.g, t.b))
                else:
                    for t in self.atom(a, not pol):
                        out.append(Term(sym.div(f, t.v) + other, t.g, t.b))
        return out

    def atom(self, a, up):
        k = a.kind
        if k == 'inv':
            return [Term(sym.inv(t.v), t.g, t.b) for t in self.of(a.args[0], not up) if t.v != a.args[0]]
        if k in ('max', 'min'):
            if (k == 'min') != up:
                return []
            return [t for x in a.args[0] for t in self.of(x, up)]
        if k == 'ite':
            c, x, y = a.args
            # x bounds the merge where it is chosen, and also where the other one is even tighter
            d = x - y if up else y - x
            return [Term(t.v, c_and(self.widen(c, d), t.g), t.b) for t in self.of(x, up)] + \
                   [Term(t.v, c_and(self.widen(c_not(c), -d), t.g), t.b) for t in self.of(y, up)]
        if k == 'fn':
            if a.args[0] == ('all-min' if up else 'all-max'):
                return self.of(a.args[1], up)
            return []
        if k == 'red':
            op, bv, lo, hi, g = a.args
            if op != ('min' if up else 'max'):
                return []
            self.n += 1
            v = atom('lv', 'b#%d' % self.n)
            m = {bv.single_atom(): P(v)}
            return [Term(subst(t.v, m), self.csub(t.g, m), ((v, lo, hi),) + tuple((x, subst(l, m), subst(h, m)) for x, l, h in t.b))
                    for t in self.of(g, up)]
        if k == 'lout':
            ent = self.byloop.get((a.args[0], a.args[1]))
            meta = self.it.loopmeta.get(a.args[0])
            if ent is None or meta is None or meta[3] or meta[0] is None:
                return []
            ina, base, o = ent
            lv, lo, hi, _ = meta
            ts = self.of(o, up)
            # monotone: the carried value itself bounds the next one in every branch
            if not self.covers([t.g for t in ts if t.v == P(ina) and not t.b]):
                return []
            return self.of(base, up) + [Term(t.v, t.g, ((lv, lo, hi),) + t.b) for t in ts if ina.id not in t.v.deps]
        return []

    def csub(self, c, m):
        if c is True or c is False:
            return c
        a = sym.ite(c, P(1), P(0))
        s = subst(a, m)
        if s.is_const():
            return s.const() == 1
        x = s.single_atom()
        if x is None or x.kind != 'ite':
            # 1 - ite(...)
            y = (P(1) - s).single_atom()
            if y is not None and y.kind == 'ite' and y.args[1] == P(1) and y.args[2] == P(0):
                return c_not(y.args[0])
            raise ValueError(sym.show(s))
        if x.args[1] == P(1) and x.args[2] == P(0):
            return x.args[0]
        if x.args[1] == P(0) and x.args[2] == P(1):
            return c_not(x.args[0])
        raise ValueError(sym.show(s))

    def widen(self, c, d):
        """c, or c or -d <= 0 where c speaks of the sign of d"""
        ls = set(sym.c_lits(c))
        for z in (sym.c_le0(-d), sym.c_le0(d)):
            if z is not True and z is not False and any(l in ls for l in sym.c_lits(z)):
                r = sym.c_or(c, sym.c_le0(-d))
                return True if len(sym.c_lits(r)) <= 6 and sym.c_equiv(r, True) else r
        return c

    def covers(self, gs):
        if any(g is True for g in gs):
            return True
        if not gs:
            return False
        return sym.c_equiv(sym.c_or(*gs), True)
