"""Explicit diffusion approximates the diffusion equations it claims to solve."""
import os
import random
import mpmath as mp
from ..integ import *
from .. import sym, ident

RULE = ("conduction, viscosity and resistivity are summarised as algebraic expressions that give the new energy, momentum, cell and face field of an active cell in terms of "
        "the state before. The reads are interpreted by smooth functions of position sampled on a grid of spacing h; the change per unit time must equal the right-hand side of the "
        "equation (div(d (kappa grad T + kappa_a b b.grad T)), div(stress), div(stress.v), -curl E, -div(E x B)) up to terms of second order in h. Every gate (limiter, floor) "
        "met is recorded; the cell updates must not touch any other variable.")
ASSUMPTIONS = ["uniform Cartesian grid", "two generic smooth states stand for all smooth states of their paths (algebraic functions that agree generically are identical)",
               "Hall drift (a predictor-corrector within the routine) and hyper-diffusion are not covered"]
FLOORS = {'diffusion': 60, 'unchanged': 60}
DPS = 110
H = mp.mpf(10) ** -6
E0 = mp.mpf(10) ** -22
DTV = mp.mpf(10) ** -40
TOL = mp.mpf(10) ** -8
NU = {'kappa_iso': 3, 'kappa_aniso': 5, 'nu_iso': 7, 'nu_aniso': 2}
CASES = [('conduction', dict(gas='hydro', conduction=1), ('kappa_iso',)),
         ('conduction', dict(gas='mhd', conduction=1), ('kappa_iso',)),
         ('conduction', dict(gas='mhd', conduction=1), ('kappa_aniso',)),
         ('conduction', dict(gas='mhd', conduction=1), ('kappa_iso', 'kappa_aniso')),
         ('viscosity', dict(gas='hydro', viscosity=1), ('nu_iso',)),
         ('viscosity', dict(gas='hydro', viscosity=1, eos='isothermal'), ('nu_iso',)),
         ('viscosity', dict(gas='mhd', viscosity=1), ('nu_iso',)),
         ('viscosity', dict(gas='mhd', viscosity=1), ('nu_aniso',)),
         ('viscosity', dict(gas='mhd', viscosity=1), ('nu_iso', 'nu_aniso')),
         ('resistivity', dict(gas='mhd', resistivity=1), ('eta_Ohm',)),
         ('resistivity', dict(gas='mhd', resistivity=1, eos='isothermal'), ('eta_Ohm',)),
         ('resistivity', dict(gas='mhd', resistivity=1), ('Q_AD',)),
         ('resistivity', dict(gas='mhd', resistivity=1), ('eta_Ohm', 'Q_AD'))]
ALL = {'conduction': ('kappa_iso', 'kappa_aniso'), 'viscosity': ('nu_iso', 'nu_aniso'), 'resistivity': ('eta_Ohm', 'Q_AD', 'Q_Hall')}
EDGE = ('is', 'ie', 'js', 'je', 'ks', 'ke')
ANISO = ('kappa_aniso', 'nu_aniso')


def tasks(tier):
    out = []
    for fn, kw, on in CASES:
        for d in (1, 2, 3):
            if d == 1 and any(x in ANISO for x in on):
                continue
            out.append(('%dD %s %s %s' % (d, fn, '+'.join(on), Config(**kw).name), ('run', fn, kw, on, d, 4 if tier == 'thorough' else 1)))
    return out


class Smooth:
    """generic smooth fields of the active coordinates"""

    def __init__(self, dims, seed):
        self.dims, self.rnd, self.c = dims, random.Random(seed), {}

    def coef(self, name):
        if name not in self.c:
            r = self.rnd
            # the order of creation must not matter
            r = random.Random('%s %s' % (name, self.rnd_seed))
            t = {}
            for a in range(3):
                for b in range(3):
                    for c in range(3):
                        if 0 < a + b + c <= 3 and (self.dims > 1 or b == 0) and (self.dims > 2 or c == 0):
                            t[a, b, c] = mp.mpf(r.choice((-1, 1)) * r.randint(11, 97)) / 100
            base = mp.mpf(r.choice((-1, 1)) * r.randint(60, 140)) / 100
            if name in ('d', 'P') or name.startswith('eta'):
                base = mp.mpf(r.randint(300, 500)) / 100
            self.c[name] = (base, t)
        return self.c[name]

    def __call__(self, name, x):
        base, t = self.coef(name)
        return base + sum(k * x[0] ** a * x[1] ** b * x[2] ** c for (a, b, c), k in t.items())


def state(dims, seed):
    s = Smooth(dims, seed)
    s.rnd_seed = seed
    return s


class Fields:
    def __init__(self, cfg, dims, seed):
        self.f = state(dims, seed)
        self.dims = dims
        self.mhd = cfg['gas'] == 'mhd'
        self.g1 = mp.mpf(2) / 3

    def v(self, i, x):
        return self.f('V%d' % i, x)

    def B(self, i, x):
        return self.f('B%d' % i, x) if self.mhd else mp.mpf(0)

    def T(self, x):
        return self.f('P', x) / self.f('d', x)

    def cons(self, n, x):
        if n == 'd':
            return self.f('d', x)
        if n in ('M1', 'M2', 'M3'):
            return self.f('d', x) * self.v(int(n[1]) - 1, x)
        if n in ('B1c', 'B2c', 'B3c'):
            return self.B(int(n[1]) - 1, x)
        if n == 'E':
            return self.f('P', x) / self.g1 + sum(self.f('d', x) * self.v(i, x) ** 2 + self.B(i, x) ** 2 for i in range(3)) / 2
        return None

    def D(self, g, a, x, e=E0):
        """derivative of g along axis a"""
        if a >= self.dims:
            return mp.mpf(0)
        p, q = list(x), list(x)
        p[a] += e
        q[a] -= e
        return (g(p) - g(q)) / (2 * e)

    def div(self, F, x):
        """divergence of the vector function F(axis, x)"""
        return sum(self.D(lambda y: F(a, y), a, x, E0 * 10) for a in range(self.dims))

    def bhat(self, x):
        b = [self.B(i, x) for i in range(3)]
        n = mp.sqrt(sum(c * c for c in b))
        return [c / n for c in b]

    def J(self, x):
        d = lambda i, a: self.D(lambda y: self.B(i, y), a, x)
        return [d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)]

    # ------------------------------------------------ right-hand sides
    def heat(self, on, axis, x):
        g = [self.D(self.T, a, x) for a in range(3)]
        q = mp.mpf(0)
        if 'kappa_iso' in on:
            q += NU['kappa_iso'] * g[axis]
        if 'kappa_aniso' in on:
            b = self.bh(x)
            q += NU['kappa_aniso'] * b[axis] * sum(p * r for p, r in zip(b, g))
        return self.f('d', x) * q

    def bh(self, x):
        return self.bhat(x)

    def stress(self, on, i, j, x):
        dv = [[self.D(lambda y: self.v(p, y), a, x) for a in range(3)] for p in range(3)]
        dd = dv[0][0] + dv[1][1] + dv[2][2]
        s = mp.mpf(0)
        if 'nu_iso' in on:
            s += NU['nu_iso'] * (dv[i][j] + dv[j][i] - (mp.mpf(2) / 3 * dd if i == j else 0))
        if 'nu_aniso' in on:
            b = self.bhat(x)
            bb = sum(b[p] * b[q] * dv[p][q] for p in range(3) for q in range(3))
            s += NU['nu_aniso'] * (3 * bb - dd) * (b[i] * b[j] - (mp.mpf(1) / 3 if i == j else 0))
        return self.f('d', x) * s

    def efield(self, on, x):
        j = self.J(x)
        e = [mp.mpf(0)] * 3
        if 'eta_Ohm' in on:
            e = [a + self.f('eta_Ohm', x) * b for a, b in zip(e, j)]
        if 'Q_AD' in on:
            b = self.bhat(x)
            jb = sum(p * q for p, q in zip(j, b))
            e = [a + self.f('eta_AD', x) * (p - jb * q) for a, p, q in zip(e, j, b)]
        return e

    def rhs(self, fn, on, n, x):
        if fn == 'conduction':
            return self.div(lambda a, y: self.heat(on, a, y), x) if n == 'E' else 0
        if fn == 'viscosity':
            if n[0] == 'M':
                i = int(n[1]) - 1
                return self.div(lambda a, y: self.stress(on, i, a, y), x)
            if n == 'E':
                return self.div(lambda a, y: sum(self.stress(on, i, a, y) * self.v(i, y) for i in range(3)), x)
            return 0
        if n[0] == 'B':
            i = int(n[1]) - 1
            p, q = (i + 1) % 3, (i + 2) % 3
            e = E0 * 10
            return -(self.D(lambda y: self.efield(on, y)[q], p, x, e) - self.D(lambda y: self.efield(on, y)[p], q, x, e))
        if n == 'E':
            def S_(a, y):
                E = self.efield(on, y)
                p, q = (a + 1) % 3, (a + 2) % 3
                return E[p] * self.B(q, y) - E[q] * self.B(p, y)
            return -self.div(S_, x)
        return 0


def run(rec, fn, kw, on, dims, count):
    cfg = Config(**kw)
    prog = Program(cfg)
    v = {path('#0', 0, 'Nx', q): P(16 if q < dims else 1) for q in range(3)}
    v.update({path(*(R + ('Nx', q))): P(16 if q < dims else 1) for q in range(3)})
    v.update({(n, ()): P(NU.get(n, 1)) if n in on else ZERO for n in ALL[fn]})
    it = Interp(prog, opaque=['ath_error'], effects={}, assume=grid_facts(dims, R), values=v)
    it.run(fn, None)
    rec.fn(fn)
    rec.add_stats(it)
    u, _ = prog.need(fn)
    where = '%s:%s' % (u.rel, fn)
    idx, facts = cell(dims)
    for f in facts:
        it.add_fact(f)
    vals = {}
    for f in cons_fields(cfg):
        vals[f] = it.load(gp('U', idx[2], idx[1], idx[0], *f), DBL)
    if cfg['gas'] == 'mhd':
        for a in range(3):
            vals[('face', a)] = it.load(gp('B%di' % (a + 1), idx[2], idx[1], idx[0]), DBL)
    cover = ident.Cover(vals.values())
    with mp.workdps(DPS):
        for n in range(count):
            for pos in range(3):
                one(rec, fn, on, cfg, dims, vals, idx, where, int(os.environ.get('VERIF_SEED', '1')) * 1000 + n, cover, pos)
    rec.ok('paths', '%d paths' % len(cover.paths))


def one(rec, fn, on, cfg, dims, vals, idx, where, seed, cover, pos):
    """pos: 0 the first cell of the grid, 1 an inner cell, 2 the last one"""
    F = Fields(cfg, dims, seed)
    dx = [H * 3, H * 2, H * 5]

    def point(ix, half=None):
        """position of an index triple (k, j, i)"""
        x = []
        for a, p in enumerate(reversed(ix)):
            c = mp.mpf(int(mp.nint(st.poly(P(p)) - st.poly(P(idx[a])))))
            if a >= dims:
                if c != 0:
                    raise sym._CantEval('a neighbour in an inactive direction')
                x.append(mp.mpf(0))
            else:
                x.append(dx[a] * (c - (mp.mpf(1) / 2 if half == a else 0)))
        return x

    def named(a):
        if a.kind in ('sym', 'lv') and a.args[0] in ('i', 'j', 'k'):
            return mp.mpf(0)
        if a.kind == 'sym':
            return {'Gamma_1': F.g1, 'Gamma': F.g1 + 1}.get(a.args[0])
        if a.kind != 'ld':
            return None
        root, els = a.args[0]
        if not els:
            return {'Gamma_1': F.g1, 'Gamma': F.g1 + 1}.get(root)
        pre = path(*R)
        if root != '#0' or els[:len(pre[1])] != pre[1]:
            return None
        els = els[len(pre[1]):]
        nm = els[0][1] if els and els[0][0] == 'f' else None
        if nm == 'dt' and len(els) == 1:
            return DTV
        if nm in EDGE and len(els) == 1:
            return mp.mpf(0) if 'ijk'.index(nm[0]) >= dims or (nm[1] == 's') == (pos == 0) and pos != 1 else mp.mpf(-8 if nm[1] == 's' else 8)
        if nm in ('dx1', 'dx2', 'dx3') and len(els) == 1:
            return dx[int(nm[2]) - 1]
        if len(els) < 4 or any(e[0] != 'i' for e in els[1:4]):
            return None
        ix = [e[1] for e in els[1:4]]
        if nm == 'U':
            return F.cons(els[4][1], point(ix))
        if nm in ('B1i', 'B2i', 'B3i'):
            q = int(nm[1]) - 1
            return F.B(q, point(ix, q))
        if nm in ('eta_Ohm', 'eta_AD'):
            return F.f(nm, point(ix))
        return None

    def forbid(a):
        if a.kind in ('ld', 'unk', 'lout', 'call', 'red', 'in'):
            return 'uninterpreted '
        return None
    st = ident.State(named, seed, forbid)
    for key, val in vals.items():
        old2 = None
        if key[0] == 'face':
            a = key[1]
            name, x, old = 'B%d' % (a + 1), point(list(reversed(idx)), a), F.B(a, point(list(reversed(idx)), a))
            label = 'face field B%di' % (a + 1)
        else:
            name = key[0]
            x = point(list(reversed(idx)))
            old = F.cons(name, x)
            label = key[0]
            if old is None:
                continue
            a = int(name[1]) - 1 if name[0] == 'B' else 3
            if fn == 'resistivity' and a < dims:
                # the cell field is defined as the mean of the two faces
                lo, hi = list(x), list(x)
                lo[a] -= dx[a] / 2
                hi[a] += dx[a] / 2
                old2 = (F.B(a, lo) + F.B(a, hi)) / 2
        try:
            new = st.poly(val)
        except (sym._CantEval, ZeroDivisionError) as e:
            rec.undecided('diffusion', where, '%s: %s' % (label, e))
            continue
        if old2 is not None and abs(new - old2) < abs(new - old):
            old = old2
        got = (new - old) / DTV
        want = F.rhs(fn, on, name, x)
        rule = 'diffusion'
        if want == 0:
            rec.expect(abs(got) < TOL, 'unchanged', where, '%s changes %s' % (fn, label), key='unchanged|%s|%s' % (fn, label))
            continue
        err = abs(got - want) / max(abs(want), mp.mpf(1))
        if err <= TOL:
            rec.ok(rule)
            continue
        kind = 'is only first-order accurate' if err < mp.mpf(10) ** -4 else 'does not approximate the equation'
        rec.bad(rule, where, '%s (%s, %dD): the change of %s %s: rate %s instead of %s in a smooth state' % (
            fn, '+'.join(on), dims, label, kind, mp.nstr(got, 8), mp.nstr(want, 8)), key='%s|%s|%s' % (rule, fn, label))
    cover.add(st)
