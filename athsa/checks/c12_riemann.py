"""Riemann solvers: consistency, mirror and rotational symmetry, upwinding."""
import re
import random
import os
from ..integ import *
from .. import sym, ident
from ..sym import Fraction

RULE = ("fluxes is summarised for each solver and configuration as gated algebraic expressions of the left and right states. On every "
        "enumerated path through its gates (branch, MAX, MIN, absolute value) the expressions are normalised and must (a) equal the "
        "analytic flux when both states agree, (b) turn into themselves (with the parity of the component) under reflection of the "
        "interface, under exchange of the two transverse axes and under reflection of a transverse axis, (c) equal the analytic flux "
        "of the upwind state when every signal moves one way, and (d) carry passive scalars with the mass flux from the upwind side.")
ASSUMPTIONS = ["conserved and primitive arguments describe the same states", "states with a wave speed of exactly zero are not considered",
               "densities, pressures, Gamma and sound speeds are positive; Gamma_1 = Gamma-1"]
FLOORS = {'consistent': 20, 'mirror': 20}

CFG = [dict(gas='hydro', flux=f) for f in ('roe', 'hlle', 'hllc', 'force')] + \
      [dict(gas='hydro', eos='isothermal', flux=f) for f in ('roe', 'hlle', 'hllc', 'force', 'two-shock')] + \
      [dict(gas='mhd', eos=e, flux=f) for e in ('adiabatic', 'isothermal') for f in ('roe', 'hlle', 'hlld', 'force')] + \
      [dict(gas='hydro', coord='cylindrical', flux=f) for f in ('roe', 'hlle', 'hllc')] + \
      [dict(gas='mhd', coord='cylindrical', flux=f) for f in ('roe', 'hlle', 'hlld')]
SR = [dict(gas='hydro', special_relativity=1, flux='hllc')] + [dict(gas='mhd', special_relativity=1, flux=f) for f in ('hlle', 'hllc')]
EVEN = ('Mx', 'Pflux')


def tasks(tier):
    out = []
    for kw in CFG:
        kw = dict(kw, nscalars=1)
        out.append((Config(**kw).name, ('run', kw, 60 if tier == 'thorough' else 12)))
    for kw in SR:       # (hlle_sr.c does not compile without magnetic fields)
        out.append((Config(**kw).name, ('run', kw, 60 if tier == 'thorough' else 6)))
    return out


L, R = '#2', '#3'


class Model:
    def __init__(self, cfg):
        self.cfg = cfg
        self.mhd = cfg['gas'] == 'mhd'
        self.iso = cfg['eos'] == 'isothermal'
        self.ns = int(cfg['nscalars'])
        self.cyl = cfg['coord'] == 'cylindrical'
        self.sr = 'special-relativity' in cfg.flags
        self.bx = S('#4')

    def w(self, r, f):
        return ld(r, *f) if isinstance(f, tuple) else ld(r, f)

    def prims(self):
        out = ['d', 'Vx', 'Vy', 'Vz']
        if not self.iso:
            out.append('P')
        if self.mhd:
            out += ['By', 'Bz']
        return out + [('r', n) for n in range(self.ns)]

    def comps(self):
        out = ['d', 'Mx', 'My', 'Mz']
        if not self.iso:
            out.append('E')
        if self.mhd:
            out += ['By', 'Bz']
        if self.cyl:
            out += ['Pflux']
        return out + [('s', n) for n in range(self.ns)]

    def cons(self, q, st):
        bx = st['bx']
        if self.sr:
            return self.sr_cons(q, st)
        u = {'d': q['d'], 'Mx': q['d'] * q['Vx'], 'My': q['d'] * q['Vy'], 'Mz': q['d'] * q['Vz']}
        if not self.iso:
            u['E'] = q['P'] / (st['Gamma'] - 1) + q['d'] * (q['Vx'] ** 2 + q['Vy'] ** 2 + q['Vz'] ** 2) / 2
            if self.mhd:
                u['E'] += (bx ** 2 + q['By'] ** 2 + q['Bz'] ** 2) / 2
        if self.mhd:
            u['By'], u['Bz'] = q['By'], q['Bz']
        for n in range(self.ns):
            u[('s', n)] = q['d'] * q[('r', n)]
        return u

    def sr_parts(self, q, st):
        v = [q['Vx'], q['Vy'], q['Vz']]
        b = [st['bx'], q['By'], q['Bz']] if self.mhd else [Fraction(0)] * 3
        v2, b2, vb = sum(x * x for x in v), sum(x * x for x in b), sum(x * y for x, y in zip(v, b))
        g2 = 1 / (1 - v2)
        w = (q['d'] + st['Gamma'] / (st['Gamma'] - 1) * q['P']) * g2
        g = q.get('lorentz') or ident.mpmath.sqrt(ident.mpmath.mpf(g2.numerator) / g2.denominator)
        return v, b, v2, b2, vb, g2, w, g

    def sr_cons(self, q, st):
        v, b, v2, b2, vb, g2, w, g = self.sr_parts(q, st)
        u = {'d': q['d'] * g, 'E': w - q['P'] + (1 + v2) * b2 / 2 - vb * vb / 2}
        for i, c in enumerate(('Mx', 'My', 'Mz')):
            u[c] = (w + b2) * v[i] - vb * b[i]
        if self.mhd:
            u['By'], u['Bz'] = q['By'], q['Bz']
        return u

    def sr_flux(self, q, st):
        v, b, v2, b2, vb, g2, w, g = self.sr_parts(q, st)
        u = self.sr_cons(q, st)
        pt = q['P'] + (b2 / g2 + vb * vb) / 2
        f = {'d': u['d'] * v[0], 'E': u['Mx']}
        # T^{xi} = S_i v_x + p_t delta - B_x b_i / gamma,  b_i / gamma = B_i / gamma^2 + (v.B) v_i
        for i, c in enumerate(('Mx', 'My', 'Mz')):
            f[c] = u[c] * v[0] - b[0] * (b[i] / g2 + vb * v[i]) + (pt if i == 0 else 0)
        if self.mhd:
            f['By'] = q['By'] * v[0] - b[0] * v[1]
            f['Bz'] = q['Bz'] * v[0] - b[0] * v[2]
        return f

    def flux(self, q, st):
        bx = st['bx']
        if self.sr:
            return self.sr_flux(q, st)
        u = self.cons(q, st)
        vx = q['Vx']
        p = q['d'] * st['cs'] ** 2 if self.iso else q['P']
        f = {'d': q['d'] * vx, 'Mx': u['Mx'] * vx + p, 'My': u['My'] * vx, 'Mz': u['Mz'] * vx}
        if not self.iso:
            f['E'] = (u['E'] + p) * vx
        if self.mhd:
            pb = (bx ** 2 + q['By'] ** 2 + q['Bz'] ** 2) / 2
            f['Mx'] += pb - bx ** 2
            f['My'] -= bx * q['By']
            f['Mz'] -= bx * q['Bz']
            f['By'] = q['By'] * vx - bx * q['Vy']
            f['Bz'] = q['Bz'] * vx - bx * q['Vz']
            if not self.iso:
                p += pb
                f['E'] += pb * vx - bx * (bx * vx + q['By'] * q['Vy'] + q['Bz'] * q['Vz'])
        if self.cyl:
            f['Pflux'] = p
        for n in range(self.ns):
            f[('s', n)] = f['d'] * q[('r', n)]
        return f


def reads(m, st):
    """interpretation of the arguments of fluxes in a state {'L': {...}, 'R': {...}, 'bx': x, 'Gamma': g, 'cs': c}"""
    val = {}
    for side, w, u in (('L', L, '#0'), ('R', R, '#1')):
        q = st[side]
        for f in m.prims():
            val[key(m.w(w, f))] = q[f]
        for f, e in m.cons(q, st).items():
            val[key(m.w(u, f))] = e
    g, c = st['Gamma'], st['cs']
    val.update({key(ld('Gamma')): g, key(ld('Gamma_1')): g - 1, key(ld('Gamma_2')): g - 2, key(ld('Iso_csound')): c, key(ld('Iso_csound2')): c * c,
                key(ld('d_MIN')): Fraction(1, 10 ** 9), key(S('#4')): st['bx'], key(ld('etah')): st['etah']})
    return ident.State(lambda a: val.get(a.id), forbid=stray)


def stray(a):
    r = a.args[0][0] if a.kind == 'ld' else ''
    if a.kind in ('unk', 'in', 'lout', 'red', 'call', 'wild'):
        return 'not resolved: '
    return 'depends on ' if isinstance(r, str) and r and r[0] in '$%#' else None


def key(p):
    return p.single_atom().id


def draw(m, what, rnd):
    q = lambda a, b: Fraction(rnd.randint(int(a * 9973), int(b * 9973)), 9973)
    st = {'Gamma': q(1.05, 1.95 if m.sr else 2.6), 'cs': q(0.4, 1.6), 'bx': q(-1.4, 1.4) if what != 'perp' and m.mhd else Fraction(0)}
    st['etah'] = q(0.1, 0.6) if rnd.random() < 0.25 else Fraction(0)
    mach = rnd.choice([0.1, 0.4, 1, 2.5])
    jump = rnd.choice([1, 1, 0.05, 0.4]) if what != 'sonic' else 0.05
    big = rnd.choice([1, 1, 0.1, 5])
    base = None
    for side in 'LR':
        w = {}
        for f in m.prims():
            if f in ('d', 'P'):
                w[f] = q(0.2, 2.5) if not (m.sr and f == 'P') else q(0.02, 0.6)
            elif f in ('By', 'Bz'):
                w[f] = q(-1.5, 1.5) * Fraction(big) if what != 'aligned' else Fraction(0)
            elif isinstance(f, tuple):
                w[f] = q(0.1, 0.9)
            elif f == 'Vx':
                w[f] = q(-1, 1) * Fraction(mach)
                if what in ('right', 'left'):
                    w[f] = q(40, 60) * (1 if what == 'right' else -1)
                elif what == 'apart':
                    w[f] = q(2, 9) * (1 if side == 'R' else -1)
                elif what == 'together':
                    w[f] = q(2, 9) * (1 if side == 'L' else -1)
            else:
                w[f] = q(-1.2, 1.2)
        if base is not None and what not in ('right', 'left', 'apart', 'together', 'switch'):
            w = {f: base[f] + (w[f] - base[f]) * Fraction(jump) for f in w}
        if m.sr:
            for f in ('Vx', 'Vy', 'Vz'):
                w[f] = w[f] / 4 if abs(w[f]) < 2 else Fraction(9, 20) * (1 if w[f] > 0 else -1) + q(-0.1, 0.1)
            if what in ('right', 'left'):
                w['Vx'] = q(0.985, 0.995) * (1 if what == 'right' else -1)
                w['Vy'], w['Vz'] = w['Vy'] / 20, w['Vz'] / 20
        base = w
        st[side] = w
    if what == 'switch':
        # field along the normal, Alfven speed above the sound speed, shear only
        st['bx'] = q(1.5, 3) * rnd.choice([1, -1])
        for f in m.prims():
            st['L'][f] = Fraction(0) if f in ('By', 'Bz') else q(0.2, 0.9) if f in ('d', 'P') else st['L'][f]
            if not isinstance(f, tuple) and f not in ('Vy', 'Vz'):
                st['R'][f] = st['L'][f]
    if what == 'sonic':
        # a signal speed close to zero
        for side in 'LR':
            w = st[side]
            a = float(st['cs']) ** 2 if m.iso else float(st['Gamma'] * w['P'] / w['d'])
            b, bt = (float(st['bx'] ** 2 / w['d']), float((w['By'] ** 2 + w['Bz'] ** 2) / w['d'])) if m.mhd else (0, 0)
            if side == 'L':
                c = Fraction((0.5 * (a + b + bt + ((a + b + bt) ** 2 - 4 * a * b) ** 0.5)) ** 0.5).limit_denominator(9973) * rnd.choice([1, -1])
            w['Vx'] = c + q(-0.12, 0.12)
    return st


def subluminal(W, rnd):
    """velocities scaled so that the Lorentz factor is rational"""
    v = [float(W[f]) for f in ('Vx', 'Vy', 'Vz')]
    n = sum(x * x for x in v) ** 0.5 or 1.0
    # speed 2t/(1+t^2) with rational t has the Lorentz factor (1+t^2)/(1-t^2); direction from two rational half-angle parameters
    t = Fraction(rnd.choice([rnd.randint(200, 8000), rnd.randint(8000, 9950)]), 9973)
    sp = 2 * t / (1 + t * t)
    a, b = Fraction(rnd.randint(-30000, 30000), 9973), Fraction(rnd.randint(-30000, 30000), 9973)
    d = 1 + a * a + b * b
    return dict(W, Vx=sp * (d - 2) / d, Vy=sp * 2 * a / d, Vz=sp * 2 * b / d)


def equal(st):
    return dict(st, R=st['L'])


def mirror(m, st):
    flip = lambda w: {f: -v if f == 'Vx' else v for f, v in w.items()}
    return dict(st, L=flip(st['R']), R=flip(st['L']), bx=-st['bx'])


def swapped(m, st):
    def ex(w):
        w = dict(w)
        w['Vy'], w['Vz'] = w['Vz'], w['Vy']
        if m.mhd:
            w['By'], w['Bz'] = w['Bz'], w['By']
        return w
    return dict(st, L=ex(st['L']), R=ex(st['R']))


def flipped(m, st):
    flip = lambda w: {f: -v if f in ('Vy', 'By') else v for f, v in w.items()}
    return dict(st, L=flip(st['L']), R=flip(st['R']))


SWAP = {'My': 'Mz', 'Mz': 'My', 'By': 'Bz', 'Bz': 'By'}


def run(rec, kw, n):
    cfg = Config(**kw)
    prog = Program(cfg)
    quiet = ['ath_error', 'ath_perr', 'ath_pout']
    it = Interp(prog, opaque=quiet, effects={q: [] for q in quiet})
    it.box = 6
    it.run('fluxes', None)
    u, _ = prog.need('fluxes')
    where = u.rel
    rec.fn(where + ': fluxes')
    rec.add_stats(it)
    m = Model(cfg)
    F = {}
    for c in m.comps():
        p = path('#5', 0, *c) if isinstance(c, tuple) else path('#5', 0, c)
        v = it.load(p, DBL)
        F[c] = v
    cover = ident.Cover(F.values())
    T = Tally(rec, where, m)
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    kinds = ['generic', 'generic', 'apart', 'together', 'sonic', 'sonic', 'sonic'][:4 if m.sr else 7] + (['aligned', 'perp', 'switch'][:2 if m.sr else 3] if m.mhd else [])
    with ident.mpmath.workdps(ident.DPS):
        def at(st):
            v = reads(m, st)
            try:
                r = {c: v.poly(F[c]) for c in F}
            except sym._CantEval as e:
                return e.args[0] if e.args else None
            cover.add(v)
            return r
        num = lambda e: {c: ident.mpmath.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else x for c, x in e.items()}
        for i in range(n):
            for kind in kinds + ['right', 'left']:
                st = draw(m, kind, rnd)
                f = at(st)
                T.all('consistent', at(equal(st)), num(m.flux(st['L'], st)), st, 'with equal states on both sides %s is the analytic flux')
                if f is None or isinstance(f, str):
                    T.all('mirror', f, None, st, '')
                    continue
                g = at(mirror(m, st))
                T.all('mirror', g if not isinstance(g, dict) else {c: x if c in EVEN else -x for c, x in g.items()}, f, st, 'reflecting the interface reflects %s')
                g = at(swapped(m, st))
                T.all('transverse', g if not isinstance(g, dict) else {c: g[SWAP.get(c, c)] for c in g}, f, st, 'exchanging the transverse axes exchanges their components and leaves the rest: %s')
                g = at(flipped(m, st))
                T.all('transverse', g if not isinstance(g, dict) else {c: -x if c in ('My', 'By') else x for c, x in g.items()}, f, st, 'reflecting a transverse axis reflects %s')
                if kind in ('right', 'left'):
                    side = 'L' if kind == 'right' else 'R'
                    T.all('upwind', f, num(m.flux(st[side], st)), st, '%s is that of the upwind state when every signal moves one way')
                if cfg['flux'] in CONTACT and not st['etah']:
                    ct = contact(m, st)
                    side = 'L' if ct['L']['Vx'] > 0 else 'R'
                    T.all('contact', at(ct), num(m.flux(ct[side], ct)), ct, '%s across an isolated contact or shear discontinuity is that of the upwind state')
                if cfg['flux'] == 'hlld' and st['bx'] and not st['etah']:
                    for sg in (1, -1):
                        al, right = rotation(m, st, sg, rnd)
                        side = 'L' if right else 'R'
                        T.all('contact', at(al), num(m.flux(al[side], al)), al, '%s across an isolated rotational discontinuity is that of the upwind state')
                one = [x for x in 'LR' if all(ident.same(f[c], y, 1) for c, y in num(m.flux(st[x], st)).items() if isinstance(c, str))]
                side = one[0] if one else 'L' if f['d'] >= 0 else 'R'
                for c in [c for c in f if isinstance(c, tuple)]:
                    T.all('scalar', {c: f[c]}, {c: f['d'] * num({0: st[side][('r', c[1])]})[0]}, st, '%s is the mass flux times the concentration of the state the mass comes from')
    T.flush(cover)


CONTACT = ('roe', 'hllc', 'hlld', 'two-shock')


def contact(m, st):
    l, r = st['L'], dict(st['R'])
    for f in m.prims():
        if f in ('Vx', 'P', 'By', 'Bz') or f == 'd' and m.iso or f in ('Vy', 'Vz') and m.mhd:
            r[f] = l[f]
    return dict(st, R=r)


def rotation(m, st, sg, rnd):
    """the transverse field turns across a wave moving with the Alfven speed; and does it move to the right?"""
    root = Fraction(rnd.randint(5000, 15000), 9973)
    l = dict(st['L'], d=root ** 2)
    t = Fraction(rnd.randint(-20000, 20000), 9973)
    c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    r = dict(l, By=c * l['By'] - s * l['Bz'], Bz=s * l['By'] + c * l['Bz'])
    for v, b in (('Vy', 'By'), ('Vz', 'Bz')):
        r[v] = l[v] - sg * (r[b] - l[b]) / root
    return dict(st, L=l, R=r), l['Vx'] + sg * st['bx'] / root > 0


class Tally:
    def __init__(self, rec, where, m):
        self.rec, self.where, self.m = rec, where, m
        self.n, self.bad, self.skipped = {}, {}, {}
        self.tol = ident.TOL
        self.name = lambda c: 'component %s of the flux' % (c if isinstance(c, str) else '%s[%d]' % c,)

    def skip(self, rule, kind):
        self.skipped[rule] = self.skipped.get(rule, 0) + 1

    def all(self, rule, got, want, st, text):
        if isinstance(got, str) and got.startswith('not resolved'):
            return self.skip(rule, '')
        if isinstance(got, str):
            k = ('assigned' if got.startswith('depends on') else 'finite', '%s: ' + got.replace('%', ''), '')
            self.n[k] = self.n.get(k, 0) + 1
            self.bad.setdefault(k, (st, ident.mpmath.nan, ident.mpmath.mpf(0)))
            return
        if got is None or want is None:
            return self.skip(rule, '')
        scale = max(abs(x) for x in want.values())
        for c in want:
            k = (rule, text, c)
            self.n[k] = self.n.get(k, 0) + 1
            if not ident.same(got[c], want[c], scale, self.tol) and k not in self.bad:
                self.bad[k] = (st, got[c], want[c])

    def merge(self, key):
        n, bad = {}, {}
        for k, c in self.n.items():
            n[key(k)] = n.get(key(k), 0) + c
        for k, c in self.bad.items():
            bad.setdefault(key(k), c)
        self.n, self.bad = n, bad

    def flush(self, cover):
        rec, where = self.rec, self.where
        for k, n in self.n.items():
            rule, text, c = k
            t = text % self.name(c)
            if k in self.bad:
                st, a, b = self.bad[k]
                rec.bad(rule, where, 'NOT: %s; %s instead of %s in the state %s' % (t, ident.mpmath.nstr(a, 8), ident.mpmath.nstr(b, 8), brief(st)))
            else:
                rec.ok(rule, '%s: %s (%d states%s)' % (where, t, n, ', %d paths, %d of %d gate sides' % (len(cover.paths), cover.sides() - len(cover.missing()), cover.sides()) if cover else ''))
        for r, n in self.skipped.items():
            if n > 8:
                rec.undecided(r, where, '%d states cannot be evaluated' % n)


def brief(st):
    b = lambda w: ' '.join('%s=%.4g' % (f if isinstance(f, str) else f[0], float(v)) for f, v in w.items())
    return 'L: %s; R: %s; Bx=%.4g Gamma=%.4g cs=%.4g' % (b(st['L']), b(st['R']), float(st['bx']), float(st['Gamma']), float(st['cs']))

