"""Spatial reconstruction of the interface states."""
import random
import os
from ..integ import *
from .. import sym, ident
from ..sym import Fraction
from . import c12_riemann as rs
from .c25_eigen import prim_matrix

RULE = ("lr_states is summarised for each scheme and configuration (index range il..iu of four cells) as gated algebraic expressions of the cell values. "
        "On every path reached by the enumerated states the interface states must be the cell value for uniform data and next to a local extremum "
        "(in every variable), the linear profile traced back along the characteristics for linear data, reflect with the data, exchange and reflect "
        "with the transverse axes, and shift with the data (first, inner and last interface alike); no cell outside the documented range is read.")
ASSUMPTIONS = ["density, pressure, Gamma-1 and sound speed are positive", "a range of four cells stands for every range (shift rule)",
               "linear rule: Cartesian coordinates, |lambda| dt/dx < 1"]
FLOORS = {'uniform': 20, 'mirror': 20, 'linear': 16}

IL, IU = 4, 7
CELLS = range(IL - 3, IU + 4)


def tasks(tier):
    n = 12 if tier == "thorough" else 1
    out = []
    for gas, eos in (('hydro', 'adiabatic'), ('hydro', 'isothermal'), ('mhd', 'adiabatic'), ('mhd', 'isothermal')):
        for order in ('1', '2', '2p', '3', '3p', '3pck', '3pcl'):
            ints = [('ctu', 'roe'), ('ctu', 'hlle'), ('vl', 'roe')]
            if order in ('1', '3pck', '3pcl'):
                ints = ints[2:]
            elif order in ('2', '3'):
                ints = ints[:2]
            for integ, flux in ints:
                kw = dict(gas=gas, eos=eos, order=order, integrator=integ, flux=flux, nscalars=1)
                out.append((Config(**kw).name, ('run', kw, 1, n)))
    for gas in ('hydro', 'mhd'):
        for order in ('2', '3'):
            for flux in ('roe', 'hlle'):
                for d in (1, 2):
                    kw = dict(gas=gas, order=order, integrator='ctu', flux=flux, nscalars=1, coord='cylindrical')
                    out.append((Config(**kw).name + ',dir=%d' % d, ('run', kw, d, n)))
    return out


def width(order):
    return 3 if order in ('3', '3p') else 2


def run(rec, kw, direction, count):
    cfg = Config(**kw)
    prog = Program(cfg)
    it = Interp(prog, opaque=['ath_error'], effects={'ath_error': []})
    it.box, it.unroll = 6, 60
    it.run('lr_states', None, args=[None] * 5 + [P(IL), P(IU), None, None, P(direction)])
    u, _ = prog.need('lr_states')
    where = u.rel
    rec.fn(where + ': lr_states')
    rec.add_stats(it)
    m = rs.Model(cfg)
    m.cyl = False
    curved = cfg['coord'] == 'cylindrical' and direction == 1
    order, ctu, hll = kw['order'], kw['integrator'] == 'ctu', kw['flux'] != 'roe'
    prims = m.prims()
    F = {}
    for root, side in (('#7', 'L'), ('#8', 'R')):
        for i in range(IL, IU + 2):
            for f in prims:
                F[side, i, f] = it.load(path(root, i, *f) if isinstance(f, tuple) else path(root, i, f), DBL)
    cover = ident.Cover(F.values())
    T = rs.Tally(rec, where, m)
    T.name = lambda c: 'component %s of the %s state of interface %s' % (c[2] if isinstance(c[2], str) else '%s[%d]' % c[2], {'L': 'left', 'R': 'right'}[c[0]],
                                                                        'il' if c[1] == IL else 'iu+1' if c[1] == IU + 1 else 'i')
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    mp = ident.mpmath
    N = lambda x: mp.mpf(x.numerator) / x.denominator if isinstance(x, (Fraction, int)) else x
    w = width(order)
    with mp.workdps(ident.DPS):
        def at(D):
            val = {}
            for j in CELLS:
                if j < IL - w or j > IU + w:
                    continue
                for f in prims:
                    val[rs.key(ld('#1', j, *f) if isinstance(f, tuple) else ld('#1', j, f))] = D['W'][j][f]
                val[rs.key(ld('#2', j))] = D['B'][j]
                val[rs.key(ld('#0', 0, 'r', j))] = D['r0'] + D['dx'] * j
            for j in list(CELLS) + [IU + 4]:
                val[rs.key(ld('#0', 0, 'ri', j))] = D['r0'] + D['dx'] * j - D['dx'] / 2
            g, c = D['Gamma'], D['cs']
            val.update({rs.key(ld('Gamma')): g, rs.key(ld('Gamma_1')): g - 1, rs.key(ld('Gamma_2')): g - 2, rs.key(ld('Iso_csound')): c, rs.key(ld('Iso_csound2')): c * c,
                        rs.key(S('#3')): D['dt'], rs.key(S('#4')): D['dx']})
            v = ident.State(lambda a: val.get(a.id), forbid=stray)
            try:
                r = {k: v.poly(x) for k, x in F.items()}
            except sym._CantEval as e:
                return e.args[0] if e.args else None
            cover.add(v)
            return r

        def say(rule, got, want, D, text, st=None):
            st = {'L': D['W'][IL], 'R': D['W'][IL + 1], 'bx': D['B'][IL], 'Gamma': D['Gamma'], 'cs': D['cs']}
            T.all(rule, got, want, st, text)

        for q in range(count):
            for kind in ('generic', 'generic', 'smooth', 'small', 'fast', 'back') + (('aligned', 'perp') if m.mhd else ()):
                D = draw(m, kind, rnd)
                f = at(D)
                # uniform
                U = dict(D, W={j: D['W'][IL] for j in CELLS}, B={j: D['B'][IL] for j in CELLS})
                want = {k: N(D['W'][IL][k[2]]) for k in F}
                say('uniform', at(U), want, U, 'for uniform data %s is the cell value')
                # extremum
                if order != '3pcl' and not curved:
                    W = {}
                    s = Fraction(rnd.randint(3000, 20000), 9973)
                    c = IL + 1
                    for j in CELLS:
                        W[j] = dict(D['W'][c])
                        if j != c:
                            a = abs(j - c) * (s if j > c else 1)
                            for x in prims:
                                W[j][x] += a * (D['W'][c + 1][x] - D['W'][c][x]) / 40
                    E = dict(D, W=W)
                    g = at(E)
                    pick = [('L', c + 1), ('R', c)]
                    g = {k: g[k] for k in g if k[:2] in pick} if isinstance(g, dict) else g
                    say('extremum', g, {k: N(W[c][k[2]]) for k in F if k[:2] in pick}, E, 'next to a cell that is an extremum of every variable %s is the cell value')
                # linear
                if cfg['coord'] == 'cartesian' and order != '1':
                    a, sl = D['W'][IL], {x: (D['W'][IL + 1][x] - D['W'][IL][x]) / 60 for x in prims}
                    for kappa, kind in ((Fraction(0), 'linear'),) + (((Fraction(rnd.randint(100, 300), 9973), 'parabolic'),) if order in ('3', '3p') else ()):
                        av = profile(kappa)
                        Lin = dict(D, W={j: {x: a[x] + sl[x] * av(j - IL) for x in prims} for j in CELLS})
                        say('linear', at(Lin), linear(m, Lin, a, sl, kappa, order, ctu, hll, N), Lin, 'for ' + kind + ' data %s is the ' + kind + ' profile' + (' averaged over the domain of dependence' if ctu else ' at the interface'))
                elif order == '1':
                    say('linear', f, {k: N(D['W'][k[1] - (k[0] == 'L')][k[2]]) for k in F}, D, '%s is the value of the adjacent cell')
                # between the neighbours
                if order != '3pcl':
                    Z = dict(D, dt=Fraction(0))
                    g = at(Z)
                    if isinstance(g, dict):
                        lim = lambda k: sorted((N(D['W'][k[1] - 1][k[2]]), N(D['W'][k[1]][k[2]])))
                        clip = {k: min(max(y, lim(k)[0]), lim(k)[1]) for k, y in g.items()}
                    say('bounded', g, clip if isinstance(g, dict) else None, D, 'for a vanishing time step %s lies between the values of the adjacent cells')
                if not isinstance(f, dict):
                    say('mirror', f, None, D, '')
                    continue
                if not curved:
                    M = dict(D, W={IL + IU - j: {x: -y if x == 'Vx' else y for x, y in D['W'][j].items()} for j in CELLS}, B={IL + IU - j: -D['B'][j] for j in CELLS})
                    g = at(M)
                    if isinstance(g, dict):
                        g = {k: g['R' if k[0] == 'L' else 'L', IL + IU + 1 - k[1], k[2]] * (-1 if k[2] == 'Vx' else 1) for k in F}
                    say('mirror', g, f, M, 'reflecting the data reflects %s')
                    S1 = dict(D, W={j: D['W'][j - 1 if j > min(CELLS) else max(CELLS)] for j in CELLS}, B={j: D['B'][j - 1 if j > min(CELLS) else max(CELLS)] for j in CELLS})
                    g = at(S1)
                    if isinstance(g, dict):
                        g = {k: g[k[0], k[1] + 1, k[2]] for k in F if k[1] <= IU}
                    say('shift', g, {k: f[k] for k in F if k[1] <= IU}, D, 'shifting the data by one cell shifts %s')
                sw = {'Vy': 'Vz', 'Vz': 'Vy', 'By': 'Bz', 'Bz': 'By'}
                g = at(dict(D, W={j: {x: D['W'][j][sw.get(x, x)] for x in prims} for j in CELLS}))
                say('transverse', g if not isinstance(g, dict) else {k: g[k[0], k[1], sw.get(k[2], k[2])] for k in g}, f, D, 'exchanging the transverse axes exchanges their components and leaves the rest: %s')
                g = at(dict(D, W={j: {x: -y if x in ('Vy', 'By') else y for x, y in D['W'][j].items()} for j in CELLS}))
                say('transverse', g if not isinstance(g, dict) else {k: -y if k[2] in ('Vy', 'By') else y for k, y in g.items()}, f, D, 'reflecting a transverse axis reflects %s')
    T.merge(lambda k: (k[0], k[1], (k[2][0], IL if k[2][1] == IL else IU + 1 if k[2][1] == IU + 1 else IL + 1, k[2][2])) if isinstance(k[2], tuple) else k)
    T.flush(cover)


def stray(a):
    if a.kind in ('unk', 'in', 'lout', 'red', 'call', 'wild'):
        return 'not resolved: '
    if a.kind == 'ld':
        r = a.args[0][0]
        if isinstance(r, str) and (r[0] in '$%' or r in ('#7', '#8')):
            return 'depends on '
        if isinstance(r, str) and r[0] == '#':
            return 'depends on data outside the range: '
        return 'not resolved: '
    return None


def draw(m, kind, rnd):
    q = lambda a, b: Fraction(rnd.randint(int(a * 9973), int(b * 9973)), 9973)
    D = {'Gamma': q(1.05, 2.6), 'cs': q(0.4, 1.6), 'dx': q(0.5, 1.5), 'r0': q(3, 5), 'W': {}, 'B': {}}
    D['dt'] = D['dx'] * q(0.02, 0.05)
    amp = {'smooth': Fraction(1, 3), 'small': Fraction(1, 50)}.get(kind, 1)
    base = {}
    for j in CELLS:
        w = {}
        for f in m.prims():
            if f in ('d', 'P'):
                w[f] = q(0.4, 2.5)
            elif isinstance(f, tuple):
                w[f] = q(0.1, 0.9)
            elif f in ('By', 'Bz') and kind == 'aligned':
                w[f] = Fraction(0)
            else:
                w[f] = q(-1, 1)
        if not base:
            base = dict(w)
        w = {f: base[f] + (w[f] - base[f]) * amp for f in w}
        if kind in ('fast', 'back'):
            w['Vx'] += 7 if kind == 'fast' else -7
        D['W'][j] = w
        D['B'][j] = q(-1.2, 1.2) if m.mhd and kind != 'perp' else Fraction(0)
    return D


def profile(kappa):
    """cell averages of x + kappa*x^2"""
    return lambda j: j + kappa * (j * j + Fraction(1, 12))


def faces(kappa, order):
    """the interface value right of cell j the scheme assigns to these averages: the profile itself, or, for
    slopes limited by the harmonic mean, the fourth-order interpolation with these slopes"""
    if order != '3':
        return lambda j: j + Fraction(1, 2) + kappa * (j + Fraction(1, 2)) ** 2
    av = profile(kappa)

    def slope(j):
        a, b = av(j) - av(j - 1), av(j + 1) - av(j)
        return 2 * a * b / (a + b)
    return lambda j: (av(j) + av(j + 1)) / 2 - (slope(j + 1) - slope(j)) / 6


def linear(m, D, a0, sl, kappa, order, ctu, hll, N):
    """expected interface states for data with the profile a0 + sl*(x + kappa*x^2)"""
    mp = ident.mpmath
    out = {}
    names = [x for x in m.prims() if isinstance(x, str)]
    lam = N(D['dt'] / D['dx'])
    for side in 'LR':
        for i in range(IL, IU + 2):
            j = i - 1 if side == 'L' else i
            W = D['W'][j]
            sgn = 1 if side == 'L' else -1
            fr, fl, av = faces(kappa, order)(j - IL), faces(kappa, order)(j - IL - 1), profile(kappa)(j - IL)
            face = N(fr if side == 'L' else fl)
            if ctu:
                dW, W6 = N(fr - fl), N(6 * (av - (fl + fr) / 2))

                def mean(e):
                    """mean over the part of the cell within |e| dt of the interface"""
                    q = abs(e) * lam
                    return face - sgn * q / 2 * (dW - sgn * (1 - 2 * q / 3) * W6)
                # names of prim_matrix: d,Vx,Vy,Vz,[P],[By,Bz]
                A = prim_matrix(dict(W, P=W.get('P', 1), By=W.get('By', 0), Bz=W.get('Bz', 0)), D['B'][j], m.mhd, m.iso, D['cs'], D['Gamma'])
                n = len(A)
                M = mp.matrix([[N(x) for x in row] for row in A])
                s = mp.matrix([N(sl[x]) for x in names])
                E = speeds(m, W, D, N, D['B'][j])
                far = max(max(E), 0) if side == 'L' else min(min(E), 0)
                ext = max(E) if side == 'L' else min(E)
                adv = N(W['Vx'])

                def amp(e, wave=True):
                    if e * sgn > 0:
                        return mean(e)
                    v = mean(far)
                    if wave and hll and e * sgn < 0:
                        v -= lam / 2 * (e - ext) * dW
                    return v
                tr = [mp.mpf(0)] * n
                # the function amp of A applied to the slope, by the Lagrange form of the spectral projectors
                for k, ek in enumerate(E):
                    v = s
                    for q, eq in enumerate(E):
                        if q != k:
                            v = (M * v - eq * v) / (ek - eq)
                    for a in range(n):
                        tr[a] += v[a] * amp(ek)
                for a, x in enumerate(names):
                    out[side, i, x] = N(a0[x]) + tr[a]
                for x in sl:
                    if isinstance(x, tuple):
                        out[side, i, x] = N(a0[x]) + amp(adv, False) * N(sl[x])
            else:
                for x in sl:
                    out[side, i, x] = N(a0[x]) + face * N(sl[x])
    return out


def speeds(m, W, D, N, bx):
    """the distinct characteristic speeds"""
    mp = ident.mpmath
    u, d = N(W['Vx']), N(W['d'])
    a2 = N(D['cs']) ** 2 if m.iso else N(D['Gamma']) * N(W['P']) / d
    out = [u]
    if m.mhd:
        bx2, bt2 = N(bx) ** 2 / d, (N(W['By']) ** 2 + N(W['Bz']) ** 2) / d
        t = a2 + bx2 + bt2
        r = mp.sqrt((a2 - bx2 - bt2) ** 2 + 4 * a2 * bt2)
        cf2 = (t + r) / 2
        cs2 = a2 * bx2 / cf2
        c = [mp.sqrt(bx2), mp.sqrt(cf2), mp.sqrt(cs2)]
    else:
        c = [mp.sqrt(a2)]
    for x in c:
        for e in (u + x, u - x):
            if all(abs(e - y) > mp.mpf(10) ** -25 for y in out):
                out.append(e)
    return out
