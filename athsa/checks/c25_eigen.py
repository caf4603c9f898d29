"""Eigensystems of the linearised equations."""
import random
import os
from ..integ import *
from .. import sym, ident
from ..sym import Fraction
from . import c12_riemann as rs

RULE = ("each eigensystem routine is summarised as gated algebraic expressions of its arguments. On every path through its gates reached by the "
        "enumerated states (generic ones, fields aligned with or perpendicular to the interface normal, no field) the left and right matrices must be "
        "inverse to each other, A R = R diag(lambda) must hold for the matrix A of the equations of motion (for the Roe averages: R diag(lambda) L "
        "(Ur-Ul) = Fr-Fl, with MHD for neighbouring states), the eigenvalues must ascend, and no entry may be set on one path and left over from an earlier call on another.")
ASSUMPTIONS = ["entries a routine never sets are zero in its callers", "density, pressure, Gamma-1 and sound speed are positive",
               "states in which two waves coincide to within the code's tolerance, but not exactly, are not considered"]
FLOORS = {'inverse': 8, 'eigen': 8, 'ascend': 8}

PRIM = [('hydro', 'isothermal', 'esys_prim_iso_hyd'), ('hydro', 'adiabatic', 'esys_prim_adb_hyd'), ('mhd', 'isothermal', 'esys_prim_iso_mhd'), ('mhd', 'adiabatic', 'esys_prim_adb_mhd')]
ROE = [('hydro', 'isothermal', 'esys_roe_iso_hyd'), ('hydro', 'adiabatic', 'esys_roe_adb_hyd'), ('mhd', 'isothermal', 'esys_roe_iso_mhd'), ('mhd', 'adiabatic', 'esys_roe_adb_mhd')]


def tasks(tier):
    n = 40 if tier == 'thorough' else 12
    return [(f, ('run', f, g, e, f.split('_')[1], n)) for g, e, f in PRIM + ROE]


def summary(rec, fn, gas, eos, nargs, n):
    cfg = Config(gas=gas, eos=eos, flux='roe', order='3', integrator='ctu')
    prog = Program(cfg)
    it = Interp(prog, opaque=['ath_error'], effects={'ath_error': []}, assume=[sym.c_not(sym.c_eq0(P(sym.atom('base', path('#%d' % (nargs + i)))))) for i in (1, 2)])
    it.box = 6
    it.run(fn, None)
    u, _ = prog.need(fn)
    rec.fn(u.rel + ': ' + fn)
    rec.add_stats(it)
    E, R, L = '#%d' % nargs, '#%d' % (nargs + 1), '#%d' % (nargs + 2)
    ev = [it.load(path(E, i), DBL) for i in range(n)]
    mats = []
    for nm in (R, L):
        M = []
        for i in range(n):
            row = []
            for j in range(n):
                v = it.load(path(nm, i, j), DBL)
                old = ld(nm, i, j)
                if v == old:
                    v = ZERO
                row.append(v)
            M.append(row)
        mats.append(M)
    return u.rel, ev, mats[0], mats[1]


def draw(what, mhd, rnd):
    q = lambda a, b: Fraction(rnd.randint(int(a * 9973), int(b * 9973)), 9973)
    big = rnd.choice([1, Fraction(1, 5), 6])
    s = dict(d=q(0.2, 2.5), Vx=q(-2, 2), Vy=q(-1, 1), Vz=q(-1, 1), P=q(0.2, 2.5), By=q(-1, 1) * big, Bz=q(-1, 1) * big)
    if what in ('aligned', 'none', 'umbilic') or not mhd:
        s['By'] = s['Bz'] = Fraction(0)
    return s


def prim_matrix(s, bx, mhd, iso, cs, gam):
    names = ['d', 'Vx', 'Vy', 'Vz'] + ([] if iso else ['P']) + (['By', 'Bz'] if mhd else [])
    n = len(names)
    k = {x: i for i, x in enumerate(names)}
    A = [[Fraction(0)] * n for _ in range(n)]
    for x in names:
        A[k[x]][k[x]] = s['Vx']
    A[k['d']][k['Vx']] = s['d']
    if iso:
        A[k['Vx']][k['d']] = cs * cs / s['d']
    else:
        A[k['Vx']][k['P']] = 1 / s['d']
        A[k['P']][k['Vx']] = gam * s['P']
    if mhd:
        for b, v in (('By', 'Vy'), ('Bz', 'Vz')):
            A[k['Vx']][k[b]] = s[b] / s['d']
            A[k[v]][k[b]] = -bx / s['d']
            A[k[b]][k['Vx']] = s[b]
            A[k[b]][k[v]] = -bx
    return A


def run(rec, fn, gas, eos, kind, count):
    mhd, iso = gas == 'mhd', eos == 'isothermal'
    n = 4 + (not iso) + 2 * mhd
    if kind == 'prim':
        args = ['d', 'Vx'] + ([] if iso else ['ga']) + (['bx', 'By', 'Bz'] if mhd else [])
    else:
        args = (['d'] if mhd else []) + ['Vx', 'Vy', 'Vz'] + ([] if iso else ['h']) + (['bx', 'By', 'Bz', 'x', 'y'] if mhd else [])
    where, EV, R, L = summary(rec, fn, gas, eos, len(args), n)
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    cover = ident.Cover([EV, R, L])
    mp = ident.mpmath
    N = lambda x: mp.mpf(x.numerator) / x.denominator if isinstance(x, (Fraction, int)) else x
    bad, seen, skipped = {}, 0, 0
    kinds = ['generic', 'generic'] + (['aligned', 'perp', 'none', 'weak', 'umbilic'] if mhd else [])
    with mp.workdps(ident.DPS):
        for i in range(count):
            for what in kinds:
                bx = Fraction(0) if not mhd or what in ('perp', 'none') else Fraction(rnd.randint(-14000, 14000), 9973) * (Fraction(1, 8) if what == 'weak' else 1)
                cs, gam = Fraction(rnd.randint(4000, 16000), 9973), Fraction(rnd.randint(10500, 25000), 9973)
                W = draw(what, mhd, rnd)
                if what == 'umbilic':
                    bx = bx or Fraction(1)
                    W['d'] = Fraction(rnd.randint(5000, 15000), 9973) ** 2
                    W['P'], cs = bx * bx / gam, abs(bx) / Fraction(int(W['d'].numerator ** 0.5 + 0.5), int(W['d'].denominator ** 0.5 + 0.5))
                vals = {'bx': bx, 'ga': gam * W['P']}
                if kind == 'prim':
                    vals.update(W)
                    A = prim_matrix(W, bx, mhd, iso, cs, gam)
                else:
                    m = Mod(mhd, iso)
                    names = m.comps()
                    st = {'bx': bx, 'Gamma': gam, 'cs': cs}
                    # two different states (the averages then have x>0, y>1); for MHD every other time two infinitesimally close ones
                    close = mhd and i % 2 == 0
                    Wr = draw(what, mhd, rnd)
                    if what == 'umbilic':
                        Wr = dict(W, Vx=W['Vx'], Vy=Wr['Vy'])
                    if close:
                        Wr = {f: W[f] + (Wr[f] - W[f]) / 10 ** 26 for f in W}
                    Ul, Ur, Fl, Fr = m.cons(W, st), m.cons(Wr, st), m.flux(W, st), m.flux(Wr, st)
                    sc = 10 ** 26 if close else 1
                    dU = [N((Ur[c] - Ul[c]) * sc) for c in names]
                    dF = [N((Fr[c] - Fl[c]) * sc) for c in names]
                    vals = roe_average(W, Wr, Ul, Ur, bx, mhd, iso, N)
                read = {rs.key(S('#%d' % i)): N(vals[a]) for i, a in enumerate(args)}
                read.update({rs.key(ld('Gamma')): gam, rs.key(ld('Gamma_1')): gam - 1, rs.key(ld('Gamma_2')): gam - 2, rs.key(ld('Iso_csound')): cs, rs.key(ld('Iso_csound2')): cs * cs})
                v = Given(lambda a: read.get(a.id), forbid=rs.stray)
                try:
                    ev = [v.poly(x) for x in EV]
                    r = [[v.poly(x) for x in row] for row in R]
                    l = [[v.poly(x) for x in row] for row in L]
                except sym._CantEval as e:
                    if e.args and not e.args[0].startswith('not resolved'):
                        bad.setdefault('assigned' if e.args[0].startswith('depends') else 'finite', '%s: %s in the state %s' % (fn, e.args[0], ' '.join('%s=%.4g' % (a, float(vals[a])) for a in args)))
                    skipped += 1
                    continue
                cover.add(v)
                seen += 1
                say = lambda rule, t: bad.setdefault(rule, '%s: %s in the state %s' % (fn, t, ' '.join('%s=%.4g' % (a, float(vals[a])) for a in args)))
                LR = mul(l, r)
                for a in range(n):
                    for b in range(n):
                        if not ident.same(LR[a][b], mp.mpf(a == b), 1):
                            say('inverse', '(L R)[%d][%d] is %s' % (a, b, mp.nstr(LR[a][b], 8)))
                if kind == 'prim':
                    AR = mul([[N(x) for x in row] for row in A], r)
                    big = max(abs(x) for row in AR for x in row)
                    for a in range(n):
                        for b in range(n):
                            if not ident.same(AR[a][b], r[a][b] * ev[b], big):
                                say('eigen', '(A R)[%d][%d] is %s, not lambda[%d] R[%d][%d] = %s' % (a, b, mp.nstr(AR[a][b], 8), b, a, b, mp.nstr(r[a][b] * ev[b], 8)))
                elif close or not mhd:
                    al = [sum(l[a][b] * dU[b] for b in range(n)) for a in range(n)]
                    got = [sum(r[a][b] * ev[b] * al[b] for b in range(n)) for a in range(n)]
                    big = max(abs(x) for x in dF)
                    for a in range(n):
                        if not ident.same(got[a], dF[a], big):
                            say('eigen', 'component %s of R diag(lambda) L (Ur-Ul) is %s, not that of Fr-Fl = %s' % (names[a], mp.nstr(got[a], 8), mp.nstr(dF[a], 8)))
                if any(ev[a] > ev[a + 1] + mp.mpf(10) ** -20 for a in range(n - 1)):
                    say('ascend', 'eigenvalues %s do not ascend' % [mp.nstr(x, 6) for x in ev])
    done = '(%d states, %d paths, %d of %d gate sides)' % (seen, len(cover.paths), cover.sides() - len(cover.missing()), cover.sides())
    for rule, t in (('assigned', 'every entry is set on all paths or on none'), ('inverse', 'the left and right eigenvectors are inverse to each other'), ('eigen', 'they diagonalise the matrix of the equations'), ('ascend', 'eigenvalues ascend'), ('finite', 'no division by zero and no root of a negative number')):
        if rule in bad:
            rec.bad(rule, where, bad[rule])
        else:
            rec.ok(rule, '%s: %s: %s %s' % (where, fn, t, done))
    if skipped > seen // 4:
        rec.undecided('eigen', where, '%s: %d states cannot be evaluated' % (fn, skipped))


class Given(ident.State):
    def lit(self, a):
        if a.kind == 'eq0':
            b = a.args[0].single_atom()
            if b is not None and b.kind in ('base', 'addr'):
                return False
        return ident.State.lit(self, a)


class Mod(rs.Model):
    def __init__(self, mhd, iso):
        self.mhd, self.iso, self.ns, self.cyl, self.sr = mhd, iso, 0, False, False


def mul(a, b):
    n = len(a)
    return [[sum(a[i][k] * b[k][j] for k in range(n)) for j in range(n)] for i in range(n)]


def roe_average(l, r, ul, ur, bx, mhd, iso, N):
    mp = ident.mpmath
    sl, sr = mp.sqrt(N(l['d'])), mp.sqrt(N(r['d']))
    av = lambda f: (sl * N(l[f]) + sr * N(r[f])) / (sl + sr)
    o = {'d': sl * sr, 'Vx': av('Vx'), 'Vy': av('Vy'), 'Vz': av('Vz'), 'bx': N(bx)}
    pb = lambda w: (bx ** 2 + w['By'] ** 2 + w['Bz'] ** 2) / 2 if mhd else Fraction(0)
    if not iso:
        o['h'] = (N(ul['E'] + l['P'] + pb(l)) / sl + N(ur['E'] + r['P'] + pb(r)) / sr) / (sl + sr)
    if mhd:
        for b in ('By', 'Bz'):
            o[b] = (sr * N(l[b]) + sl * N(r[b])) / (sl + sr)
        o['x'] = N((l['By'] - r['By']) ** 2 + (l['Bz'] - r['Bz']) ** 2) / 2 / (sl + sr) ** 2
        o['y'] = N(l['d'] + r['d']) / 2 / (sl * sr)
    return o
