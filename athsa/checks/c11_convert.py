"""Conserved and primitive variables, and the fast speed."""
import random
import os
from ..integ import *
from .. import sym, ident
from ..sym import Fraction
from . import c12_riemann as rs

RULE = ("the conversion routines are summarised as gated algebraic expressions of their argument. In every enumerated state with positive density and "
        "pressure (and subluminal velocity) the conserved variables of a primitive state must be their definitions, converting them back must give "
        "the primitive state, the 3D routines must agree with the definitions component by component, and the fast speed must be the "
        "largest root of the dispersion relation in both forms.")
ASSUMPTIONS = ["density, pressure and Gamma-1 are positive and not below the floor", "relativistic MHD: the iterative inversion (Cons1D_to_Prim1D) is not covered",
               "relativistic hydrodynamics: the quartic is compared to 9 digits (the literal for 1/3 is rounded)"]
FLOORS = {'define': 15, 'inverse': 12, 'fast': 4}
CFG = [dict(gas=g, eos=e, nscalars=2) for g in ('hydro', 'mhd') for e in ('adiabatic', 'isothermal')] + \
      [dict(gas='hydro', special_relativity=1), dict(gas='mhd', special_relativity=1)]


def tasks(tier):
    return [(Config(**kw).name, ('run', kw, 150 if tier == 'thorough' else 30)) for kw in CFG]


def outputs(rec, prog, fn, names, cfg):
    it = Interp(prog, opaque=['ath_error', 'ath_perr'], effects={'ath_error': [], 'ath_perr': []})
    it.box = 8
    it.run(fn, None)
    u, _ = prog.need(fn)
    rec.fn(u.rel + ': ' + fn)
    rec.add_stats(it)
    out = {}
    for c in names:
        p = path('$ret', *c) if isinstance(c, tuple) else path('$ret', c) if c else path('$ret')
        v = it.load(p, DBL)
        out[c] = v
    return u.rel, out


V3 = {'Vx': 'V1', 'Vy': 'V2', 'Vz': 'V3', 'Mx': 'M1', 'My': 'M2', 'Mz': 'M3', 'By': 'B2c', 'Bz': 'B3c'}


def run(rec, kw, count):
    cfg = Config(**kw)
    prog = Program(cfg)
    m = rs.Model(cfg)
    mp = ident.mpmath
    prims, comps = m.prims(), m.comps()
    to3 = lambda c: V3.get(c, c)
    extra = ['B1c'] if m.mhd else []
    where, p2c = outputs(rec, prog, 'Prim1D_to_Cons1D', comps, cfg)
    full = not (m.sr and m.mhd)
    if full:
        _, c2p = outputs(rec, prog, 'Cons1D_to_Prim1D', prims, cfg)
        _, c2p3 = outputs(rec, prog, 'Cons_to_Prim', [to3(c) for c in prims] + extra, cfg)
    _, p2c3 = outputs(rec, prog, 'Prim_to_Cons', [to3(c) for c in comps] + extra, cfg)
    if not m.sr:
        _, cf = outputs(rec, prog, 'cfast', [''], cfg)
        _, cfp = outputs(rec, prog, 'cfast_prim', [''], cfg)
    rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
    T = rs.Tally(rec, where, m)
    N = lambda x: mp.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else mp.mpf(x)
    with mp.workdps(ident.DPS):
        for i in range(count):
            for kind in ('generic', 'aligned', 'perp', 'rest'):
                st = rs.draw(m, kind, rnd)
                W = st['L']
                if m.sr:
                    W = rs.subluminal(W, rnd)
                if kind == 'rest':
                    W = dict(W, Vx=Fraction(0), Vy=Fraction(0), Vz=Fraction(0))
                U = m.cons(W, st)
                pu = {c: N(x) for c, x in U.items()}
                pw = {c: N(x) for c, x in W.items()}
                three = lambda d: dict({to3(c): x for c, x in d.items()}, **({'B1c': N(st['bx'])} if m.mhd else {}))
                ev = lambda out, vals: at(m, out, vals, st)
                T.all('define', ev(p2c, pw), pu, dict(st, R=W, L=W), '%s returned by Prim1D_to_Cons1D is its definition')
                T.all('define', ev(p2c3, three(pw)), three(pu), dict(st, R=W, L=W), '%s returned by Prim_to_Cons is its definition')
                if full:
                    T.tol = mp.mpf(10) ** -9 if m.sr else ident.TOL
                    T.all('inverse', ev(c2p, pu), pw, dict(st, R=W, L=W), '%s returned by Cons1D_to_Prim1D is that of the state the conserved variables were made from')
                    T.all('inverse', ev(c2p3, three(pu)), three(pw), dict(st, R=W, L=W), '%s returned by Cons_to_Prim is that of the state the conserved variables were made from')
                    T.tol = ident.TOL
                if not m.sr and not m.iso:
                    cold, fl = dict(pu, E=pu['E'] - N(W['P'] / (st['Gamma'] - 1)) * (1 + i % 3)), dict(pw, P=mp.mpf(10) ** -20)
                    T.all('floor', ev(c2p, cold), fl, dict(st, R=W, L=W), 'where the energy leaves no positive pressure %s returned by Cons1D_to_Prim1D is that of the floor, and is unaffected otherwise')
                    T.all('floor', ev(c2p3, three(cold)), three(fl), dict(st, R=W, L=W), 'where the energy leaves no positive pressure %s returned by Cons_to_Prim is that of the floor, and is unaffected otherwise')
                if not m.sr:
                    a2 = N(st['cs']) ** 2 if m.iso else N(st['Gamma'] * W['P'] / W['d'])
                    if m.mhd:
                        b2, ca = N((st['bx'] ** 2 + W['By'] ** 2 + W['Bz'] ** 2) / W['d']), N(st['bx'] ** 2 / W['d'])
                        f = mp.sqrt((a2 + b2 + mp.sqrt((a2 + b2) ** 2 - 4 * a2 * ca)) / 2)
                    else:
                        f = mp.sqrt(a2)
                    T.all('fast', ev(cf, pu), {'': f}, dict(st, R=W, L=W), 'cfast%s is the fast magnetosonic speed')
                    T.all('fast', ev(cfp, pw), {'': f}, dict(st, R=W, L=W), 'cfast_prim%s is the fast magnetosonic speed')
    T.name = lambda c: '' if c == '' else 'component %s' % (c if isinstance(c, str) else '%s[%d]' % c,)
    T.flush(None)


def at(m, out, vals, st):
    g = st['Gamma']
    read = {rs.key(ld('Gamma')): g, rs.key(ld('Gamma_1')): g - 1, rs.key(ld('Gamma_2')): g - 2, rs.key(ld('Iso_csound')): st['cs'], rs.key(ld('Iso_csound2')): st['cs'] ** 2}
    for c, x in vals.items():
        read[rs.key(ld('#0', 0, *c) if isinstance(c, tuple) else ld('#0', 0, c))] = x
    read[rs.key(ld('#1', 0))] = st['bx']
    read[rs.key(ld('#1'))] = st['bx']
    v = ident.State(lambda a: read.get(a.id), forbid=rs.stray)
    try:
        return {c: v.poly(x) for c, x in out.items()}
    except sym._CantEval as e:
        return e.args[0] if e.args else None
