"""Directional symmetry of the grid integrators and of explicit diffusion."""
from ..integ import *
from .. import symm, sym

RULE = ("The integrator selected by integrate_init (and the viscosity, conduction and Ohmic/ambipolar resistivity updates) is "
        "summarised as definitions of array elements over index ranges. Starting from the final state of the first, an interior "
        "and the last cell, every location the result depends on is compared with its counterpart after relabelling the axes "
        "(cyclic and exchange): the relabelled definition must equal the counterpart's definition, transitively down to the state "
        "at the start of the step. Every work location read on the way must have been filled beforehand in the same call.")
ASSUMPTIONS = ["the Riemann solver, reconstruction and variable conversion treat the two transverse components alike (opaque here)",
               "work arrays follow the naming scheme in which the axis number is part of the name; otherwise undecided",
               "grids are larger than the stencil"]
FLOORS = {'symmetry': 1500, 'stale-read': 20}
INT = [dict(gas='hydro', nscalars=1), dict(gas='mhd', nscalars=1), dict(gas='mhd', eos='isothermal'), dict(gas='hydro', eos='isothermal'),
       dict(gas='hydro', nscalars=1, integrator='vl'), dict(gas='mhd', nscalars=1, integrator='vl'),
       dict(gas='hydro', special_relativity=1, integrator='vl', order='2p'), dict(gas='mhd', special_relativity=1, integrator='vl', order='2p'),
       dict(gas='hydro', gravity='fft'), dict(gas='mhd', gravity='fft'), dict(gas='mhd', gravity='fft', integrator='vl'),
       dict(gas='hydro', h_correction=1, flux='roe'), dict(gas='mhd', h_correction=1), dict(gas='hydro', h_correction=1, integrator='vl', flux='roe'),
       dict(gas='mhd', h_correction=1, integrator='vl')]
DIFF = [('conduction', dict(gas='mhd', conduction=1), [dict(kappa_iso=1, kappa_aniso=0), dict(kappa_iso=0, kappa_aniso=1), dict(kappa_iso=1, kappa_aniso=1)]),
        ('conduction', dict(gas='hydro', conduction=1), [dict(kappa_iso=1, kappa_aniso=0)]),
        ('viscosity', dict(gas='mhd', viscosity=1), [dict(nu_iso=1, nu_aniso=0), dict(nu_iso=0, nu_aniso=1), dict(nu_iso=1, nu_aniso=1)]),
        ('viscosity', dict(gas='hydro', viscosity=1), [dict(nu_iso=1, nu_aniso=0)]),
        ('resistivity', dict(gas='mhd', resistivity=1), [dict(Q_Hall=0)]),
        ('resistivity', dict(gas='mhd', resistivity=1, eos='isothermal'), [dict(Q_Hall=0)])]
PERMS = {3: [(1, 2, 0), (1, 0, 2)], 2: [(1, 0, 2)]}


def tasks(tier):
    out = []
    for kw in INT:
        for d in (2, 3):
            for p in PERMS[d]:
                out.append(('%dD %s %s' % (d, Config(**kw).name, p), ('integ', kw, d, p)))
    for f, kw, vals in DIFF:
        for v in vals:
            for d in (2, 3):
                for p in PERMS[d]:
                    out.append(('%dD %s %s %s %s' % (d, f, Config(**kw).name, v, p), ('diff', f, kw, v, d, p)))
    return out


def state(cfg):
    fin = [('#0.Grid.U', tuple(f)) for f in cons_fields(cfg)]
    if cfg['gas'] == 'mhd':
        fin += [('#0.Grid.B%di' % (a + 1), ()) for a in range(3)]
    return fin


def starts(dims):
    return [tuple((s, 0) if a < dims else None for a in range(3)) for s in 'sme']


def order(cfg):
    return int(cfg['order'][0])


def integ(rec, kw, dims, perm):
    cfg = Config(**kw)
    prog, fn, it = summarise(cfg, dims, off=('ShearingBoxPot',), frozen=Deep())
    rec.fn(fn)
    rec.add_stats(it)
    rt = symm.Routine(it, prog.need(fn)[0], dims, order(cfg))
    where = fn + (' (h-correction, %s)' % cfg['gas'] if cfg.has('h-correction') else '')
    symm.compare(rec, rt, perm, starts(dims), where, state(cfg))


def diff(rec, fn, kw, vals, dims, perm):
    cfg = Config(**kw)
    prog = Program(cfg)
    v = {path('#0', 0, 'Nx', q): P(16 if q < dims else 1) for q in range(3)}
    v.update({(n, ()): P(x) for n, x in vals.items()})
    it = Interp(prog, opaque=['ath_error'], effects={}, frozen=Deep(), assume=grid_facts(dims, R), values=v)
    it.run(fn, None)
    rec.fn(fn)
    rec.add_stats(it)
    rt = symm.Routine(it, prog.need(fn)[0], dims)
    symm.compare(rec, rt, perm, starts(dims), fn, state(cfg), fixed=True, odd=('emf', 'J'))

