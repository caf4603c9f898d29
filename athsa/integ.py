"""Summaries of the grid integrators shared by the conservation, constrained
transport and symmetry rules."""
from .config import Config
from .front import Program, AnalysisError, DBL
from .interp import Interp, flatten
from .spec import *
from . import sym
from .halo import addr_key

R = ('#0', 0, 'Grid', 0)
OPAQUE = ['fluxes', 'lr_states', 'Cons1D_to_Prim1D', 'Prim1D_to_Cons1D', 'Cons_to_Prim', 'Prim_to_Cons',
          'cons_to_prim', 'check_Prim', 'check_Prim1D', 'fix_vsq', 'entropy_fix', 'prim_to_cons', 'entropy_flux',
          'feedback_predictor', 'feedback_corrector', 'Integrate_Particles', 'exchange_feedback', 'exchange_gpcouple',
          'exchange_feedback_fluid']
EFFECTS = {'fluxes': [-1], 'lr_states': [], None: [], 'Cons_to_Prim': [], 'Prim_to_Cons': [], 'Cons1D_to_Prim1D': [],
           'Prim1D_to_Cons1D': [], 'cons_to_prim': [], 'check_Prim': [], 'check_Prim1D': [], 'fix_vsq': [],
           'entropy_fix': [], 'prim_to_cons': [], 'entropy_flux': [], 'feedback_predictor': [], 'feedback_corrector': [],
           'Integrate_Particles': [], 'exchange_feedback': [], 'exchange_gpcouple': [], 'exchange_feedback_fluid': []}


def gl(*e):
    return ld(*(R + e))


def gp(*e):
    return path(*(R + e))


ST = [gl('is'), gl('js'), gl('ks')]
EN = [gl('ie'), gl('je'), gl('ke')]
IDX = [S('i'), S('j'), S('k')]
DT = gl('dt')
DX = [gl('dx1'), gl('dx2'), gl('dx3')]


def integrator(prog, dims):
    """name of the routine integrate_init selects for `dims` dimensions"""
    it = Interp(prog, opaque=['integrate_init_1d', 'integrate_init_2d', 'integrate_init_3d', 'par_getd', 'ath_error'],
                effects={'ath_error': []},
                values={path('#0', 0, 'Nx', d): P(8 if d < dims else 1) for d in range(3)})
    it.run('integrate_init', None)
    out = set()
    for loops, guards, e in flatten(it.events):
        if e.k == 'ret':
            a = e.val.single_atom() if isinstance(e.val, sym.Poly) else None
            if a is not None and a.kind == 'fnref' and it.decide(c_and(*guards)) is not False:
                out.add(a.args[0])
    # the integrators of one build have distinct names per dimension
    cand = sorted(n for n in out if ('%dd' % dims) in n) or sorted(out)
    if not cand:
        raise AnalysisError('integrate_init returns no routine for %dD' % dims)
    return cand[0]


_cache = {}


def base_type(t):
    while t is not None and t[0] in ('ptr', 'arr'):
        t = t[1]
    return t


def summarise(cfg, dims, off=('StaticGravPot', 'CoolingFunc', 'ShearingBoxPot'), frozen='work', facts=(), opaque=(), effects=None, values=None):
    prog = Program(cfg)
    fn = integrator(prog, dims)
    vals = {(n, ()): P(0) for n in off}
    vals.update(values or {})
    if frozen == 'work':
        unit = prog.need(fn)[0]

        def fz(root):
            t = base_type(unit.globals.get(root)) if isinstance(root, str) else None
            return t != ('struct', 'Cons_s')
    else:
        fz = frozen
    eff = dict(EFFECTS)
    eff.update(effects or {})
    it = Interp(prog, opaque=OPAQUE + list(opaque), frozen=fz, effects=eff, assume=grid_facts(dims, R) + list(facts), values=vals)
    it.run(fn, None)
    return prog, fn, it


def cell(dims, q=None):
    """symbolic active cell index vector and its range facts"""
    idx, facts = [], []
    for a in range(3):
        if a < dims:
            idx.append(IDX[a])
            facts += [le(ST[a], IDX[a]), le(IDX[a], EN[a])]
        else:
            idx.append(ST[a])
    return idx, facts


def flux_calls(it):
    """[(loops, guards, event, dest root, dest index list i,j,k order)]"""
    out = []
    for loops, guards, e in flatten(it.events):
        if e.k == 'call' and e.name == 'fluxes':
            k = addr_key(e.args[-1])
            if k is None:
                continue
            out.append((loops, guards, e, k))
    return out


class Deep:
    """freeze all arrays, the state arrays of the grid included"""
    deep = True

    def __call__(self, root):
        return True
