"""The time step obeys the CFL condition and is the same everywhere."""
import re
import itertools
from ..integ import *
from .. import sym
from ..sym import c_implies, c_or, c_and, c_not, inv, sqrt, absv, maxv, atom, subst
from ..bounds import Bounds

RULE = ("new_dt is summarised (with the diffusive limit inlined); the MIN/MAX accumulators carried through the loops over levels, "
        "domains and cells give a set of upper bounds of the resulting pM->dt. For every active direction the bound "
        "CourNo*dx/(|v|+c_fast) of a generic active cell of a generic Grid must be among them whenever that direction is active; "
        "likewise the bounds from particle velocities, from diffusion coefficients, from twice the previous step and from the time "
        "left until tlim. With MPI rank-local data enters only through a minimum over all ranks, and every Grid gets pM->dt.")
ASSUMPTIONS = ["CourNo, cell sizes, density and Gamma are positive", "all ranks agree on time, nstep, the previous dt and the parameter file",
               "super time stepping (STS) is not covered"]
FLOORS = {'cfl': 40, 'growth': 8, 'tlim': 8, 'spread': 8}
CFG = [dict(gas='hydro'), dict(gas='hydro', eos='isothermal'), dict(gas='mhd'), dict(gas='mhd', eos='isothermal'), dict(gas='hydro', mpi=1),
       dict(gas='mhd', mpi=1), dict(gas='hydro', special_relativity=1), dict(gas='mhd', special_relativity=1, mpi=1), dict(gas='mhd', coord='cylindrical'),
       dict(gas='hydro', coord='cylindrical'), dict(gas='hydro', particles='passive'), dict(gas='hydro', particles='feedback', mpi=1),
       dict(gas='hydro', conduction=1), dict(gas='mhd', viscosity=1, mpi=1), dict(gas='mhd', conduction=1, viscosity=1),
       dict(gas='mhd', resistivity=1), dict(gas='mhd', resistivity=1, mpi=1), dict(gas='mhd', resistivity=1, conduction=1, viscosity=1)]


def tasks(tier):
    return [(Config(**kw).name, ('run', kw)) for kw in CFG]


NL, ND = S('nl'), S('nd')
G = ('#0', 0, 'Domain', NL, ND, 'Grid', 0)
IJK = [S('k'), S('j'), S('i')]
POS = re.compile(r"'d'|'dx\d?'|CourNo|Gamma|'dt'|Iso_cs|'r'|px1|NLevels|'E'|kappa|nu_|eta_O|eta_A|Q_Hall|%max|%min|'nparticle'|'Nx'|'minx'|'maxx'|'Domains")


def gr(*e):
    return ld(*(G + e))


def comm(args, k, name):
    a = args[k].single_atom()
    return a is not None and name in repr(a.args)


def allreduce(it, n, args, types):
    if len(args) < 6 or args[2] != sym.ONE or not (comm(args, 3, 'MPI_DOUBLE') or comm(args, 3, 'MPI_RL')) or not comm(args, 5, 'MPI_COMM_WORLD'):
        return None
    op = 'all-min' if comm(args, 4, 'MPI_MIN') else 'all-max' if comm(args, 4, 'MPI_MAX') else None
    a, b = args[0].single_atom(), args[1].single_atom()
    if op is None or b is None or b.kind != 'addr':
        return None
    if a is not None and a.kind == 'addr':
        v = it.load(a.args[0], DBL)
    elif comm(args, 0, 'MPI_IN_PLACE'):
        v = it.load(b.args[0], DBL)
    else:
        return None
    it.store(b.args[0], DBL, P(atom('fn', op, v)), n)
    return ZERO, ('int',)


def rank_local(p, seen):
    """a value of this rank's Grids reached outside a reduction over all ranks"""
    for a in p.atoms():
        r = rank_local_atom(a, seen)
        if r is not None:
            return r
    return None


def rank_local_atom(a, seen):
    if a.id in seen:
        return None
    seen.add(a.id)
    if a.kind == 'fn' and a.args[0] in ('all-min', 'all-max'):
        return None
    if a.kind in ('ld', 'rd', 'rs') and any(x == ('f', 'Grid') for x in a.args[0][1] if a.kind == 'ld'):
        return a
    if a.kind in ('lout', 'red', 'call', 'unk', 'in'):
        return a
    def walk(x):
        if isinstance(x, sym.Poly):
            return rank_local(x, seen)
        if isinstance(x, sym.Atom):
            return rank_local_atom(x, seen)
        if isinstance(x, (tuple, list, frozenset, set)):
            for y in x:
                r = walk(y)
                if r is not None:
                    return r
        return None
    for x in a.args:
        r = walk(x)
        if r is not None:
            return r
    return None


def rename(t, it, B):
    """term with its binders renamed to nl, nd, (k,j,i) or q; None if a binder has another range"""
    m, names = {}, []
    todo = list(t.b)
    for v, lo, hi in todo:
        lo, hi = subst(lo, m), subst(hi, m)
        if (lo, hi) == (ZERO, ld('#0', 0, 'NLevels') - 1) and 'nl' not in names:
            m[v] = NL
            names.append('nl')
        elif (lo, hi) == (ZERO, ld('#0', 0, 'DomainsPerLevel', NL) - 1) and 'nl' in names and 'nd' not in names:
            m[v] = ND
            names.append('nd')
        elif 'nd' in names and (lo, hi) == (ZERO, gr('nparticle') - 1):
            m[v] = S('q')
            names.append('q')
        elif 'nd' in names:
            for a, (s, e) in enumerate((('ks', 'ke'), ('js', 'je'), ('is', 'ie'))):
                if (lo, hi) == (gr(s), gr(e)):
                    m[v] = IJK[a]
                    names.append('kji'[a])
                    break
            else:
                return None
        else:
            return None
    return subst(t.v, m), B.csub(t.g, m), frozenset(names)


GLOBAL = frozenset()
CELL = frozenset(['nl', 'nd', 'k', 'j', 'i'])
PART = frozenset(['nl', 'nd', 'q'])
GRID = frozenset(['nl', 'nd'])


def judge(rec, rule, where, terms, names, want, cond, what, dt=None, boost=None):
    """some bound over `names` is at most `want` whenever cond holds"""
    cand = [(v, g) for v, g, n in terms if n <= names]
    cand.sort(key=lambda x: len(repr(x[0].t)))
    hit = []
    for v, g in cand:
        if sym.deps_kind(v, ('lout', 'red', 'in', 'unk', 'call')):
            continue
        r = ratio(v, want)
        if r is not None and r >= 1:
            hit.append(g)
            if any(h is True for h in hit) or c_implies(cond, c_or(*hit)):
                rec.ok(rule, '%s: %s' % (where, what))
                return
    if dt is not None and refuted(dt, want, cond):
        rec.bad(rule, where, '%s does not limit the time step: required dt <= %s, the result is %s' % (what, show(want)[:200], show(dt)[:600]))
        return
    # look for a state in which no bound of this kind is small enough
    import mpmath
    asg = {}
    for l in sym.c_lits(cond):
        pass
    good = [(v, g) for v, g in cand if not sym.deps_kind(v, ('lout', 'red', 'in', 'unk', 'call'))]
    with mpmath.workdps(50):
        n = 0
        for seed in range(60):
            try:
                val = sym.Valuation(seed, pos=POS, boost=re.compile(boost) if boost and seed % 2 else None)
                force(val, cond)
                if not val.cond(cond):
                    continue
                w = val.poly(want)
                if w <= 0:
                    continue
                best = [val.poly(v) for v, g in good if holds(val, g)]
            except sym._CantEval:
                continue
            n += 1
            best = [b for b in best if b > 0]
            if not best or min(best) > w * (1 + mpmath.mpf(10) ** -9):
                rec.bad(rule, where, '%s does not limit the time step: required dt <= %s; %s' % (
                    what, show(want)[:400], ('closest bound found: ' + show(min(good, key=lambda x: abs(val.poly(x[0]) - w))[0])[:400]) if good else 'no bound of this kind found'))
                return
    rec.undecided(rule, where, '%s: no bound proved (%d candidates, %d states tried)' % (what, len(good), n))


class Free(sym.Valuation):
    """the accumulated maxima over the Mesh may be anything positive"""
    REFUSE = sym.Valuation.REFUSE - {'lout', 'red'}


def refuted(dt, want, cond):
    import mpmath
    with mpmath.workdps(50):
        for seed in range(60):
            val = Free(seed, pos=re.compile(POS.pattern + '|lout|red'))
            try:
                force(val, cond)
                if val.cond(cond) and val.poly(want) > 0 and val.poly(dt) > val.poly(want) * (1 + mpmath.mpf(10) ** -9):
                    return True
            except sym._CantEval:
                continue
    return False


def holds(val, g):
    try:
        return val.cond(g)
    except sym._CantEval:
        return True


def force(val, cond):
    """make the conjuncts of cond true in the valuation"""
    if cond is True:
        return
    for c in (cond[1] if cond[0] == 'and' else [cond]):
        if c[0] == 'lit':
            val.assume[c[1]] = c[2]


def ratio(v, want):
    """want / v if that is a constant"""
    if v == want:
        return 1
    import mpmath
    from fractions import Fraction
    with mpmath.workdps(50):
        rs = set()
        for seed in range(4):
            try:
                val = sym.Valuation(seed, pos=POS)
                x = val.poly(v)
                if x == 0:
                    return None
                rs.add(mpmath.nstr(val.poly(want) / x, 20))
            except sym._CantEval:
                continue
        if len(rs) != 1:
            return None
        r = Fraction(rs.pop()).limit_denominator(1000)
    if sym.equal_values(v * P(r), want) is True:
        return r
    return None


def run(rec, kw):
    cfg = Config(**kw)
    prog = Program(cfg)
    it = Interp(prog, opaque=['ath_error', 'par_getd', 'get_eta', 'par_geti', 'get_N_STS'],
                effects={'ath_error': [], 'get_eta': []}, callbacks={'MPI_Allreduce': allreduce})
    it.run('new_dt', None)
    rec.fn('new_dt', *(['new_dt_diff'] if any(cfg.has(f) for f in ('conduction', 'viscosity', 'resistivity')) else []))
    rec.add_stats(it)
    dt = it.load(path('#0', 0, 'dt'), DBL)
    B = Bounds(it)
    terms = {}
    for t in B.of(dt, True):
        r = rename(t, it, B)
        if r is not None:
            terms[(r[0], r[2])] = c_or(terms.get((r[0], r[2]), False), r[1])
    terms = [(v, g, n) for (v, n), g in terms.items()]
    where = 'new_dt'
    there = c_not(eq(base(*G), 0)) if False else c_not(sym.c_eq0(base(*(G[:-1]))))
    C = ld('CourNo')
    mhd, iso, sr = cfg['gas'] == 'mhd', cfg['eos'] == 'isothermal', cfg.has('special-relativity')
    U = lambda f: gr('U', *(IJK + [f]))
    if not sr:
        v = [U('M%d' % a) * inv(U('d')) for a in (1, 2, 3)]
        di = inv(U('d'))
        ke = U('d') * (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) * P(sym.Fraction(1, 2))
        b = []
        bsq = ZERO
        if mhd:
            b = [absv(U('B%dc' % a)) + absv(gr('B%di' % a, *IJK) - U('B%dc' % a)) for a in (1, 2, 3)]
            bsq = b[0] * b[0] + b[1] * b[1] + b[2] * b[2]
        if iso:
            asq = ld('Iso_csound2')
        else:
            asq = ld('Gamma') * maxv(ld('Gamma_1') * (U('E') - ke - bsq * P(sym.Fraction(1, 2))), TINY) * di
    for a in range(3):
        dx = gr('dx%d' % (a + 1))
        cond = c_and(there, c_not(c_le0(gr('Nx', a) - 1, True)))
        if sr:
            speed = sym.ONE
        else:
            cf = asq
            if mhd:
                ts, td = bsq * di + asq, bsq * di - asq
                oth = [b[q] * b[q] for q in range(3) if q != a]
                cf = (ts + sqrt(td * td + P(4) * asq * (oth[0] + oth[1]) * di)) * P(sym.Fraction(1, 2))
            speed = absv(v[a]) + sqrt(cf)
            if a == 1 and cfg['coord'] == 'cylindrical':
                speed = speed * inv(radius(prog))
        judge(rec, 'cfl', where, resolved(terms, cond), CELL if not sr else GRID, C * dx * inv(speed), cond, 'the fastest wave of a cell in direction %d' % (a + 1), boost="'M%d'" % (a + 1))
        if cfg['particles'] != 'none':
            pv = absv(gr('particle', S('q'), 'v%d' % (a + 1)))
            judge(rec, 'particles', where, terms, PART, C * dx * inv(pv), cond, 'the velocity of a particle in direction %d' % (a + 1), boost="'v%d'" % (a + 1))
    judge(rec, 'growth', where, terms, GLOBAL, P(2) * ld('#0', 0, 'dt'), c_and(c_not(sym.c_eq0(ld('#0', 0, 'nstep'))), c_not(c_le0(ld('#0', 0, 'nstep'), True))), 'twice the previous time step', dt)
    tlim = P(atom('fn', 'par_getd', *TLIM))
    for t in dt_atoms(dt):
        if t.kind == 'fn' and t.args[0] == 'par_getd' and 'tlim' in repr(t.args):
            tlim = P(t)
    left = tlim - ld('#0', 0, 'time')
    judge(rec, 'tlim', where, terms, GLOBAL, left, sym.c_lt0(-left), 'the time left until tlim', dt)
    diffusion(rec, cfg, terms, where, there, C)
    spread(rec, it, dt, where)
    if cfg.has('mpi'):
        r = rank_local(dt, set())
        rec.expect(r is None, 'uniform', where, 'the time step depends on data of this rank only: %s' % (sym.show_atom(r)[:200] if r is not None else 'no'))


TLIM = ()
TINY = P(sym.Fraction(1, 10 ** 20))


def dt_atoms(p, seen=None):
    seen = set() if seen is None else seen
    out = []

    def walk(x):
        if isinstance(x, sym.Poly):
            for a in x.atoms():
                walk(a)
        elif isinstance(x, sym.Atom):
            if x.id in seen:
                return
            seen.add(x.id)
            out.append(x)
            for y in x.args:
                walk(y)
        elif isinstance(x, (tuple, list, frozenset, set)):
            for y in x:
                walk(y)
    walk(p)
    return out


def radius(prog):
    """x1 of the cell centre as cc_pos computes it"""
    it = Interp(prog)
    it.cells[('%O1', ())] = ZERO
    it.run('cc_pos', None, args=[P(atom('base', (G[0], path(*G)[1][:-1]))), IJK[2], IJK[1], IJK[0], None, None, None])
    return it.load(('#4', (('i', ZERO),)), DBL)


def diffusion(rec, cfg, terms, where, there, C):
    lev = P(atom('fn', 'pow', P(2), ld('#0', 0, 'NLevels') - 1))
    half = sym.Fraction(1, 2)
    for nd in (1, 2, 3):
        M = [ld('#0', 0, 'Nx', a) for a in range(3)]
        mcond = c_and(*[(c_not(c_le0(M[a] - 1, True)) if a < nd else c_le0(M[a] - 1, True)) for a in (1, 2)])
        dxm = sym.minv(*[ld('#0', 0, 'dx', a) * inv(lev) for a in range(nd)])
        for flag, names in (('conduction', ('kappa_iso', 'kappa_aniso')), ('viscosity', ('nu_iso', 'nu_aniso'))):
            if cfg.has(flag):
                want = C * dxm * dxm * P(sym.Fraction(1, 2 * nd)) * inv(ld(names[0]) + ld(names[1]))
                judge(rec, 'diffusion', where, resolved(terms, mcond), GLOBAL, want, mcond, '%s in %dD' % (flag, nd), boost='kappa' if flag == 'conduction' else 'nu_')
        if cfg.has('resistivity'):
            N = [gr('Nx', a) for a in range(3)]
            gcond = c_and(there, *[(c_not(c_le0(N[a] - 1, True)) if a < nd else c_le0(N[a] - 1, True)) for a in (1, 2)])
            dxg = sym.minv(*[gr('dx%d' % (a + 1)) for a in range(nd)])
            want = C * dxg * dxg * P(sym.Fraction(1, 2 * nd)) * inv(gr('eta_Ohm', *IJK) + gr('eta_AD', *IJK))
            judge(rec, 'diffusion', where, resolved(terms, gcond), CELL, want, gcond, 'Ohmic and ambipolar resistivity of a cell in %dD' % nd, boost='eta_')
            want = C * dxg * dxg * P(sym.Fraction(1, 2 * nd)) * inv(absv(gr('eta_Hall', *IJK)))
            hc = c_and(gcond, sym.c_lt0(-ld('Q_Hall')))
            judge(rec, 'diffusion', where, resolved(terms, gcond), CELL, want, hc, 'Hall resistivity of a cell in %dD' % nd, boost='eta_H')


def resolved(terms, cond):
    asg = {c[1]: c[2] for c in (cond[1] if cond[0] == 'and' else [cond])}
    out = []
    for v, g, n in terms:
        g = sym.c_eval(g, asg)
        if g is not False:
            out.append((sym.resolve(v, asg), g, n))
    return out


def spread(rec, it, dt, where):
    """every Grid gets the final pM->dt"""
    there = c_not(sym.c_eq0(base(*(G[:-1]))))
    facts = [le(0, NL), le(NL, ld('#0', 0, 'NLevels') - 1), le(0, ND), le(ND, ld('#0', 0, 'DomainsPerLevel', NL) - 1), there]
    v = post(it, path(*(G + ('dt',))), DBL, facts)
    # the gate of the store still names the loops' own variables
    for a in dt_atoms(v):
        if a.kind == 'eq0':
            lv = [x for x in dt_atoms(a.args[0]) if x.kind == 'lv']
            if any(subst(a.args[0], dict(zip(q, (NL, ND)))) == base(*(G[:-1])) for q in itertools.permutations(lv, 2)):
                v = sym.resolve(v, {a: False})
    r = sym.equal_values(v, dt)
    if r is None:
        rec.undecided('spread', where, 'dt of a Grid: %s' % show(v)[:200])
    else:
        rec.expect(bool(r), 'spread', where, 'the time step of a Grid is %s instead of that of the mesh %s' % (show(v)[:300], show(dt)[:300]) if not r else 'every Grid gets the time step of the mesh')
