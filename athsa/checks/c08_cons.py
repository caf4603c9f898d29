"""Conservative update of the gas variables by the grid integrators."""
from ..integ import *
from ..check import has_opaque
from ..sym import show, subst
from .. import sym

RULE = ("The integrator selected by integrate_init is summarised (helpers inlined; reconstruction, Riemann solver and "
        "variable conversion opaque). The final value of every conserved variable at a symbolic active cell is a "
        "polynomial in the face fluxes; rules: each direction contributes through exactly the two faces of the cell, "
        "with opposite weights +-dt/dx (times the area/volume ratio in cylindrical geometry), with the component of the "
        "flux that belongs to the variable; nothing else is added when no source term is switched on; the faces a "
        "cell reads were computed by a Riemann call covering them; fluxes are not modified once the update began; "
        "gravitational source terms have the required potential differences; self-gravity momentum terms are a "
        "discrete divergence (their discrete variational derivative vanishes).")
ASSUMPTIONS = ["active directions hold at least nghost cells", "work arrays declared separately do not overlap",
               "floating-point arithmetic is treated as exact"]
FLOORS = {'update': 60, 'flux-range': 12, 'flux-args': 12, 'flux-stable': 6, 'grav-source': 8, 'half-step': 10}

CONFIGS = [
    (dict(gas='mhd', nscalars=2), (1, 2, 3)),
    (dict(gas='hydro', eos='isothermal', nscalars=1), (1, 2, 3)),
    (dict(gas='mhd', nscalars=1, integrator='vl'), (1, 2, 3)),
    (dict(gas='hydro', nscalars=2, integrator='vl'), (1, 2, 3)),
    (dict(gas='hydro', special_relativity=1, integrator='vl', order='2p'), (1, 2, 3)),
    (dict(gas='mhd', special_relativity=1, integrator='vl', order='2p'), (1, 2, 3)),
    (dict(gas='hydro', coord='cylindrical', nscalars=1), (1, 2, 3)),
    (dict(gas='mhd', coord='cylindrical', nscalars=1), (2, 3)),
    (dict(gas='mhd', coord='cylindrical', integrator='vl', nscalars=1), (1, 2, 3)),
]
MORE = [
    (dict(gas='hydro', nscalars=1), (1, 2, 3)),
    (dict(gas='mhd', eos='isothermal', nscalars=1), (1, 2, 3)),
    (dict(gas='mhd', eos='isothermal', nscalars=1, integrator='vl'), (1, 2, 3)),
    (dict(gas='hydro', eos='isothermal', nscalars=1, integrator='vl'), (1, 2, 3)),
    (dict(gas='hydro', flux='roe', h_correction=1), (2, 3)),
    (dict(gas='mhd', h_correction=1, integrator='vl'), (2, 3)),
    (dict(gas='mhd', nscalars=1, smr=1), (1, 2, 3)),
    (dict(gas='mhd', nscalars=1, smr=1, integrator='vl'), (1, 2, 3)),
    (dict(gas='hydro', eos='isothermal', coord='cylindrical'), (1, 2, 3)),
    (dict(gas='hydro', coord='cylindrical', integrator='vl'), (1, 2, 3)),
    (dict(gas='mhd', order='2'), (1, 2, 3)),
    (dict(gas='mhd', nscalars=1, mpi=1), (1, 2, 3)),
]
GRAV = [(dict(gas='hydro', nscalars=1), (1, 2, 3)), (dict(gas='mhd'), (1, 2, 3)), (dict(gas='mhd', integrator='vl'), (1, 2, 3))]
SGRAV = [(dict(gas='hydro', gravity='fft'), (1, 2, 3)), (dict(gas='mhd', gravity='fft'), (1, 2, 3)),
         (dict(gas='mhd', gravity='fft', integrator='vl'), (1, 2, 3))]


def tasks(tier):
    out = []
    for kw, dd in CONFIGS + MORE:
        for d in dd:
            out.append(('update %dD %s' % (d, Config(**kw).name), ('update', kw, d)))
    for kw, dd in GRAV:
        for d in dd:
            out.append(('gravity %dD %s' % (d, Config(**kw).name), ('gravity', kw, d)))
    for kw, dd in SGRAV:
        for d in dd:
            out.append(('selfgrav %dD %s' % (d, Config(**kw).name), ('selfgrav', kw, d)))
    return out


def comp(fld, a):
    """field of the 1D flux along axis a that belongs to conserved variable fld"""
    n = fld[0]
    if n in ('M1', 'M2', 'M3'):
        return (('f', ('Mx', 'My', 'Mz')[(int(n[1]) - 1 - a) % 3]),)
    if n in ('B1c', 'B2c', 'B3c'):
        q = (int(n[1]) - 1 - a) % 3
        return None if q == 0 else (('f', ('', 'By', 'Bz')[q]),)
    if n == 's':
        return (('f', 's'), ('i', P(fld[1])))
    return (('f', n),)


def flux_roots(calls):
    out = {}
    for loops, guards, e, k in calls:
        out.setdefault(k[0][0], []).append((loops, guards, e, k))
    return out


def geometric(m, skip):
    for ai, pw in m:
        a = sym.atom_by_id(ai)
        if ai != skip and not (a.kind == 'ld' and a.args[0][0] == '#0' and [x[1] for x in a.args[0][1] if x[0] == 'f'][-1] in
                               ('dt', 'dx1', 'dx2', 'dx3', 'r', 'ri')):
            return False
    return True


def split(delta, roots, dims, pure=False):
    """terms linear in a flux atom -> {(root, idx, comp): coefficient}, rest"""
    terms, rest = {}, P(0)
    for m, c in delta.t.items():
        hit = None
        for ai, pw in m:
            a = sym.atom_by_id(ai)
            if a.kind == 'ld' and a.args[0][0] in roots and pw == 1 and hit is None:
                hit = a
        if hit is None or pure and not geometric(m, hit.id):
            rest = rest + sym.Poly({m: c})
            continue
        els = hit.args[0][1]
        n = 0
        while n < len(els) and els[n][0] == 'i':
            n += 1
        idx = tuple(x[1] for x in els[:n])[::-1]      # i, j, k
        key = (hit.args[0][0], idx, els[n:])
        cf = sym.Poly({tuple(x for x in m if x[0] != hit.id): c})
        terms[key] = terms.get(key, P(0)) + cf
    return terms, rest


def weights(cfg, a, fld, idx, upper):
    """dt * area/volume at the lower/upper face of the cell along a"""
    w = DT * sym.inv(DX[a])
    if cfg['coord'] != 'cylindrical':
        return w
    r = gl('r', idx[0])
    if a == 0:
        ri = gl('ri', idx[0] + (1 if upper else 0))
        w = w * ri * sym.inv(r)
        if fld[0] == 'M2':
            w = w * ri * sym.inv(r)
        if fld[0] in ('B2c',):      # dB_phi/dt is not weighted by r
            w = DT * sym.inv(DX[a])
    elif a == 1:
        w = w * sym.inv(r)
    return w


def expected(cfg, dims, fld, idx, axes, u0, scale=1):
    v = u0
    for a in range(dims):
        c = comp(fld, a)
        if c is None or axes.get(a) is None:
            continue
        root, nd = axes[a]
        for up in (0, 1):
            ix = [idx[q] + (1 if up and q == a else 0) for q in range(3)][:nd]
            f = P(atom('ld', (root, tuple(('i', x) for x in reversed(ix)) + c), 0))
            w = weights(cfg, a, fld, idx, up) * scale
            v = v + (-w if up else w) * f
    return v


def find_axes(terms, idx, dims):
    """root -> axis, from the faces the density update reads"""
    axes = {}
    for (root, ix, c) in terms:
        for a in range(min(dims, len(ix))):
            if ix[a] == idx[a] + 1 and all(ix[q] == idx[q] for q in range(len(ix)) if q != a):
                axes.setdefault(a, set()).add((root, len(ix)))
    return axes


def update(rec, kw, dims):
    cfg = Config(**kw)
    prog, fn, it = summarise(cfg, dims)
    rec.fn(fn)
    rec.add_stats(it)
    calls = flux_calls(it)
    roots = flux_roots(calls)
    if not roots:
        raise AnalysisError('no Riemann solver call in ' + fn)
    idx, facts = cell(dims)
    ax = axes_of(rec, it, cfg, dims, fn, roots, idx, facts)
    if ax is None:
        return
    for fld in cons_fields(cfg):
        if fld[0] in ('B1c', 'B2c', 'B3c') and int(fld[0][1]) <= dims and dims > 1:
            continue
        if fld == ('B1c',):
            continue
        w = '%s: %s' % (fn, '.'.join(map(str, fld)))
        u0 = gl('U', idx[2], idx[1], idx[0], *fld)
        got = post(it, gp('U', idx[2], idx[1], idx[0], *fld), DBL, facts)
        want = expected(cfg, dims, fld, idx, ax, u0)
        if cfg['coord'] == 'cylindrical' and (fld == ('M1',) or fld[0][0] == 'B'):
            # geometric source terms are not flux differences: compare the flux part only
            t1, r1 = split(got - u0, roots, dims, True)
            t2, _ = split(want - u0, roots, dims)
            cmp_terms(rec, w, got, t1, t2)
            continue
        cmp_update(rec, 'update', w, got, want)
    half_step(rec, it, cfg, dims, fn, roots, idx, facts)
    flux_rules(rec, it, cfg, dims, fn, calls, roots, ax)


def cmp_terms(rec, w, got, t1, t2):
    if has_opaque(got):
        rec.undecided('update', w, 'computed ' + show(got)[:300])
        return
    bad = [k for k in set(t1) | set(t2) if sym.ratnorm(t1.get(k, P(0)) - t2.get(k, P(0))) != P(0)]
    if bad:
        rec.bad('update', w, 'flux terms differ: ' + '; '.join('%s[%s]%s weight %s, required %s' % (
            k[0], ','.join(show(x) for x in k[1]), k[2][0][1], show(t1.get(k, P(0))), show(t2.get(k, P(0)))) for k in bad[:4]))
    else:
        rec.ok('update', w + ' flux terms')


def cmp_update(rec, rule, w, got, want):
    r = sym.equal_values(got, want)
    if r:
        rec.ok(rule, w)
    elif r is None or has_opaque(got):
        rec.undecided(rule, w, 'computed %s, required %s' % (show(got)[:400], show(want)[:300]))
    else:
        rec.bad(rule, w, 'after the update the cell holds %s; a conservative update requires %s (difference %s)' % (
            show(got)[:500], show(want)[:400], show(got - want)[:300]))


def axes_of(rec, it, cfg, dims, fn, roots, idx, facts):
    u0 = gl('U', idx[2], idx[1], idx[0], 'd')
    got = post(it, gp('U', idx[2], idx[1], idx[0], 'd'), DBL, facts)
    terms, rest = split(got - u0, roots, dims)
    cand = find_axes(terms, idx, dims)
    ax = {}
    w = fn + ': d'
    for a in range(dims):
        c = sorted(cand.get(a, ()))
        if len(c) != 1:
            if has_opaque(got):
                rec.undecided('update', w, 'computed ' + show(got)[:400])
                return None
            rec.bad('update', w, 'density update reads %d flux arrays across the upper face of direction %d (%s): %s' % (
                len(c), a + 1, c, show(got)[:500]))
            return None
        ax[a] = c[0]
    return ax


def half_step(rec, it, cfg, dims, fn, roots, idx, facts):
    """predictor states held in ConsS work arrays obey the same form with dt/2"""
    unit = it.prog.need(fn)[0]
    first = None
    for name, t in sorted(unit.globals.items()):
        if base_type(t) != ('struct', 'Cons_s') or name in ('Flxiib', 'Flxoib', 'rFlxiib', 'rFlxoib'):
            continue
        nd = 0
        tt = t
        while tt[0] == 'ptr':
            nd += 1
            tt = tt[1]
        if nd != dims or not any(k[0] == name for k in it.log):
            continue
        if cfg.has('special-relativity') or cfg['coord'] == 'cylindrical':
            continue
        pidx = [('i', x) for x in reversed(idx[:dims])]
        got = it and post(it, (name, tuple(pidx) + (('f', 'd'),)), DBL, facts)
        u0 = gl('U', idx[2], idx[1], idx[0], 'd')
        terms, rest = split(got - u0, roots, dims)
        cand = find_axes(terms, idx, dims)
        ax = {a: sorted(c)[0] for a, c in cand.items() if len(c) == 1}
        if len(ax) != dims:
            rec.undecided('half-step', fn, '%s.d = %s' % (name, show(got)[:300]))
            continue
        for fld in cons_fields(cfg):
            if fld[0][0] == 'B':
                continue
            els = tuple(('f', x) if isinstance(x, str) else ('i', P(x)) for x in fld)
            got = post(it, (name, tuple(pidx) + els), DBL, facts)
            want = expected(cfg, dims, fld, idx, ax, gl('U', idx[2], idx[1], idx[0], *fld), scale=sym.P(1) * sym.inv(P(2)))
            cmp_update(rec, 'half-step', '%s: %s.%s' % (fn, name, '.'.join(map(str, fld))), got, want)


def loop_range(loops, x):
    """range of an index expression var+c under the enclosing loops"""
    for l in loops:
        if l.var is None:
            continue
        c = x - P(l.var)
        if not (c.deps & {l.var.id if hasattr(l.var, 'id') else l.var.single_atom().id}):
            return l.lo + c, l.hi + c
    return x, x


def flux_rules(rec, it, cfg, dims, fn, calls, roots, ax):
    from ..interp import prove_ge0
    useq = None
    for loops, guards, e in flatten(it.events):
        if e.k == 'store' and e.path[0] == '#0' and ('f', 'U') in e.path[1] and e.path[1][-1] == ('f', 'd') and not guards:
            useq = e.seq if useq is None else min(useq, e.seq)
    for a, (root, nd) in sorted(ax.items()):
        evs = roots[root]
        w = '%s: %s' % (fn, root)
        # coverage by one of the calls
        best = None
        for loops, guards, e, k in evs:
            idx = [x[1] for x in k[0][1] if x[0] == 'i'] + [k[1]]
            idx = idx[::-1]
            ok = True
            for q in range(min(dims, len(idx))):
                lo, hi = loop_range(loops, idx[q])
                need = EN[q] + (1 if q == a else 0)
                if not (it.prove_ge0(ST[q] - lo) and it.prove_ge0(hi - need)):
                    ok = False
            if ok and (best is None or e.seq > best[0].seq):
                best = (e, loops)
        last = max(evs, key=lambda x: x[2].seq)
        if best is None or best[0] is not last[2]:
            rec.bad('flux-range', last[2].coord + ' ' + w, 'the last Riemann call filling %s does not cover every face of the active cells: %s' % (
                root, ', '.join('%s in [%s,%s]' % (show(P(l.var)), show(l.lo), show(l.hi)) for l in last[0] if l.var is not None)))
        else:
            rec.ok('flux-range', w)
        for loops, guards, e, k in evs:
            idx = [x[1] for x in k[0][1] if x[0] == 'i'] + [k[1]]
            bad = []
            for arg in e.args[:-1]:
                ats = []
                if isinstance(arg, sym.Poly):
                    ats = [x for x in arg.atoms() if x.kind == 'ld']
                else:
                    for sfx, v in arg:
                        if isinstance(v, sym.Poly):
                            ats += [x for x in v.atoms() if x.kind == 'ld']
                for x in ats:
                    if isinstance(x.args[0][0], str) and x.args[0][0][0] in '#%$':
                        continue
                    ii = []
                    for y in x.args[0][1]:
                        if y[0] != 'i':
                            break
                        ii.append(y[1])
                    if not all(y in idx for y in ii) or len(ii) == len(idx) and ii != idx:
                        bad.append(show(P(x)))
            rec.expect(not bad, 'flux-args', '%s %s' % (e.coord, w), 'face states come from the face being solved' if not bad else
                       'flux at face [%s] is computed from %s' % (']['.join(show(x) for x in idx), ', '.join(bad[:3])))
        late = []
        if useq is not None:
            for loops, guards, e in flatten(it.events):
                if e.k == 'store' and e.path[0] == root and e.seq > useq:
                    late.append(e.coord)
            late += [e.coord for _, _, e, _ in evs if e.seq > useq]
        rec.expect(not late, 'flux-stable', w, 'not modified after the update begins' if not late else
                   'modified at %s after the update of the cells has begun' % late[0])


# ------------------------------------------------------------------ gravity
def gravity(rec, kw, dims):
    cfg = Config(**kw)
    prog, fn, it = summarise(cfg, dims, off=('CoolingFunc', 'ShearingBoxPot'), facts=[])
    rec.fn(fn)
    rec.add_stats(it)
    calls = flux_calls(it)
    roots = flux_roots(calls)
    idx, facts = cell(dims)
    ax = axes_of(rec, it, cfg, dims, fn, roots, idx, facts)
    if ax is None:
        return
    gp0 = c_not(c_eq(it))
    pot = {}
    for loops, guards, e in flatten(it.events):
        if e.k == 'call' and e.name is None and e.fnval is not None and 'StaticGravPot' in show(e.fnval):
            a = e.res.single_atom() if isinstance(e.res, sym.Poly) else None
            if a is not None:
                pot[a] = (loops, e)
    for fld in [('M1',), ('M2',), ('M3',)] + ([('E',)] if cfg['eos'] != 'isothermal' else []):
        w = '%s: %s with a static potential' % (fn, fld[0])
        u0 = gl('U', idx[2], idx[1], idx[0], *fld)
        got = post(it, gp('U', idx[2], idx[1], idx[0], *fld), DBL, facts)
        got = sym.resolve(got, {x: False for x in sym.ite_atoms(got) if 'StaticGravPot' in show(P(x)) or True and x.kind == 'eq0'})
        src = got - expected(cfg, dims, fld, idx, ax, u0)
        check_pot(rec, it, w, src, fld, dims, idx, ax, pot)


def c_eq(it):
    return True


def offset(args, dims, pot_center):
    o = []
    for q in range(3):
        o.append(args[q] - pot_center[q])
    return o


def check_pot(rec, it, w, src, fld, dims, idx, ax, pot):
    if has_opaque(src) and not all(a.kind != 'unk' for a in src.atoms()):
        rec.undecided('grav-source', w, show(src)[:300])
        return
    # group by potential evaluation
    terms = {}
    rest = P(0)
    for m, c in src.t.items():
        hit = None
        for ai, pw in m:
            a = sym.atom_by_id(ai)
            if a in pot:
                hit = a
        if hit is None:
            rest = rest + sym.Poly({m: c})
            continue
        cf = sym.Poly({tuple(x for x in m if x[0] != hit.id): c})
        terms[hit] = terms.get(hit, P(0)) + cf
    if fld[0] in ('M1', 'M2', 'M3') and int(fld[0][1]) > dims:
        rec.expect(src == P(0), 'grav-source', w, 'no source along an inactive direction' if src == P(0) else 'unexpected source ' + show(src)[:300])
        return
    if rest != P(0):
        rec.undecided('grav-source', w, 'terms without potential: ' + show(rest)[:300])
        return
    # offsets of the evaluation points from the cell centre
    byoff = {}
    for a, cf in terms.items():
        loops, e = pot[a]
        m = {}
        for l in loops:
            if l.var is None:
                continue
        o = point(it, e, loops, idx, dims)
        if o is None:
            rec.undecided('grav-source', w, 'evaluation point of the potential not recognised: ' + show(e.args[0])[:200])
            return
        byoff[o] = byoff.get(o, P(0)) + cf
    want = {}
    z = (0, 0, 0)
    for a in range(dims):
        up = tuple(1 if q == a else 0 for q in range(3))
        dn = tuple(-1 if q == a else 0 for q in range(3))
        wt = DT * sym.inv(DX[a])
        root, nd = ax[a]

        def F(u):
            ix = [idx[q] + (1 if u and q == a else 0) for q in range(3)][:nd]
            return P(atom('ld', (root, tuple(('i', x) for x in reversed(ix)) + (('f', 'd'),)), 0))
        if fld[0] == 'E':
            want[up] = -wt * F(1)
            want[dn] = wt * F(0)
            want[z] = want.get(z, P(0)) + wt * (F(1) - F(0))
        elif int(fld[0][1]) == a + 1:
            want[up] = ('mom', -wt)
            want[dn] = ('mom', wt)
    rho = None
    for o in set(want) | set(byoff):
        g = byoff.get(o, P(0))
        t = want.get(o, P(0))
        if isinstance(t, tuple):
            q = sym.div(g, t[1])
            if rho is None:
                rho = q
            good = q == rho and q != P(0) and dens_like(q, idx, dims)
            rec.expect(good, 'grav-source', w, ('weight of the potential at offset %s/2 ok' % (o,)) if good else
                       'weight of the potential at offset %s/2 is %s, required (time-centred cell density)*%s' % (o, show(g)[:250], show(t[1])))
        else:
            d = sym.ratnorm(g - t)
            rec.expect(d == P(0), 'grav-source', w, ('weight of the potential at offset %s/2 ok' % (o,)) if d == P(0) else
                       'weight of the potential at offset %s/2 is %s, required %s' % (o, show(g)[:250], show(t)[:250]))


def dens_like(q, idx, dims):
    """a density of this cell (any work array or field, same cell index)"""
    a = q.single_atom()
    if a is None:
        # inlined half-step density: must contain the cell's own density with weight 1
        return any(len(m) == 1 and m[0][1] == 1 and c == 1 and is_d(sym.atom_by_id(m[0][0]), idx, dims) for m, c in q.t.items())
    return is_d(a, idx, dims, True)


def is_d(a, idx, dims, work=False):
    if a.kind != 'ld':
        return False
    ii = [x[1] for x in a.args[0][1] if x[0] == 'i' and not x[1].is_const()][-dims:]
    want = [x for x in reversed(idx[:dims])]
    ii = [x for x in ii if x in want or True][-dims:]
    return ii == want


def point(it, e, loops, idx, dims):
    """offset, in half cells, of the evaluation point of a potential from the
    centre of cell (i,j,k) given by the loop indices at the call"""
    out = []
    lv = [P(l.var) for l in loops if l.var is not None]
    for q in range(3):
        x = e.args[q]
        if q >= dims:
            # coordinate of the single plane: must not involve loop indices
            out.append(0)
            continue
        # x = MinX + (idx - disp - st)*dx + (1/2 + o/2)*dx
        dx = DX[q]
        hit = None
        for v in lv:
            a = v.single_atom()
            cf = x.coef_of(a) if hasattr(x, 'coef_of') else None
            if a.id in x.deps:
                hit = v
        if hit is None:
            return None
        base = subst(x, {hit.single_atom(): ST[q]}) if False else x
        r = x - hit * dx
        # constant multiple of dx
        c = None
        for m, k in r.t.items():
            if m == ((dx.single_atom().id, 1),):
                c = k
        c = 0 if c is None else c
        o2 = (c - sym.Fraction(1, 2)) * 2 if hasattr(sym, 'Fraction') else None
        if o2 is None or o2 != int(o2):
            return None
        out.append(int(o2))
    return tuple(out)


# ------------------------------------------------------------------ self-gravity
def shift_poly(p, vec):
    return subst(p, {IDX[q].single_atom(): IDX[q] + vec[q] for q in range(3) if vec[q]})


def diff(p, a):
    out = P(0)
    for m, c in p.t.items():
        for n, (ai, pw) in enumerate(m):
            if ai == a.id:
                mm = list(m)
                if pw == 1:
                    mm.pop(n)
                else:
                    mm[n] = (ai, pw - 1)
                out = out + sym.Poly({tuple(mm): c * pw})
    return out


def euler(p, idx, dims):
    """discrete variational derivatives of p, one per field: all vanish iff p
    is a discrete divergence"""
    fields = {}
    for a in p.atoms():
        if a.kind != 'ld':
            continue
        els = a.args[0][1]
        off = []
        n = 0
        sk = [a.args[0][0]]
        for k, v in els:
            if k == 'f':
                sk.append(v)
                continue
            hit = False
            for q in range(dims):
                d = v - idx[q]
                if d.is_const() and not v.is_const():
                    off.append((q, int(d.const())))
                    sk.append(q)
                    hit = True
            if not hit:
                sk.append(v)
        if not off:
            continue
        vec = [0, 0, 0]
        for q, o in off:
            vec[q] = o
        fields.setdefault(tuple(sk), []).append((a, vec))
    out = {}
    for sk, ats in fields.items():
        tot = P(0)
        for a, vec in ats:
            tot = tot + shift_poly(diff(p, a), [-x for x in vec])
        out[sk] = tot
    return out


def selfgrav(rec, kw, dims):
    cfg = Config(**kw)
    prog, fn, it = summarise(cfg, dims)
    rec.fn(fn)
    rec.add_stats(it)
    calls = flux_calls(it)
    roots = flux_roots(calls)
    idx, facts = cell(dims)
    ax = axes_of(rec, it, cfg, dims, fn, roots, idx, facts)
    if ax is None:
        return
    for fld in [('M1',), ('M2',), ('M3',)]:
        w = '%s: %s with self-gravity' % (fn, fld[0])
        u0 = gl('U', idx[2], idx[1], idx[0], *fld)
        got = post(it, gp('U', idx[2], idx[1], idx[0], *fld), DBL, facts)
        src = got - expected(cfg, dims, fld, idx, ax, u0)
        if sym.ite_atoms(src) or has_opaque(src):
            rec.undecided('self-gravity', w, show(src)[:300])
            continue
        if int(fld[0][1]) <= dims and src == P(0):
            rec.bad('self-gravity', w, 'no gravitational momentum term is applied')
            continue
        # strip the common shift-invariant factors
        bad = {k: v for k, v in euler(src, idx, dims).items() if sym.ratnorm(v) != P(0)}
        rec.expect(not bad, 'self-gravity', w, 'momentum source is a discrete divergence' if not bad else
                   'gravitational momentum source is not a difference of face fluxes: variation with respect to %s is %s' % (
                       next(iter(bad)), show(next(iter(bad.values())))[:300]))
        if int(fld[0][1]) <= dims:
            consistency(rec, w, src, int(fld[0][1]) - 1, idx, dims)
    if cfg['eos'] != 'isothermal':
        w = '%s: E with self-gravity' % fn
        got = post(it, gp('U', idx[2], idx[1], idx[0], 'E'), DBL, facts)
        want = expected(cfg, dims, ('E',), idx, ax, gl('U', idx[2], idx[1], idx[0], 'E'))
        for a in range(dims):
            root, nd = ax[a]

            def phi(o):
                ix = [idx[q] + (o if q == a else 0) for q in range(3)]
                return gl('Phi', ix[2], ix[1], ix[0])
            for up in (0, 1):
                ix = [idx[q] + (1 if up and q == a else 0) for q in range(3)][:nd]
                f = P(atom('ld', (root, tuple(('i', x) for x in reversed(ix)) + (('f', 'd'),)), 0))
                want = want - DT * sym.inv(DX[a]) * f * (phi(up) - phi(up - 1)) * sym.inv(P(2))
        cmp_update(rec, 'self-gravity', w, got, want)


def consistency(rec, w, src, a, idx, dims):
    """for a quadratic potential the momentum source is exactly
    -dt (laplacian(Phi)/4piG + mean density) dPhi/dx_a"""
    A = [S('A%d' % q) for q in range(3)]
    X = [S('x%d' % q) for q in range(3)]
    mp = {}
    for at in src.atoms():
        if at.kind == 'ld' and ('f', 'Phi') in at.args[0][1]:
            ii = [x[1] for x in at.args[0][1] if x[0] == 'i'][-3:][::-1]
            v = P(0)
            for q in range(dims):
                d = ii[q] - idx[q]
                if not d.is_const():
                    rec.undecided('self-gravity', w, 'index ' + show(P(at)))
                    return
                x = X[q] + DX[q] * d
                v = v + A[q] * x * x * sym.inv(P(2))
            mp[at] = v
    got = subst(src, mp)
    lap = P(0)
    for q in range(dims):
        lap = lap + A[q]
    want = -DT * (lap * sym.inv(S('four_pi_G_')) + S('rho_')) * A[a] * X[a]
    g4, rho = ld('four_pi_G'), ld('grav_mean_rho')
    want = -DT * (lap * sym.inv(g4) + rho) * A[a] * X[a]
    d = sym.ratnorm(got - want)
    rec.expect(d == P(0), 'self-gravity', w, 'quadratic potential gives -rho grad Phi' if d == P(0) else
               'for a quadratic potential the source is %s, required %s' % (show(got)[:300], show(want)[:200]))
