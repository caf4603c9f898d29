"""Constrained transport: the face fields are advanced by the circulation of one electric field."""
from ..integ import *
from ..check import has_opaque
from ..sym import show, subst
from .. import sym
from . import c08_cons as C8

RULE = ("The integrator (and the resistive update) is summarised with the electric-field work arrays symbolic. The final "
        "value of every face field at a symbolic active face, including the outermost faces, must be the old value "
        "minus dt times the discrete circulation of the edge electric fields (area weights in cylindrical geometry); "
        "the discrete divergence of the change then cancels identically, which is also evaluated; cell-centred fields "
        "are the mean of the two final faces (or are advanced by their own fluxes in inactive directions); the edge "
        "electric field equals the common value when all fluxes agree (every upwind branch); the loops computing it "
        "cover every edge used; it is not modified once the face update has begun.")
ASSUMPTIONS = ["active directions hold at least nghost cells", "work arrays declared separately do not overlap",
               "floating-point arithmetic is treated as exact"]
FLOORS = {'face-update': 40, 'divergence': 10, 'cell-centre': 20, 'emf-consistency': 10, 'emf-range': 8, 'half-step': 6}

CONFIGS = [
    (dict(gas='mhd'), (2, 3)), (dict(gas='mhd', eos='isothermal', nscalars=1), (2, 3)),
    (dict(gas='mhd', integrator='vl'), (2, 3)), (dict(gas='mhd', eos='isothermal', integrator='vl'), (2, 3)),
    (dict(gas='mhd', special_relativity=1, integrator='vl', order='2p'), (2, 3)),
    (dict(gas='mhd', coord='cylindrical'), (2, 3)), (dict(gas='mhd', coord='cylindrical', integrator='vl'), (2, 3)),
    (dict(gas='mhd', smr=1), (2, 3)), (dict(gas='mhd', h_correction=1), (2, 3)),
    (dict(gas='mhd', gravity='fft'), (2, 3)), (dict(gas='mhd', order='2'), (2, 3)),
    (dict(gas='mhd', mpi=1, integrator='vl'), (2, 3)),
]
RES = [(dict(gas='mhd', resistivity=1), (1, 2, 3)), (dict(gas='mhd', resistivity=1, coord='cylindrical'), (2, 3)),
       (dict(gas='mhd', resistivity=1, eos='isothermal'), (1, 2, 3)), (dict(gas='mhd', resistivity=1, sts=1), (1, 2, 3))]


def tasks(tier):
    out = []
    for kw, dd in CONFIGS:
        for d in dd:
            out.append(('ct %dD %s' % (d, Config(**kw).name), ('ct', kw, d)))
        if kw.get('coord') != 'cylindrical':
            out.append(('1D %s' % Config(**kw).name, ('oned', kw)))
    for kw, dd in RES:
        for d in dd:
            out.append(('resistivity %dD %s' % (d, Config(**kw).name), ('resist', kw, d)))
    return out


def els(root, idx, dims):
    """element of an electric-field array; root = (name, number of indices, field suffix)"""
    n, nd, suf = root
    return P(atom('ld', (n, tuple(('i', x) for x in reversed(idx[:nd])) + suf), 0))


def face_facts(dims):
    f = []
    for a in range(dims):
        f += [le(ST[a], IDX[a]), le(IDX[a], EN[a])]
    return f


def discover(delta, idx, dims, b):
    """E-field roots in the change of face field b: {c: root}"""
    out = {}
    for at in delta.atoms():
        if at.kind != 'ld' or not isinstance(at.args[0][0], str) or at.args[0][0].startswith('#'):
            continue
        e = at.args[0][1]
        n = 0
        while n < len(e) and e[n][0] == 'i':
            n += 1
        if n < dims or any(k != 'f' for k, v in e[n:]):
            continue
        ix = [v for k, v in e[:n]][::-1]
        for a in range(dims):
            if a != b and ix[a] == idx[a] + 1 and all(ix[q] == idx[q] for q in range(n) if q != a):
                out.setdefault(3 - a - b, set()).add((at.args[0][0], n, e[n:]))
    return out


def curl(cfg, roots, b, idx, dims):
    """-dt*(curl E)_b at face idx"""
    v = P(0)
    cyl = cfg['coord'] == 'cylindrical'
    for a in range(dims):
        if a == b:
            continue
        c = 3 - a - b
        if c not in roots:
            continue
        s = 1 if (a - b) % 3 == 1 else -1           # (curl E)_b = d_a E_c - d_c E_a for (b,a,c) cyclic
        up = [idx[q] + (1 if q == a else 0) for q in range(3)]
        w = (ld('STS_dt') if roots.get('sts') else DT) * sym.inv(DX[a])
        wu = wl = w
        if cyl:
            if a == 1:
                wu = wl = w * sym.inv(gl('ri' if b == 0 else 'r', idx[0]))
            if a == 0 and b == 2:
                wu = w * gl('ri', idx[0] + 1) * sym.inv(gl('r', idx[0]))
                wl = w * gl('ri', idx[0]) * sym.inv(gl('r', idx[0]))
        v = v - s * (wu * els(roots[c], up, dims) - wl * els(roots[c], idx, dims))
    return v


def faces(rec, it, cfg, dims, fn, what=''):
    facts = face_facts(dims)
    idx, _ = cell(dims)
    roots = {}
    fin = {}
    for b in range(min(dims, 3)):
        for last in (0, 1):
            ix = list(idx)
            if last:
                ix[b] = EN[b] + 1
            fin[b, last] = (ix, post(it, gp('B%di' % (b + 1), ix[2], ix[1], ix[0]), DBL, facts))
    for b in range(dims):
        ix, v = fin[b, 0]
        for c, rs in discover(v - gl('B%di' % (b + 1), ix[2], ix[1], ix[0]), ix, dims, b).items():
            if len(rs) > 1:
                rec.bad('face-update', '%s: B%di' % (fn, b + 1), 'two different electric fields %s enter the same update' % sorted(rs))
                return None
            roots.setdefault(c, sorted(rs)[0])
    need = {2} if dims == 2 else {0, 1, 2}
    if set(roots) < need:
        v = fin[0, 0][1]
        if any(has_opaque(x[1]) for x in fin.values()):
            rec.undecided('face-update', fn, 'B1i = ' + show(v)[:300])
        else:
            rec.bad('face-update', fn, 'face fields are not advanced by edge electric fields along x%s: B1i = %s, B2i = %s' % (
                [c + 1 for c in sorted(need - set(roots))], show(v)[:300], show(fin[1, 0][1])[:300]))
        return None
    if what == 'sts':
        roots['sts'] = True
    for (b, last), (ix, v) in sorted(fin.items()):
        u0 = gl('B%di' % (b + 1), ix[2], ix[1], ix[0])
        want = u0 + curl(cfg, roots, b, ix, dims)
        w = '%s: B%di%s' % (fn, b + 1, ' outermost face' if last else '')
        r = sym.equal_values(v, want)
        if r:
            rec.ok('face-update', w)
        elif r is None or has_opaque(v):
            rec.undecided('face-update', w, '%s vs %s' % (show(v)[:300], show(want)[:300]))
        else:
            rec.bad('face-update', w, 'final value %s; constrained transport requires %s' % (show(v)[:500], show(want)[:400]))
    # divergence of the change
    div = P(0)
    opq = False
    cyl = cfg['coord'] == 'cylindrical'
    for b in range(dims):
        ix, v = fin[b, 0]
        opq = opq or has_opaque(v) or bool(sym.ite_atoms(v))
        d0 = v - gl('B%di' % (b + 1), ix[2], ix[1], ix[0])
        d1 = subst(d0, {IDX[b].single_atom(): IDX[b] + 1})
        w = sym.inv(DX[b])
        if cyl:
            if b == 0:
                d1, d0 = d1 * gl('ri', idx[0] + 1), d0 * gl('ri', idx[0])
                w = w * sym.inv(gl('r', idx[0]))
            if b == 1:
                w = w * sym.inv(gl('r', idx[0]))
        div = div + w * (d1 - d0)
    if opq:
        rec.undecided('divergence', fn, show(div)[:200])
    else:
        div = sym.ratnorm(div)
        rec.expect(div == P(0), 'divergence', fn, 'div of the change of B cancels' if div == P(0) else
                   'the change of the face fields has divergence ' + show(div)[:400])
    return roots


def centres(rec, it, cfg, dims, fn):
    idx, facts = cell(dims)
    cyl = cfg['coord'] == 'cylindrical'
    for b in range(dims):
        w = '%s: B%dc' % (fn, b + 1)
        # interior and last cell separately: the outermost faces are written by their own loops
        for last in (0, 1):
            f = list(facts)
            ix = list(idx)
            if last:
                ix[b] = EN[b]
            else:
                f.append(le(IDX[b], EN[b] - 1))
            up = [ix[q] + (1 if q == b else 0) for q in range(3)]
            got = post(it, gp('U', ix[2], ix[1], ix[0], 'B%dc' % (b + 1)), DBL, f)
            lo = post(it, gp('B%di' % (b + 1), ix[2], ix[1], ix[0]), DBL, f)
            hi = post(it, gp('B%di' % (b + 1), up[2], up[1], up[0]), DBL, f)
            want = (lo + hi) * sym.inv(P(2))
            if cyl and b == 0:
                want = (gl('ri', ix[0]) * lo + gl('ri', ix[0] + 1) * hi) * sym.inv(gl('r', ix[0])) * sym.inv(P(2))
            r = sym.equal_values(got, want)
            if r:
                rec.ok('cell-centre', w)
            elif r is None or has_opaque(got) or has_opaque(want):
                rec.undecided('cell-centre', w, '%s vs %s' % (show(got)[:300], show(want)[:300]))
            else:
                rec.bad('cell-centre', w, 'cell-centred field %s is not the mean of its faces %s' % (show(got)[:400], show(want)[:400]))
    for b in range(dims, 3):
        w = '%s: B%di/B%dc inactive direction' % (fn, b + 1, b + 1)
        got = post(it, gp('B%di' % (b + 1), idx[2], idx[1], idx[0]), DBL, facts)
        want = post(it, gp('U', idx[2], idx[1], idx[0], 'B%dc' % (b + 1)), DBL, facts)
        r = sym.equal_values(got, want)
        if r:
            rec.ok('cell-centre', w)
        elif r is None or has_opaque(got) or has_opaque(want):
            rec.undecided('cell-centre', w, '%s vs %s' % (show(got)[:200], show(want)[:200]))
        else:
            rec.bad('cell-centre', w, 'the face and cell-centred copies differ: %s and %s' % (show(got)[:300], show(want)[:300]))


def ct(rec, kw, dims):
    cfg = Config(**kw)
    prog, fn, it = summarise(cfg, dims)
    rec.fn(fn)
    rec.add_stats(it)
    roots = faces(rec, it, cfg, dims, fn)
    if roots is None:
        return
    centres(rec, it, cfg, dims, fn)
    frt = C8.flux_roots(flux_calls(it))
    emf_rules(rec, it, cfg, dims, fn, roots, frt)
    predictor(rec, cfg, dims, roots, frt)


def flux_axis(it, root, evs):
    """axis of a flux array: from the direction of the face field / name of the slice in the Riemann call"""
    for loops, guards, e, k in evs:
        for arg in e.args[:-1]:
            if isinstance(arg, sym.Poly):
                for x in arg.atoms():
                    if x.kind == 'ld':
                        return x
    return None


def emf_rules(rec, it, cfg, dims, fn, roots, frt):
    idx, facts = cell(dims)
    ax = C8.axes_of(rec, it, cfg, dims, fn, frt, idx, facts)
    if ax is None:
        return
    inv = {r[0]: a for a, r in ax.items()}
    facestart = None
    for loops, guards, e in flatten(it.events):
        if e.k == 'store' and e.path[0] == '#0' and any(('f', 'B%di' % q) in e.path[1] for q in (1, 2, 3)) and len(e.path[1]) >= 4:
            facestart = e.seq if facestart is None else min(facestart, e.seq)
    for c, (root, nd, suf) in sorted(roots.items()):
        a, b = (c + 1) % 3, (c + 2) % 3
        E = S('E')
        cover = None
        stores = []
        for loops, guards, e in flatten(it.events):
            if e.k == 'store' and e.path[0] == root:
                stores.append((loops, guards, e))
        if not stores:
            rec.undecided('emf-range', fn, root + ' is never assigned')
            continue
        own = P(atom('ld', stores[0][2].path, 0))
        for loops, guards, e in stores:
            w = '%s %s: %s' % (e.coord, fn, root)
            mp = {}
            unknown = []
            for at in all_ld(e.val):
                r0 = at.args[0][0]
                f = [v for k, v in at.args[0][1] if k == 'f']
                if r0 in inv and f and f[-1] in ('By', 'Bz'):
                    q = inv[r0]
                    if q == a and f[-1] == 'By':
                        mp[at] = -E
                    elif q == b and f[-1] == 'Bz':
                        mp[at] = E
                    else:
                        unknown.append(at)
                elif isinstance(r0, str) and r0[0] not in '#%$' and r0 not in inv and not f:
                    if r0 == root and at.args[0] == e.path:
                        mp[at] = E           # additive correction to itself
                    else:
                        mp[at] = E           # cell-centred reference electric field
            v = subst(e.val, mp)
            if guards and any('L1' in str(x) for x in guards):
                continue
            r = sym.equal_values(v, E)
            if r:
                rec.ok('emf-consistency', w)
            elif r is None or has_opaque(v) and not unknown:
                rec.undecided('emf-consistency', w, show(v)[:300])
            else:
                rec.bad('emf-consistency', w, 'for uniform fluxes carrying the electric field E the edge value is %s instead of E%s' % (
                    show(v)[:300], ' (wrong flux component %s)' % show(P(unknown[0])) if unknown else ''))
        late = [e.coord for l, g_, e in stores if facestart is not None and e.seq > facestart]
        rec.expect(not late, 'emf-stable', '%s: %s' % (fn, root), 'not modified after the face update begins' if not late else
                   'electric field modified at %s after the face update has begun' % late[0])
        last = max(stores, key=lambda x: x[2].seq)
        ix = [x[1] for x in last[2].path[1] if x[0] == 'i'][::-1]
        miss = []
        for q in range(dims):
            lo, hi = C8.loop_range(last[0], ix[q])
            need = EN[q] + (0 if q == c else 1)
            if not (it.prove_ge0(ST[q] - lo) and it.prove_ge0(hi - need)):
                miss.append('x%d range [%s,%s] must contain [%s,%s]' % (q + 1, show(lo), show(hi), show(ST[q]), show(need)))
        rec.expect(not miss, 'emf-range', '%s %s: %s' % (last[2].coord, fn, root), 'covers every edge of the active zone' if not miss else '; '.join(miss))


def all_ld(v, out=None, seen=None):
    out = set() if out is None else out
    seen = set() if seen is None else seen
    if isinstance(v, sym.Poly):
        for a in v.atoms():
            all_ld(a, out, seen)
    elif isinstance(v, sym.Atom):
        if v.id in seen:
            return out
        seen.add(v.id)
        if v.kind == 'ld':
            out.add(v)
            return out
        if v.kind in ('ite',):
            all_ld(v.args[1], out, seen)
            all_ld(v.args[2], out, seen)
            return out
        for x in v.args:
            all_ld(x, out, seen)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            all_ld(x, out, seen)
    return out


def predictor(rec, cfg, dims, roots, frt):
    """half-step face fields kept in Real work arrays"""
    emf = set(r[0] for r in roots.values())
    prog = Program(cfg)
    fn = integrator(prog, dims)
    unit = prog.need(fn)[0]

    def fz(root):
        if not isinstance(root, str):
            return True
        t = base_type(unit.globals.get(root))
        return root in emf or t is None or t[0] != 'real'
    vals = {(n, ()): P(0) for n in ('StaticGravPot', 'CoolingFunc', 'ShearingBoxPot')}
    it = Interp(prog, opaque=OPAQUE, frozen=fz, effects=EFFECTS, assume=grid_facts(dims, R), values=vals)
    it.run(fn, None)
    idx, facts = cell(dims)
    for name, t in sorted(unit.globals.items()):
        nd, tt = 0, t
        while tt[0] == 'ptr':
            nd += 1
            tt = tt[1]
        if nd != dims or tt[0] != 'real' or name in emf:
            continue
        p = (name, tuple(('i', x) for x in reversed(idx[:dims])))
        v = post(it, p, DBL, facts)
        for b in range(dims):
            u0 = gl('B%di' % (b + 1), idx[2], idx[1], idx[0])
            if v.t.get(((u0.single_atom().id, 1),)) == 1 and not sym.ite_atoms(v) and any(
                    x.kind == 'ld' and x.args[0][0] in emf for x in v.atoms()):
                want = u0 + curl(cfg, roots, b, idx, dims) * sym.inv(P(2))
                w = '%s: %s' % (fn, name)
                r = sym.equal_values(v, want)
                if r:
                    rec.ok('half-step', w)
                elif r is None or has_opaque(v):
                    rec.undecided('half-step', w, show(v)[:300])
                else:
                    rec.bad('half-step', w, 'half-step face field is %s; constrained transport requires %s' % (show(v)[:400], show(want)[:400]))


def oned(rec, kw):
    cfg = Config(**kw)
    prog, fn, it = summarise(cfg, 1)
    rec.fn(fn)
    idx, facts = cell(1)
    for what, p, want in [('B1i', gp('B1i', idx[2], idx[1], idx[0]), gl('B1i', idx[2], idx[1], idx[0])),
                          ('B1c', gp('U', idx[2], idx[1], idx[0], 'B1c'), gl('U', idx[2], idx[1], idx[0], 'B1c'))]:
        got = post(it, p, DBL, facts)
        r = sym.equal_values(got, want)
        w = '%s: %s' % (fn, what)
        if r:
            rec.ok('face-update', w)
        elif r is None or has_opaque(got):
            rec.undecided('face-update', w, show(got)[:300])
        else:
            rec.bad('face-update', w, 'the longitudinal field changes in 1D: ' + show(got)[:400])
    for b in (1, 2):
        got = post(it, gp('B%di' % (b + 1), idx[2], idx[1], idx[0]), DBL, facts)
        want = post(it, gp('U', idx[2], idx[1], idx[0], 'B%dc' % (b + 1)), DBL, facts)
        r = sym.equal_values(got, want)
        w = '%s: B%di' % (fn, b + 1)
        if r:
            rec.ok('cell-centre', w)
        elif r is None or has_opaque(got) or has_opaque(want):
            rec.undecided('cell-centre', w, show(got)[:300])
        else:
            rec.bad('cell-centre', w, 'face copy %s differs from the cell-centred field %s' % (show(got)[:300], show(want)[:300]))


def resist(rec, kw, dims):
    cfg = Config(**kw)
    prog = Program(cfg)
    fn = 'resistivity'
    unit = prog.need(fn)[0]

    def fz(root):
        return isinstance(root, str)
    it = Interp(prog, opaque=['EField_Ohm', 'EField_Hall', 'EField_AD', 'hyper_diffusion4', 'hyper_diffusion6', 'Calc_current'],
                frozen=fz, effects={None: [], 'EField_Ohm': [], 'EField_Hall': [], 'EField_AD': []},
                assume=grid_facts(dims, R))
    it.run(fn, None)
    rec.fn(fn)
    rec.add_stats(it)
    if dims > 1:
        if faces(rec, it, cfg, dims, fn, 'sts' if cfg.has('sts') else '') is not None:
            centres(rec, it, cfg, dims, fn)
