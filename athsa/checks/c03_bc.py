"""Physical boundary conditions: ghost zones of every face."""
from ..config import Config
from ..front import Program, AnalysisError, DBL
from ..interp import Interp, flatten
from ..spec import *
from ..check import compare, has_opaque
from .. import sym

RULE = ("Each per-face boundary routine reachable from the boundary dispatch is summarised by the "
        "gated-value dataflow engine; the final contents of a symbolic ghost location (k,j,i) are "
        "resolved to the last region write that covers it and compared with the value the boundary "
        "type prescribes (mirror with sign flip of the normal momentum/field, copy of the edge cell, "
        "wrap-around, perfect conductor), for every conserved field, scalar and face-field component, "
        "every face, 1D/2D/3D, any nghost.  Interior locations must be unchanged.  The dispatch table "
        "itself (flag value -> routine, per face) is extracted from the initialiser.")
ASSUMPTIONS = ["active directions hold at least nghost cells (enforced by the grid set-up)",
               "arrays obtained from separate allocations do not overlap"]
FLOORS = {'ghost-value': 800, 'interior-unchanged': 700, 'dispatch': 48, 'no-override': 12}

FACES = ['ix1', 'ox1', 'ix2', 'ox2', 'ix3', 'ox3']
TYPES = {1: 'reflect', 2: 'outflow', 4: 'periodic', 5: 'conduct'}


def configs(tier):
    base = [dict(gas='mhd', eos='adiabatic', nscalars=2),
            dict(gas='hydro', eos='isothermal', nscalars=1)]
    if tier == 'thorough':
        base += [dict(gas='mhd', eos='isothermal', nscalars=0),
                 dict(gas='hydro', eos='adiabatic', nscalars=0),
                 dict(gas='mhd', eos='adiabatic', coord='cylindrical'),
                 dict(gas='hydro', eos='adiabatic', special_relativity=1, integrator='vl', order='2p'),
                 dict(gas='mhd', eos='adiabatic', special_relativity=1, integrator='vl', order='2p'),
                 dict(gas='mhd', eos='isothermal', mpi=1), dict(gas='mhd', smr=1, nscalars=1),
                 dict(gas='mhd', shearing_box=1), dict(gas='mhd', resistivity=1), dict(gas='mhd', particles='feedback')]
    return base


def tasks(tier):
    out = []
    for kw in configs(tier):
        n = Config(**kw).name
        out.append(('dispatch ' + n, ('dispatch', kw)))
        for f in FACES:
            out.append(('%s %s' % (f, n), ('face', kw, f)))
    return out


def fnrefs(prog, init=('bvals_mhd_init', 'bvals_mhd.c')):
    """{(face, flag): function name} plus stores outside flag guards"""
    it = Interp(prog)
    it.run(*init)
    return it


def table(it, suffix='_BCFun'):
    """(face, flagvalue) -> [(fn, guard, coord)]"""
    out = {}
    for loops, guards, e in flatten(it.events):
        if e.k != 'store' or e.path[1][-1][0] != 'f':
            continue
        f = e.path[1][-1][1]
        if not f.endswith(suffix):
            continue
        face = f[:-len(suffix)]
        gd = c_and(*guards)
        out.setdefault(face, []).append((e.val, gd, e))
    return out


def flag_of(gd, face):
    """flag value v such that guard implies BCFlag_face == v"""
    if gd is True or gd is False:
        return None
    lits = [gd] if gd[0] == 'lit' else list(gd[1]) if gd[0] == 'and' else []
    for l in lits:
        if l[0] == 'lit' and l[1].kind == 'eq0' and l[2]:
            p = l[1].args[0]
            for a in p.atoms():
                if a.kind == 'ld' and a.args[0][1][-1] == ('f', 'BCFlag_' + face):
                    co = p.t[((a.id, 1),)]
                    r = (p - P(a) * co) * (-1 if co > 0 else 1)
                    if r.is_const():
                        return int(r.const())
    return None


def resolve_fns(prog, init=('bvals_mhd_init', 'bvals_mhd.c'), suffix='_BCFun'):
    it = fnrefs(prog, init)
    tb = table(it, suffix)
    res = {}
    for face, lst in tb.items():
        for val, gd, e in lst:
            fl = flag_of(gd, face)
            a = val.single_atom()
            if fl is None or a is None or a.kind != 'fnref':
                continue
            res.setdefault((face, fl), []).append((a.args[0], gd, e))
    return it, tb, res


def dispatch(rec, kw):
    prog = Program(Config(**kw))
    dispatch_rules(rec, prog, ('bvals_mhd_init', 'bvals_mhd.c'), '_BCFun', TYPES)


def dispatch_rules(rec, prog, init, suffix, types):
    it, tb, res = resolve_fns(prog, init, suffix)
    rec.fn(init[0])
    rec.add_stats(it)
    for face in FACES:
        if face not in tb:
            raise AnalysisError('no store to %s%s found' % (face, suffix))
        ok = True
        for val, gd, e in tb[face]:
            # a user-enrolled routine must not be replaced
            lits = sym.c_lits(gd)
            guarded = False
            for a in lits:
                if a.kind == 'eq0':
                    for b in a.args[0].atoms():
                        if b.kind in ('base', 'ld') and b.args[0][1] and b.args[0][1][-1] == ('f', face + suffix):
                            guarded = sym.c_implies(gd, ('lit', a, True))
            if not guarded:
                ok = False
                rec.bad('no-override', e.coord, 'store to %s%s not conditional on it being unset' % (face, suffix))
        if ok:
            rec.ok('no-override')
        for fl in types:
            lst = res.get((face, fl), [])
            if not lst:
                rec.bad('dispatch', init[0], 'no boundary routine installed for face %s, flag %d' % (face, fl))
                continue
            rec.ok('dispatch', '%s flag %d -> %s' % (face, fl, lst[0][0]))


def face(rec, kw, fc):
    cfg = Config(**kw)
    prog = Program(cfg)
    it0, tb, res = resolve_fns(prog)
    ax = int(fc[2]) - 1
    for fl, typ in TYPES.items():
        lst = res.get((fc, fl), [])
        for fn in sorted({x[0] for x in lst}):
            for dims in range(ax + 1, 4):
                check_fn(rec, prog, cfg, fn, fc, typ, dims)


def check_fn(rec, prog, cfg, fn, fc, typ, dims, cells=None, faces=None):
    """cells: list of path prefixes of cell-centred data (array, then field suffix)"""
    if cells is None:
        cells = [('U',) + f for f in cons_fields(cfg)]
    if faces is None:
        faces = cfg['gas'] == 'mhd'
    ax = int(fc[2]) - 1
    inner = fc[0] == 'i'
    facts = grid_facts(dims)
    it = Interp(prog, assume=facts)
    it.run(fn, None)
    rec.fn(fn)
    rec.add_stats(it)
    where = fn
    for l, gd, e in flatten(it.events):
        if e.k == 'store':
            where = e.coord.rsplit(':', 1)[0] + ':' + fn
            break
    st = [IS, JS, KS]
    en = [IE, JE, KE]
    kji = [S('i'), S('j'), S('k')]
    gg = S('g')

    # transverse ranges (full extent incl. already-filled ghost zones of lower axes)
    def trange(d, comp):
        """allowed range of coordinate d for a cell (comp None) or a face field
        normal to comp"""
        x = kji[d]
        if d < ax:
            lo, hi = st[d] - NG, en[d] + NG
            if comp == d:
                lo = lo + 1
        else:
            lo, hi = st[d], en[d]
            if comp == d and d < dims:
                hi = hi + 1
        if d >= dims:
            return None
        return [le(lo, x), le(x, hi)]

    def coords(comp, normal):
        idx = []
        f = []
        for d in (2, 1, 0):
            if d == ax:
                idx.append(normal)
            elif d >= dims:
                idx.append(st[d])
            else:
                idx.append(kji[d])
                f += trange(d, comp)
        return idx, f

    def one(pfx, comp, ghost, src, sign, f2, desc, const=None):
        ci, cf = coords(comp, ghost)
        if src is not None:
            si, _ = coords(comp, src)
        p = gpath(*(pfx[:1] + tuple(ci) + pfx[1:]))
        got = post(it, p, DBL, cf + f2)
        if const is not None:
            want = P(const)
        else:
            want = ld(*(('#0', 0) + pfx[:1] + tuple(si) + pfx[1:])) * sign
        compare(rec, 'ghost-value', where, got, want,
                '%s %dD ghost %s' % (fn, dims, sym.show_path(p)))

    s, e = st[ax], en[ax]
    gr = [le(1, gg), le(gg, NG)]
    nm = 'M%d' % (ax + 1)
    nb = 'B%dc' % (ax + 1)
    for pfx in cells:
        fld = pfx[1:] or ('',)
        ghost = s - gg if inner else e + gg
        sign = 1
        if typ in ('reflect', 'conduct'):
            src = s + gg - 1 if inner else e - gg + 1
            if fld[0] == nm:
                sign = -1
            if typ == 'reflect' and fld[0] == nb:
                sign = -1
            if typ == 'conduct' and fld[0] in ('B1c', 'B2c', 'B3c') and fld[0] != nb:
                sign = -1
        elif typ == 'outflow':
            src = s if inner else e
        else:
            src = e - gg + 1 if inner else s + gg - 1
        one(pfx, None, ghost, src, sign, gr, typ)
        # interior unchanged
        ci, cf = coords(None, kji[ax])
        p = gpath(*(pfx[:1] + tuple(ci) + pfx[1:]))
        got = post(it, p, DBL, cf + [le(s, kji[ax]), le(kji[ax], e)])
        compare(rec, 'interior-unchanged', where, got, ld(*((p[0],) + tuple(x[1] for x in p[1]))), '%s interior %s' % (fn, sym.show_path(p)))
    if not faces:
        return
    for comp in range(3):
        arr = 'B%di' % (comp + 1)
        if comp != ax:
            ghost = s - gg if inner else e + gg
            sign = -1 if typ == 'conduct' else 1
            if typ in ('reflect', 'conduct'):
                src = s + gg - 1 if inner else e - gg + 1
            elif typ == 'outflow':
                src = s if inner else e
            else:
                src = e - gg + 1 if inner else s + gg - 1
            one((arr,), comp, ghost, src, sign, gr, typ)
            continue
        # field normal to the boundary: faces s-(nghost-1)..s-1 / e+2..e+nghost
        grn = [le(1, gg), le(gg, NG - 1)]
        ghost = s - gg if inner else e + 1 + gg
        if typ == 'reflect':
            one((arr,), comp, s if inner else e + 1, None, 1, [], typ, const=0)
            one((arr,), comp, ghost, s + gg if inner else e + 1 - gg, -1, grn, typ)
        elif typ == 'conduct':
            one((arr,), comp, ghost, s + gg if inner else e + 1 - gg, 1, grn, typ)
        elif typ == 'outflow':
            one((arr,), comp, ghost, s if inner else e + 1, 1, grn, typ)
        else:
            one((arr,), comp, ghost, e + 1 - gg if inner else s + gg, 1, grn, typ)
        # active faces strictly inside are unchanged
        ci, cf = coords(comp, kji[ax])
        p = gpath(*((arr,) + tuple(ci)))
        got = post(it, p, DBL, cf + [le(s + 1, kji[ax]), le(kji[ax], e)])
        compare(rec, 'interior-unchanged', where, got, ld(*((p[0],) + tuple(x[1] for x in p[1]))), '%s interior %s' % (fn, sym.show_path(p)))
