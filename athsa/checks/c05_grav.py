"""Gravitational potential: boundary conditions and ghost-zone exchange."""
from ..config import Config
from ..front import Program, DBL, AnalysisError
from ..interp import Interp, flatten
from .. import halo, sym
from ..halo import gp
from ..spec import *
from ..check import has_opaque
from . import c03_bc

RULE = ("Per-face boundary routines of the potential: the final contents of a symbolic ghost location are compared with "
        "the mirror / wrap-around value; open-boundary extrapolation weights must reproduce linear potentials; the "
        "message exchange of the potential obeys the same rules as that of the gas (partner, tag, count, layout, "
        "completion order, ghost contents, buffer size, neighbour ranks).")
ASSUMPTIONS = ["active directions hold at least nghost cells", "neighbouring grids have equal transverse extents"]
FLOORS = {'ghost-value': 80, 'dispatch': 18, 'count': 20, 'extrapolation': 6}
INIT = ('bvals_grav_init', 'gravity/bvals_grav.c')
GTYPES = {1: 'reflect', 4: 'periodic', 5: 'reflect'}


def tasks(tier):
    out = []
    kws = [dict(gas='hydro', gravity='fft', mpi=1)]
    if tier == 'thorough':
        kws += [dict(gas='mhd', gravity='multigrid', mpi=1), dict(gas='mhd', gravity='fft', mpi=1, eos='isothermal'),
                dict(gas='hydro', gravity='fft_obc', mpi=1)]
    for kw in kws:
        n = Config(**kw).name
        for d in range(3):
            for dims in range(d + 1, 4):
                out.append(('x%d %dD %s' % (d + 1, dims, n), ('exchange', kw, d, dims)))
                out.append(('bufsize x%d %dD %s' % (d + 1, dims, n), ('bufs', kw, d, dims)))
        out.append(('ranks ' + n, ('ranks', kw)))
        if kw['gravity'] != 'fft_obc':
            kw2 = {k: v for k, v in kw.items() if k != 'mpi'}
            out.append(('dispatch ' + n, ('dispatch', kw2)))
            for f in c03_bc.FACES:
                out.append(('%s %s' % (f, n), ('face', kw2, f)))
    out.append(('open', ('openbc', dict(gas='hydro', gravity='fft_obc'))))
    return out


FIELDS = [('Phi', lambda c: gp('Phi', c[2], c[1], c[0]), None)]


def exchange(rec, kw, d, dims):
    prog = Program(Config(**kw))
    halo.check(rec, prog, 'bvals_grav', INIT[1], '%sx%d_Gid', d, dims, FIELDS, '%sx%d_GBCFun')


def bufs(rec, kw, d, dims):
    prog = Program(Config(**kw))
    halo.bufsize(rec, prog, 'bvals_grav', 'bvals_grav_init', INIT[1], '%sx%d_Gid', d, dims)


def ranks(rec, kw):
    prog = Program(Config(**kw))
    halo.neighbours(rec, prog, 'init_grid', 'init_grid.c', '%sx%d_Gid', False)
    if kw['gravity'] != 'fft_obc':
        halo.neighbours(rec, prog, INIT[0], INIT[1], '%sx%d_Gid', True)


def dispatch(rec, kw):
    prog = Program(Config(**kw))
    c03_bc.dispatch_rules(rec, prog, INIT, '_GBCFun', GTYPES)


def face(rec, kw, fc):
    cfg = Config(**kw)
    prog = Program(cfg)
    it0, tb, res = c03_bc.resolve_fns(prog, INIT, '_GBCFun')
    ax = int(fc[2]) - 1
    for fl, typ in GTYPES.items():
        for fn in sorted({x[0] for x in res.get((fc, fl), [])}):
            for dims in range(ax + 1, 4):
                c03_bc.check_fn(rec, prog, cfg, fn, fc, typ, dims, cells=[('Phi',)], faces=False)


def openbc(rec, kw):
    prog = Program(Config(**kw))
    it = Interp(prog)
    it.run(*INIT)
    tb = c03_bc.table(it, '_GBCFun')
    for fc in c03_bc.FACES:
        fns = set()
        for val, gd, e in tb.get(fc, []):
            a = val.single_atom()
            if a is not None and a.kind == 'fnref' and a.args[0] != 'ProlongateLater':
                fns.add(a.args[0])
        if not fns:
            raise AnalysisError('no open boundary routine for ' + fc)
        for fn in sorted(fns):
            extrap(rec, prog, fn, fc)


def extrap(rec, prog, fn, fc):
    ax = int(fc[2]) - 1
    inner = fc[0] == 'i'
    it = Interp(prog, assume=grid_facts(3))
    it.run(fn, None)
    rec.fn(fn)
    rec.add_stats(it)
    st, en = [IS, JS, KS][ax], [IE, JE, KE][ax]
    cover = []
    for loops, guards, e in flatten(it.events):
        if e.k != 'store' or ('f', 'Phi') not in e.path[1]:
            continue
        w = '%s:%s' % (e.coord, fn)
        idx = [x[1] for x in e.path[1] if x[0] == 'i'][-3:]
        dst = idx[2 - ax]
        tot, mom = P(0), P(0)
        ok = True
        for m, c in e.val.t.items():
            if len(m) != 1 or m[0][1] != 1:
                ok = False
                break
            a = sym.atom_by_id(m[0][0])
            if a.kind != 'ld' or ('f', 'Phi') not in a.args[0][1]:
                ok = False
                break
            si = [x[1] for x in a.args[0][1] if x[0] == 'i'][-3:]
            for q in range(3):
                if q != ax and si[2 - q] != idx[2 - q]:
                    rec.bad('extrapolation', w, 'extrapolation mixes different pencils: %s' % sym.show_path(a.args[0]))
                    return
            dist = si[2 - ax] - dst
            tot = tot + P(c)
            mom = mom + dist * P(c)
            dc = dist.const() if dist.is_const() else None
            if dc is None:
                rec.bad('extrapolation', w, 'stencil point %s not at a fixed distance from the ghost zone' % sym.show_path(a.args[0]))
                return
            if (dc > 0) != inner or dc == 0:
                rec.bad('extrapolation', w, 'stencil point outside the already known zones')
                return
        if not ok:
            rec.undecided('extrapolation', w, sym.show(e.val)[:200])
            continue
        rec.expect(tot == P(1) and mom == P(0), 'extrapolation', w, 'weights do not reproduce a linear potential: sum %s, first moment %s' % (sym.show(tot), sym.show(mom)))
        # ghost zones must be visited from the boundary outwards, and all of them
        lp = [l for l in loops if l.var is not None and l.var in dst.atoms()]
        if len(lp) == 1:
            l = lp[0]
            c = dst.t.get(((l.var.id, 1),), 0)
            first = sym.subst(dst, {l.var: l.hi if l.desc else l.lo})
            last = sym.subst(dst, {l.var: l.lo if l.desc else l.hi})
            rec.expect(first == (st - 1 if inner else en + 1) and last == (st - NG if inner else en + NG), 'extrapolation', w,
                       'ghost zones %s..%s filled, required %s outwards' % (sym.show(first), sym.show(last), 'start-1..start-nghost' if inner else 'end+1..end+nghost'))
