"""Restart files: writer and reader of the core state agree."""
from ..config import Config
from ..front import Program
from ..interp import Interp, flatten, P, atom
from .. import stream, sym
from ..sym import show, show_path, ONE, ZERO, subst
from ..spec import *
from ..check import compare, has_opaque

RULE = ("dump_restart and restart_grids are summarised and turned into record streams (loops, labels, words). Rules: the "
        "two streams agree item by item (label, word size, order, index ranges of every loop, value written = location "
        "read into); buffered output keeps its counter consistent, never exceeds the buffer, and is flushed before the next "
        "item; the state required to continue (step counter, time, time step, super-time-step state, every conserved "
        "variable, face field, scalar, particle attribute and particle-type attribute) is among the records over the whole "
        "active range; cell-centred fields are recomputed from the faces; grid time and step are taken from the mesh; the "
        "parameter block ends with the marker the reader skips to.")
ASSUMPTIONS = ["files are read back on a machine with the same word sizes and byte order", "fewer than ten scalars",
               "user restart hooks are judged by C02"]
FLOORS = {'stream': 200, 'complete': 60, 'derived': 9, 'header': 1}
OP = {'par_dump', 'par_setd', 'par_seti', 'problem_write_restart', 'problem_read_restart', 'particle_realloc'}
SP = {'par_dump', 'problem_write_restart', 'problem_read_restart'}
M = P(atom('base', ('M', ())))
CONFIGS = [dict(gas='mhd', nscalars=2), dict(gas='hydro', nscalars=1), dict(gas='hydro', eos='isothermal'), dict(gas='mhd', eos='isothermal'),
           dict(gas='mhd', coord='cylindrical'), dict(gas='mhd', particles='feedback'), dict(gas='hydro', particles='passive', mpi=1),
           dict(gas='mhd', resistivity=1, sts=1), dict(gas='mhd', smr=1), dict(gas='hydro', special_relativity=1, integrator='vl', order='2p')]


def tasks(tier):
    out = []
    for kw in CONFIGS:
        n = Config(**kw).name
        out.append(('any ' + n, ('restart', kw, 0)))
        for d in (1, 2, 3):
            out.append(('%dD %s' % (d, n), ('restart', kw, d)))
    out.append(('header', ('header',)))
    return out


G = ('Domain', 0, 0, 'Grid', 0)


def facts(dims):
    if not dims:
        return []
    f = [ne(base('M', 0, 'Domain', 0, 0, 'Grid'), 0)]
    return f + grid_facts(dims, ('M', 0) + G)


def single(dims):
    """one level, one domain (the general hierarchy is analysed with dims=0)"""
    return {path('M', 0, 'NLevels'): P(1), path('M', 0, 'DomainsPerLevel', 0): P(1)} if dims else None


def restart(rec, kw, dims):
    cfg = Config(**kw)
    fa = facts(dims)
    w = Interp(Program(cfg), opaque=OP, assume=fa, values=single(dims), effects={'problem_write_restart': [], 'par_dump': [], 'par_setd': [], 'par_seti': []})
    w.run('dump_restart', 'restart.c', args=[M, None])
    r = Interp(Program(cfg), opaque=OP, assume=fa, values=single(dims), effects={'problem_read_restart': [], 'particle_realloc': []})
    r.run('restart_grids', 'restart.c', args=[None, M])
    rec.fn('dump_restart', 'restart_grids')
    rec.add_stats(w)
    rec.add_stats(r)
    sizes = {}
    for lo, g, e in flatten(w.events):
        if e.k == 'call' and e.name == 'calloc_1d_array' and e.args[0].is_const():
            sizes[e.res.single_atom()] = int(e.args[0].const())
    W = stream.Builder(w, opaque=SP).conv(w.events)
    W = stream.expand_text(stream.Unbuffer(w, rec, 'buffer', 'dump_restart', sizes).run(W))
    R = stream.Builder(r, opaque=SP).conv(r.events)
    al = stream.Align(rec, w, r, 'dump_restart', 'restart_grids')
    al.rloc = stream.reader_targets(r)
    al.pairs = {('problem_write_restart', 'problem_read_restart')}
    al.headers = {'par_dump': '<par_end>'}
    ok = al.seq(W, R, {})
    if ok and dims:
        complete(rec, cfg, al, r, dims)
        derived(rec, cfg, al, r, dims)


def mesh_of(al, path, lm):
    return path


def complete(rec, cfg, al, r, dims):
    """every state variable is recorded over its whole active range"""
    got = {}
    for loops, x, y, yl, wv, g in al.recs:
        got.setdefault(stream.skel(yl), []).append((loops, y, yl))
    def need(els, ranges, what, root=None):
        p = path(root, *els) if root else path('M', 0, *els)
        k = stream.skel(p)
        c = got.get(k, [])
        for loops, y, yl in c:
            if rng(al, loops, yl, ranges):
                rec.ok('complete', what)
                return
        if not c:
            rec.bad('complete', 'src/restart.c:restart_grids', '%s is not part of the restart file' % what, key='complete|' + what)
        else:
            rec.bad('complete', '%s:restart_grids' % c[0][1].at, '%s is restored over %s only' % (what, ', '.join(
                '[%s,%s]' % (show(q.lo), show(q.hi)) for _, q in c[0][0])), key='complete|' + what)
    need(('time',), [], 'time')
    need(('dt',), [], 'dt')
    need(('nstep',), [], 'nstep')
    if cfg.has('sts'):
        need(('diff_dt',), [], 'diff_dt')
        need((), [], 'N_STS', 'N_STS')
        need((), [], 'nu_STS', 'nu_STS')
    st = [ld('M', 0, *G, s) for s in ('is', 'js', 'ks')]
    en = [ld('M', 0, *G, s) for s in ('ie', 'je', 'ke')]
    i, j, k = (P(atom('sym', c)) for c in 'ijk')
    for f in cons_fields(cfg):
        if f[0] in ('B1c', 'B2c', 'B3c'):
            continue
        need(G + ('U', k, j, i) + f, list(zip(st, en))[::-1], 'U.' + '.'.join(str(z) for z in f))
    if cfg['gas'] == 'mhd':
        for q in range(3):
            e2 = [en[a] + (1 if a == q and q < dims else 0) for a in range(3)]
            need(G + ('B%di' % (q + 1), k, j, i), list(zip(st, e2))[::-1], 'B%di' % (q + 1))
    if cfg['particles'] not in (None, 0, '', 'none'):
        need(G + ('nparticle',), [], 'nparticle')
        fl = ['x1', 'x2', 'x3', 'v1', 'v2', 'v3', 'property', 'my_id'] + (['init_id'] if cfg.has('mpi') else [])
        need((), [], 'npartypes', 'npartypes')
        need((), [], 'alamcoeff', 'alamcoeff')
        need((P(atom('sym', 'k')),), [None], 'tstop0', 'tstop0')
        need((P(atom('sym', 'k')),), [None], 'grrhoa', 'grrhoa')
        for f in ['rad', 'rho', 'integrator'] + (['m'] if cfg['particles'] == 'feedback' else []):
            need((P(atom('sym', 'k')), f), [None], 'grproperty.' + f, 'grproperty')
        for f in fl:
            need(G + ('particle', k, f), [None], 'particle.' + f)


def rng(al, loops, yl, ranges):
    """the symbolic indices of the record run over the given ranges"""
    idx = [v for kk, v in yl[1] if kk == 'i' and not v.is_const()]
    if len(idx) != len(ranges):
        return False
    by = {q.var: q for _, q in loops}
    for v, rg in zip(idx, ranges):
        a = v.single_atom()
        if a is None or a not in by:
            return False
        if rg is None:
            continue
        q = by[a]
        if not (sym.equal_values(q.lo, rg[0]) and sym.equal_values(q.hi, rg[1])):
            return False
    return True


def derived(rec, cfg, al, r, dims):
    """quantities recomputed by the reader"""
    i, j, k = (P(atom('sym', c)) for c in 'ijk')
    st = [ld('M', 0, *G, s) for s in ('is', 'js', 'ks')]
    en = [ld('M', 0, *G, s) for s in ('ie', 'je', 'ke')]
    for c, s, e in zip((i, j, k), st, en):
        r.add_fact(le(s, c))
        r.add_fact(le(c, e))
    def fin(*els):
        return r.load(path('M', 0, *G, *els), ('real', 8))
    for f in ('time', 'dt'):
        v = al.r2w(fin(f), {})
        compare(rec, 'derived', 'src/restart.c:restart_grids', v, ld('M', 0, f), 'grid ' + f)
    # recorded values survive until the end
    if cfg['gas'] == 'mhd':
        for q in range(3):
            here = [k, j, i]
            up = list(here)
            up[2 - q] = up[2 - q] + 1
            b = 'B%di' % (q + 1)
            v = fin('U', k, j, i, b[:2] + 'c')
            lo = fin(b, *here)
            hi = fin(b, *up)
            if q >= dims:
                want = lo
            elif q == 0 and cfg['coord'] == 'cylindrical':
                ri, ri1, rr = (ld('M', 0, *G, n, x) for n, x in (('ri', i), ('ri', i + 1), ('r', i)))
                want = sym.div(P(1) * (ri * lo + ri1 * hi), rr * 2)
            else:
                want = (lo + hi) * sym.inv(P(2))
            compare(rec, 'derived', 'src/restart.c:restart_grids', v, want, 'U.%sc after restart' % b[:2])
            inp = lo.single_atom()
            rec.expect(inp is not None and inp.kind == 'fn' and inp.args[0] == 'input', 'derived', 'src/restart.c:restart_grids',
                       '%s must keep the value read from the file, holds %s' % (b, show(lo)))
    for f in cons_fields(cfg):
        if f[0] in ('B1c', 'B2c', 'B3c'):
            continue
        v = fin('U', k, j, i, *f)
        inp = v.single_atom()
        ok = inp is not None and inp.kind == 'fn' and inp.args[0] == 'input'
        if ok or not has_opaque(v):
            rec.expect(ok, 'derived', 'src/restart.c:restart_grids', 'U.%s must keep the value read from the file, holds %s' % (f, show(v)))
        else:
            rec.undecided('derived', 'src/restart.c:restart_grids', 'U.%s' % (f,))


def header(rec):
    """par_dump(2,fp) ends with the marker line"""
    cfg = Config(gas='hydro')
    it = Interp(Program(cfg))
    it.run('par_dump', 'par.c', args=[P(2), None])
    rec.fn('par_dump')
    items = stream.Builder(it).conv(it.events)
    last = None
    for x in stream.walk(items):
        if x.kind == 'text':
            last = x
    top = items and items[-1].kind == 'text'
    if top and last is items[-1] and last.fmt is not None:
        rec.expect(last.fmt.lstrip('\n').startswith('<par_end>') and last.fmt.endswith('\n'), 'header', '%s:par_dump' % last.at, 'the parameter block ends with %r' % last.fmt)
    else:
        rec.undecided('header', 'src/par.c:par_dump', 'end of the parameter block')
