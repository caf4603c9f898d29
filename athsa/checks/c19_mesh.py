"""Mesh set-up: index ranges, positions, storage and process numbers of grids."""
import copy
from pycparser import c_ast
from ..config import Config
from ..front import Program
from ..interp import Interp, SVal, flatten
from .. import sym
from ..sym import P, atom, show, show_cond, c_not, c_le0, c_eq0, ZERO, ONE
from ..stream import pointee, strlit
from ..spec import *
from ..check import compare, has_opaque
from .c01_restart import M, single

GR = ('M', 0, 'Domain', 0, 0, 'Grid', 0)
DM = ('M', 0, 'Domain', 0, 0)
INT, REAL = ('int',), ('real',)


def alloc(name):
    def f(it, n, args, types):
        ev = it.emit_call(name, args, types, n, None)
        ev.res = P(atom('base', ('@a%d' % ev.seq, ())))
        it.add_fact(c_not(c_eq0(ev.res, True)))
        return ev.res, ('ptr', INT)
    return f


ALLOC = ('calloc_3d_array', 'calloc_1d_array', 'calloc_2d_array')


def arrays(kw):
    """arrays every grid must have: name, rank, reals per element"""
    ncons = 4 + (kw.get('eos') != 'isothermal') + 3 * (kw['gas'] == 'mhd') + kw.get('nscalars', 0)
    out = [('U', 3, ncons)]
    if kw['gas'] == 'mhd':
        out += [(x, 3, 1) for x in ('B1i', 'B2i', 'B3i')]
    if kw.get('resistivity'):
        out += [(x, 3, 1) for x in ('eta_Ohm', 'eta_Hall', 'eta_AD')]
    if kw.get('gravity'):
        out += [(x, 3, 1) for x in ('Phi', 'Phi_old', 'x1MassFlux', 'x2MassFlux', 'x3MassFlux')]
    if kw.get('coord') == 'cylindrical':
        out += [('r', 1, 1), ('ri', 1, 1)]
    return out


def grid(rec, kw, dims, pos):
    """init_grid for a grid at block position pos of a domain"""
    cfg = Config(**kw)
    fn, where = 'init_grid', 'src/init_grid.c:init_grid'

    def cb(it, n, args, types):
        for a, v in zip(args[2:], pos):
            it.store(pointee(a), INT, P(v), n)
        it.emit_call('get_myGridIndex', args, types, n, None)
        return ZERO, INT
    cell = lambda d, *p: ld(*DM, 'GData', p[2], p[1], p[0], 'Nx', d)
    fs = [ne(base(*GR[:-1]), 0), c_le0(2 - NG, True)]
    vals = dict(single(dims))
    for d in range(3):
        v = cell(d, *pos)
        if d < dims:
            fs.append(c_le0(2 - v, True))
        else:
            vals[path(*DM, 'GData', pos[2], pos[1], pos[0], 'Nx', d)] = ONE
    cbs = {'get_myGridIndex': cb}
    cbs.update({x: alloc(x) for x in ALLOC})
    it = Interp(Program(cfg), opaque=('ath_error', 'ath_pout', 'ath_perr'), values=vals, assume=fs, callbacks=cbs)
    it.run(fn, 'init_grid.c', args=[M])
    rec.fn(fn)
    rec.add_stats(it)
    ev = {e.res: e for _, _, e in flatten(it.events) if e.k == 'call' and e.name in ALLOC}
    n = [cell(d, *pos) for d in range(3)]
    idx = [('is', 'ie'), ('js', 'je'), ('ks', 'ke')]
    cmpv = lambda rule, got, want, desc: compare(rec, rule, where, got, want, desc)
    cmpv('grid', it.load(path(*GR, 'time'), REAL), ld('M', 0, 'time'), 'time of the grid')
    dx = ['dx1', 'dx2', 'dx3']
    mins = []
    for d in range(3):
        on = d < dims
        cmpv('grid', it.load(path(*GR, 'Nx', d), INT), n[d] if on else ONE, 'Nx[%d]' % d)
        cmpv('grid', it.load(path(*GR, idx[d][0]), INT), NG if on else ZERO, idx[d][0])
        cmpv('grid', it.load(path(*GR, idx[d][1]), INT), NG + n[d] - 1 if on else ZERO, idx[d][1])
        h = ld(*DM, 'dx', d)
        cmpv('grid', it.load(path(*GR, dx[d]), REAL), h, dx[d])
        off = ZERO
        for q in range(pos[d]):
            p = list(pos)
            p[d] = q
            off = off + cell(d, *p)
        cmpv('grid', it.load(path(*GR, 'Disp', d), INT), ld(*DM, 'Disp', d) + off, 'Disp[%d] of block %d' % (d, pos[d]))
        mn = ld(*DM, 'MinX', d) + off * h
        mins.append(mn)
        cmpv('grid', it.load(path(*GR, 'MinX', d), REAL), mn, 'MinX[%d] of block %d' % (d, pos[d]))
        cmpv('grid', it.load(path(*GR, 'MaxX', d), REAL), mn + (n[d] if on else ONE) * h, 'MaxX[%d] of block %d' % (d, pos[d]))
    need = [n[d] + 2 * NG if d < dims else ONE for d in range(3)]
    for name, rank, reals in arrays(kw):
        v = it.load(path(*GR, name), ('ptr', INT))
        e = ev.get(v)
        if e is None:
            if has_opaque(v) or v.single_atom() is None or v.single_atom().kind != 'ld':
                rec.undecided('storage', where, 'Grid->%s: %s' % (name, show(v)[:200]))
            else:
                rec.bad('storage', where, 'Grid->%s is never allocated' % name)
            continue
        w = '%s:%s' % (e.coord, fn)
        if e.name != 'calloc_%dd_array' % rank:
            rec.undecided('storage', w, 'Grid->%s is allocated by %s' % (name, e.name))
            continue
        for q in range(rank):
            got, d = e.args[q], rank - 1 - q
            if it.prove_ge0(got - need[d]):
                rec.ok('storage', '%s extent %d' % (name, d + 1))
            elif it.prove_ge0(need[d] - got - 1):
                rec.bad('storage', w, 'Grid->%s has %s elements in direction %d, %s are used' % (name, show(got), d + 1, show(need[d])))
            else:
                rec.undecided('storage', w, 'Grid->%s extent %d: %s against %s' % (name, d + 1, show(got), show(need[d])))
        sz = e.args[rank]
        if sz.is_const():
            rec.expect(sz.const() >= 8 * reals, 'storage', w, 'elements of Grid->%s take %s bytes, %d are needed' % (name, show(sz), 8 * reals))
        else:
            rec.undecided('storage', w, 'element size of Grid->%s: %s' % (name, show(sz)))
    if kw.get('coord') == 'cylindrical':
        i = P(atom('sym', 'I'))
        it.add_fact(c_le0(-i, True))
        it.add_fact(c_le0(i - n[0] - 2 * NG + 1, True))
        h = ld(*DM, 'dx', 0)
        for name, s in (('ri', ZERO), ('r', P(sym.Fraction(1, 2)))):
            v = it.load(path(*GR, name), ('ptr', INT))
            p = pointee(v)
            if v not in ev or p is None:
                continue
            got = it.load((p[0], (('i', i),)), REAL)
            cmpv('position', got, mins[0] + (i - NG + s) * h, 'Grid->%s[i]' % name)


def my_index(rec, kw):
    """get_myGridIndex finds the block of this process"""
    fn, where = 'get_myGridIndex', 'src/init_mesh.c:get_myGridIndex'
    it = Interp(Program(Config(**kw)), opaque=('ath_error',))
    it.run(fn, 'init_mesh.c')
    rec.fn(fn)
    rec.add_stats(it)
    got = {}
    at = where
    for lo, g_, e in flatten(it.events):
        if e.k == 'store' and e.path[0] in ('#2', '#3', '#4'):
            got.setdefault(e.path[0], []).append((e.val, g_))
            at = '%s:%s' % (e.coord, fn)
    if sorted(got) != ['#2', '#3', '#4'] or any(len(v) != 1 for v in got.values()):
        rec.undecided('index', where, 'results stored at more than one place')
        return
    b = [got['#%d' % q][0] for q in (2, 3, 4)]
    want = c_eq0(ld('#0', 0, 'GData', b[2][0], b[1][0], b[0][0], 'ID_Comm_world') - P(atom('sym', '#1')), True)
    for q in range(3):
        cs = []
        for c in b[q][1]:
            cs += list(c[1]) if c not in (True, False) and c[0] == 'and' else [c]
        if want in cs:
            rec.ok('index', 'coordinate %d' % (q + 1))
        elif any('ID_Comm_world' in show_cond(c) for c in cs):
            rec.bad('index', at, 'the block returned, (%s), is not the one found: %s' % (', '.join(show(x[0]) for x in b), ' and '.join(show_cond(c) for c in cs)))
        else:
            rec.undecided('index', at, 'coordinate %d' % (q + 1))


def coords(rec, kw):
    """cell positions and their inverse"""
    cfg = Config(**kw)
    prog = Program(cfg)
    i = [P(atom('sym', '#%d' % q)) for q in range(1, 8)]
    idx = [IS, JS, KS]
    mn = [g('MinX', d) for d in range(3)]
    h = [g('dx1'), g('dx2'), g('dx3')]
    half = P(sym.Fraction(1, 2))
    for fn, s in (('cc_pos', half), ('fc_pos', ZERO)):
        it = Interp(prog)
        it.run(fn, 'cc_pos.c')
        rec.fn(fn)
        rec.add_stats(it)
        for d in range(3):
            got = it.load(('#%d' % (4 + d), (('i', ZERO),)), REAL)
            compare(rec, 'position', 'src/cc_pos.c:' + fn, got, mn[d] + (i[d] - idx[d] + s) * h[d], 'x%d of cell %s' % (d + 1, 'ijk'[d]))
    todo = [('x1vc', 0)] if kw.get('coord') == 'cylindrical' else []
    if kw.get('particles'):
        todo += [('x%dcc' % (d + 1), d) for d in range(3)]
    for fn, d in todo:
        it = Interp(prog)
        ret = it.run(fn, 'cc_pos.c').ret
        rec.fn(fn)
        rec.add_stats(it)
        want = mn[d] + (i[0] - idx[d] + half) * h[d]
        if fn == 'x1vc' and kw.get('coord') == 'cylindrical':
            # centroid of a ring: r + h^2/(12 r)
            compare(rec, 'position', 'src/cc_pos.c:' + fn, ret, want + sym.div(h[0] * h[0], want * 12), 'radius of the centroid of a cell')
            continue
        compare(rec, 'position', 'src/cc_pos.c:' + fn, ret, want, 'centre of cell')
    if kw.get('particles'):
        for d, fn in enumerate(('celli', 'cellj', 'cellk')):
            it = Interp(prog)
            ret = it.run(fn, 'cc_pos.c').ret
            rec.fn(fn)
            rec.add_stats(it)
            w = 'src/cc_pos.c:' + fn
            a = (i[0] - mn[d]) * i[1] + idx[d]
            compare(rec, 'position', w, it.load(('#4', (('i', ZERO),)), REAL), a, 'cell coordinate of a position')
            ii = it.conv(a, REAL, INT)
            got = it.load(('#3', (('i', ZERO),)), INT)
            compare(rec, 'position', w, got, ii, 'cell of a position')
            compare(rec, 'position', w, ret, sym.ite(sym.c_lt0(a - ii - half, False), ZERO, ONE), 'half of the cell')


def pieces(rec, kw, fields, cbs=None, init=None, **opt):
    """each top-level statement of init_mesh that stores one of the fields, on an arbitrary mesh"""
    prog = Program(Config(**kw))
    unit, fd = prog.find('init_mesh', 'init_mesh.c')
    decls, out = [], []
    for s in fd.body.block_items:
        if isinstance(s, c_ast.Decl):
            s = copy.copy(s)
            if not isinstance(s.type, c_ast.ArrayDecl):
                v = (init or {}).get(s.name)
                s.init = None if v is None else c_ast.Constant('int', str(v))
            decls.append(s)
    for s in fd.body.block_items:
        if isinstance(s, c_ast.Decl) or not mentions(unit, s, fields, set()):
            continue
        f2 = copy.copy(fd)
        f2.body = c_ast.Compound(decls + [s])
        unit.funcs['init_mesh'] = f2
        no = ('ath_error', 'ath_pout', 'ath_perr', 'sprintf', 'par_geti', 'par_gets', 'par_getd', 'par_exist', 'par_seti', 'par_setd', 'dom_decomp')
        it = Interp(prog, opaque=no, effects={x: [] for x in no if x != 'dom_decomp'}, callbacks=cbs or {}, **opt)
        it.run('init_mesh', 'init_mesh.c', args=[M])
        rec.add_stats(it)
        out.append(it)
    unit.funcs['init_mesh'] = fd
    rec.fn('init_mesh')
    return out


def mentions(unit, s, fields, seen):
    hit = []

    class V(c_ast.NodeVisitor):
        def visit_Assignment(self, n):
            x = n.lvalue
            while isinstance(x, (c_ast.ArrayRef, c_ast.StructRef)):
                if isinstance(x, c_ast.StructRef) and x.field.name in fields:
                    hit.append(1)
                x = x.name
            self.generic_visit(n)

        def visit_FuncCall(self, n):
            f = getattr(n.name, 'name', None)
            if isinstance(f, str) and f in unit.funcs and f not in seen:
                seen.add(f)
                if mentions(unit, unit.funcs[f].body, fields, seen):
                    hit.append(1)
            self.generic_visit(n)
    V().visit(s)
    return bool(hit)


def conj(gs):
    out = []
    for c in gs:
        out += conj(c[1]) if c not in (True, False) and c[0] == 'and' else [c]
    return out


IDS = ('ID_Comm_Domain', 'ID_Comm_Children', 'ID_Comm_Parent')


def comm(rec, kw):
    """the number of a process in a communicator is its place in the list the communicator is made from"""
    where = 'src/init_mesh.c:init_mesh'
    seen = set()
    for it in pieces(rec, kw, IDS):
        lists, evs = set(), list(flatten(it.events))
        for _, _, e in evs:
            if e.k == 'call' and e.name == 'MPI_Group_incl':
                p = pointee(e.args[2])
                if p is not None:
                    lists.add(p[0])
        if not lists:
            rec.undecided('process-number', where, 'list of processes not recognised')
            continue
        puts = [(lo, g_, e) for lo, g_, e in evs if e.k == 'store' and e.path[0] in lists and e.path[1] and e.path[1][-1][0] == 'i']
        for lo, g_, e in evs:
            if e.k != 'store' or not e.path[1] or e.path[1][-1][0] != 'f' or e.path[1][-1][1] not in IDS:
                continue
            name = e.path[1][-1][1]
            w = '%s:init_mesh' % e.coord
            world = P(atom('ld', (e.path[0], e.path[1][:-1] + (('f', 'ID_Comm_world'),)), 0))
            bad = None
            for cs, v in cases(e.val):
                verdict = place(it, lists, puts, lo, g_, v, world)
                if verdict is True:
                    continue
                bad = (v, verdict)
                break
            if bad is None:
                rec.ok('process-number', '%s is the place of the process in the list' % name)
                seen.add(name)
            elif bad[1]:
                rec.bad('process-number', w, '%s is %s, which is %s; required: the place of the process in the list of the communicator' % (name, show(bad[0]), bad[1]))
                seen.add(name)
            else:
                rec.undecided('process-number', w, '%s = %s' % (name, show(bad[0])[:200]))
    for x in IDS[:1] if not kw.get('smr') else IDS:
        if x not in seen:
            rec.undecided('process-number', where, x + ' is not set')


def cases(v):
    a = v.single_atom() if hasattr(v, 'single_atom') else None
    if a is not None and a.kind == 'ite':
        return cases(a.args[1]) + cases(a.args[2])
    return [((), v)]


def place(it, lists, puts, lo, g_, v, world):
    for l2, g2, p in puts:
        if tuple(x.var for x in l2) == tuple(x.var for x in lo) and p.val == world and set(map(str, conj(g2))) == set(map(str, conj(g_))):
            ix = p.path[1][-1][1]
            if ix == v:
                return True
            if (ix - v).is_const():
                return 'the place of another process'
    a = v.single_atom()
    if a is not None and a.kind == 'lout':
        for k, (b, o, lid, cell) in it.loopinfo.items():
            if lid == a.args[0] and cell == a.args[1]:
                return found(it, lists, k, o, lid, world)
        return None
    if a is not None and a.kind == 'ld' and a.args[0][0] in lists:
        return 'an entry of the list of world ranks'
    if v == world:
        return 'the world rank'
    return None


def found(it, lists, k, o, lid, world):
    """the search loop keeps an index whose entry is the world rank looked for"""
    x = o.single_atom()
    if x is None or x.kind != 'ite':
        return None
    c, a, b = x.args
    cur = P(k)
    if a == cur:
        c, a, b = c_not(c), b, a
    if b != cur:
        return None
    wp = world.single_atom().args[0]
    for q in conj([c]):
        if q in (True, False) or q[0] != 'lit' or not q[2]:
            continue
        d = next((x for x in q[1].args if isinstance(x, sym.Poly)), None)
        if d is None or c_eq0(d, True) != q:
            continue
        lds = [x.args[0] for x in d.atoms() if x.kind == 'ld'] if all(abs(cf) == 1 for cf in d.t.values()) else []
        if len(lds) == 2 and len(d.t) == 2 and wp in lds:
            r = lds[1 - lds.index(wp)]
            if r[0] in lists and r[1] == (('i', a),):
                return True
            if r[0] in lists and (r[1][-1][1] - a).is_const():
                return 'not the index searched for'
    if has_opaque(a):
        return None
    if any('ID_Comm_world' in show_cond(q) for q in conj([c])) and a.single_atom() is not None and a.single_atom().kind == 'ld':
        return 'not the index searched for'
    return None


def decomp(rec, kw, ngrid, rem):
    """init_mesh divides a domain into blocks without gaps or overlaps, one per process"""
    where = 'src/init_mesh.c:init_mesh'
    nproc = 13
    quot = [P(atom('sym', 'Q%d' % d)) for d in range(3)]
    names = {'AutoWithNProc': 0, 'NGrid_x1': ngrid[0], 'NGrid_x2': ngrid[1], 'NGrid_x3': ngrid[2]}

    def auto(it, n, args, types):
        k = strlit(args[1])
        return (P(names[k]), INT) if k in names else None
    nx = [ld(*DM, 'Nx', d) for d in range(3)]

    def cb_div(it, n, args, types):
        r = SVal()
        for d in range(3):
            if args[0] == nx[d] and args[1] == P(ngrid[d]):
                r[(('f', 'quot'),)], r[(('f', 'rem'),)] = quot[d], P(rem[d])
                return r, ('struct', 'div_t')
        return None
    vals = dict(single(1))
    fs = [c_le0(ngrid[d] * 4 - nx[d], True) if ngrid[d] > 1 else c_le0(1 - nx[d], True) for d in range(3)]
    its = pieces(rec, kw, ('GData',), {'par_geti_def': auto, 'div': cb_div}, {'maxlevel': 0, 'next_procID': 4, 'Nproc_Comm_world': nproc}, values=vals, assume=fs, unroll=16)
    for it in its:
        v = it.load(path(*DM, 'GData'), ('ptr', INT))
        p = pointee(v)
        ev = [e for _, _, e in flatten(it.events) if e.k == 'call' and e.name == 'calloc_3d_array']
        if p is None or len(ev) != 1:
            continue
        if p[1] and p[1][-1] == ('i', ZERO):
            p = (p[0], p[1][:-1])
        e = ev[0]
        for q in range(3):
            compare(rec, 'blocks', '%s:init_mesh' % e.coord, e.args[q], P(ngrid[2 - q]), 'blocks in direction %d' % (3 - q))
        at = lambda b, *f: it.load((p[0], p[1] + path('', b[2], b[1], b[0], *f)[1]), INT)
        ids = []
        for n in range(ngrid[2]):
            for m in range(ngrid[1]):
                for l in range(ngrid[0]):
                    b = (l, m, n)
                    ids.append(at(b, 'ID_Comm_world'))
                    for d in range(3):
                        w = quot[d] + (1 if b[d] < rem[d] else 0)
                        compare(rec, 'blocks', where, at(b, 'Nx', d), w, 'cells of block %s in direction %d' % (b, d + 1))
                        off = quot[d] * b[d] + min(b[d], rem[d])
                        compare(rec, 'blocks', where, at(b, 'Disp', d), ld(*DM, 'Disp', d) + off, 'displacement of block %s in direction %d' % (b, d + 1))
        if all(x.is_const() for x in ids):
            c = [int(x.const()) for x in ids]
            rec.expect(len(set(c)) == len(c) and min(c) >= 0 and max(c) < nproc, 'blocks', where, 'blocks of one domain are assigned to processes %s of %d' % (c, nproc))
        else:
            rec.undecided('blocks', where, 'process of block: %s' % show(next(x for x in ids if not x.is_const()))[:200])
        return
    rec.undecided('blocks', where, 'division into blocks not recognised')


def tasks(tier):
    out = []
    kws = [dict(gas='hydro'), dict(gas='mhd', nscalars=2, mpi=1), dict(gas='mhd', eos='isothermal', gravity='fft'), dict(gas='mhd', resistivity=1),
           dict(gas='mhd', coord='cylindrical'), dict(gas='hydro', nscalars=1, mpi=1, smr=1), dict(gas='hydro', particles='feedback')]
    for kw in kws:
        n = Config(**kw).name
        for dims in (1, 2, 3):
            for pos in ((0, 0, 0), (1, 0, 0), (3, 2, 0), (1, 1, 2)):
                if any(pos[d] for d in range(dims, 3)):
                    continue
                out.append(('grid %dD block %s %s' % (dims, pos, n), ('grid', kw, dims, pos)))
        out.append(('positions ' + n, ('coords', kw)))
        out.append(('block of a process ' + n, ('my_index', kw)))
    for kw in (dict(gas='hydro', mpi=1), dict(gas='hydro', mpi=1, smr=1)):
        for ng, rem in (((1, 1, 1), (0, 0, 0)), ((3, 2, 2), (2, 0, 1)), ((1, 4, 3), (0, 3, 1)), ((2, 1, 5), (1, 0, 4))):
            out.append(('blocks %s rest %s %s' % (ng, rem, Config(**kw).name), ('decomp', kw, ng, rem)))
        out.append(('process numbers ' + Config(**kw).name, ('comm', kw)))
    return out


RULE = ("Symbolic dataflow summary of init_grid for grids at several places of a domain (any sizes, 1D-3D): index ranges, cell sizes, displacement, bounds and, for every array "
        "the configuration needs, extents and element size (storage at least as large as the index range including ghost zones). Position functions and their inverse against the grid "
        "definition. init_mesh, statement by statement on an arbitrary mesh: blocks partition the domain without gap or overlap and go to different processes; the process numbers stored "
        "for a communicator are places in the list from which the communicator is made (search loops included).")
ASSUMPTIONS = ["active directions have at least two cells", "calloc_nd_array(n..., size) provides n... elements of the size asked for", "blocks per direction: 1 to 5 stand for any number"]
FLOORS = {"grid": 1200, "storage": 900, "position": 60, "index": 15, "blocks": 350, "process-number": 4}
