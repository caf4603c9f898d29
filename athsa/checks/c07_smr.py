"""Static mesh refinement: restriction, flux correction and prolongation between levels."""
import itertools
import os
import random
from ..integ import *
from .. import sym, ident
from ..sym import Fraction
from ..interp import SVal
from ..check import has_opaque
from . import c08_cons as c08, c09_ct as c09

RULE = ("init_grid, SMR_init, RestrictCorrect and Prolongate are evaluated one after the other over symbolic grid contents on small meshes of every relevant shape "
        "(child inside, at the edges of the root domain, sibling domains, three levels; 1D/2D/3D): afterwards every coarse cell and face must hold the mean of the "
        "final fine values it covers, every uncovered cell next to a fine one its old value with the coarse flux replaced by the mean of the fine fluxes, "
        "every other face its old value plus dt times the circulation of the difference of coarse and mean fine electric fields, and every fine "
        "ghost zone the prolongation of the coarse data (mean preserved, divergence preserved, linear data exact).")
ASSUMPTIONS = ["one process", "meshes of a few cells stand for all sizes", "arithmetic exact", "Cartesian coordinates"]
FLOORS = {'record': 100, 'restrict': 20, 'fluxcorrect': 20, 'linear': 10, 'mean': 10, 'monotone': 10, 'divergence': 3, 'flux': 3, 'centre': 10, 'bounds': 20}

NX = (16, 14, 12)


def meshes(dims):
    """name, [(level, disp, size)] in cells of the own level"""
    def box(level, lo, n):
        return (level, tuple(lo[:dims]), tuple(n[:dims]))
    yield 'inside', [box(1, (8, 10, 6), (6, 4, 4))]
    if dims == 1:
        yield 'lower edge', [box(1, (0,), (6,))]
        yield 'upper edge', [box(1, (24,), (8,))]
        yield 'siblings', [box(1, (4,), (6,)), box(1, (20,), (4,))]
        yield 'three levels', [box(1, (6,), (18,)), box(2, (24,), (6,))]
    else:
        for d in range(dims):
            lo, n = [8, 10, 6], [6, 4, 4]
            lo[d] = 0
            yield 'lower x%d edge' % (d + 1), [box(1, lo, n)]
            lo[d] = 2 * NX[d] - n[d]
            yield 'upper x%d edge' % (d + 1), [box(1, lo, n)]
        lo, n = [0, 28 - 4, 0], [4, 4, 4]
        yield 'corner', [box(1, lo, n)]
        if dims == 2:
            yield 'siblings', [box(1, (4, 10), (6, 4)), box(1, (20, 8), (4, 6))]
            yield 'three levels', [box(1, (6, 6), (18, 16)), box(2, (24, 22), (6, 4))]
        else:
            yield 'three levels', [box(1, (6, 4, 4), (16, 16, 16)), box(2, (22, 20, 18), (4, 4, 4))]


STORE = [dict(gas='mhd', nscalars=1), dict(gas='hydro', nscalars=1), dict(gas='mhd', nscalars=1, integrator='vl'), dict(gas='hydro', eos='isothermal', integrator='vl'),
         dict(gas='hydro', special_relativity=1, integrator='vl', order='2p'), dict(gas='mhd', special_relativity=1, integrator='vl', order='2p'),
         dict(gas='mhd', eos='isothermal'), dict(gas='hydro', coord='cylindrical')]


def tasks(tier):
    out = []
    for kw in STORE:
        for dims in (1, 2, 3):
            out.append(('records %dD %s' % (dims, Config(smr=1, **kw).name), ('records', dict(kw, smr=1), dims)))
    for gas, eos in (('hydro', 'adiabatic'), ('mhd', 'adiabatic'), ('mhd', 'isothermal')):
        for dims in (1, 2, 3):
            kw = dict(gas=gas, eos=eos, smr=True, nscalars=1)
            if gas == 'mhd' and eos == 'isothermal' and dims == 3 and tier != 'thorough':
                continue
            for name, doms in meshes(dims):
                out.append((Config(**kw).name + ',%dD' % dims + ',' + name, ('restrict', kw, dims, name, doms)))
                if tier == 'thorough' or dims < 3 or eos == 'adiabatic' and name in ('inside', 'corner'):
                    out.append((Config(**kw).name + ',%dD' % dims + ',prolong ' + name, ('prolong', kw, dims, name, doms)))
    return out


class Mesh:
    """the mesh set up by init_grid and SMR_init, contents symbolic"""

    def __init__(self, cfg, dims, doms):
        self.cfg, self.dims = cfg, dims
        self.prog = prog = Program(cfg, symbolic_enums=())
        self.doms = {(0, 0): ((0,) * dims, NX[:dims])}
        for lev, lo, n in doms:
            k = sum(1 for q in self.doms if q[0] == lev)
            self.doms[lev, k] = (lo, n)
        v, f = {('myID_Comm_world', ()): P(0)}, []
        nlev = 1 + max(q[0] for q in self.doms)
        v[path('#0', 0, 'NLevels')] = P(nlev)
        for lev in range(nlev):
            v[path('#0', 0, 'DomainsPerLevel', lev)] = P(sum(1 for q in self.doms if q[0] == lev))
        for d in range(3):
            v[path('#0', 0, 'Nx', d)] = P(NX[d] if d < dims else 1)
        for q, (lo, n) in self.doms.items():
            D = self.D(q)
            f.append(ne(base(*D, 'Grid'), 0))
            v[path(*D, 'Level')] = P(q[0])
            for d in range(3):
                a, b = (lo[d], n[d]) if d < dims else (0, 1)
                for x in (D, D + ('GData', 0, 0, 0)):
                    v[path(*x, 'Nx', d)] = P(b)
                    v[path(*x, 'Disp', d)] = P(a)
                v[path(*D, 'NGrid', d)] = P(1)
            for x in ('ID_Comm_world', 'ID_Comm_Domain', 'ID_Comm_Parent', 'ID_Comm_Children'):
                v[path(*D, 'GData', 0, 0, 0, x)] = P(0)
        self.it = it = Interp(prog, opaque=['ath_error'], effects={'ath_error': []}, values=v, assume=f)
        it.unroll, it.allocs = 10 ** 6, {}
        it.run('init_grid', None)
        self.call('SMR_init')
        self.ng = int(it.load(path(*self.G((0, 0)), 'is'), ('int',)).const())
        self.mhd = cfg['gas'] == 'mhd'
        self.iso = cfg['eos'] == 'isothermal'
        self.data = set()
        self.root = {}
        for q in self.doms:
            for a in ('U',) + (('B1i', 'B2i', 'B3i') if self.mhd else ()):
                self.root[q, a] = self.ptr(path(*self.G(q), a))
        self.surface()
        it.data = set(self.root.values()) | self.data
        if self.mhd and dims > 1:
            # cell-centred fields are the means of the faces to begin with
            for q, (lo, n) in self.doms.items():
                for g in itertools.product(*[range(lo[d] - self.ng, lo[d] + n[d] + self.ng - 1) if d < dims else (0,) for d in range(3)]):
                    i, j, k = self.local(q, g)
                    for b in range(dims):
                        it.values[path(self.root[q, 'U'], k, j, i, 'B%dc' % (b + 1))] = (self.old(q, 'B%di' % (b + 1), g) + self.old(q, 'B%di' % (b + 1), step(g, b))) * P(Fraction(1, 2))

    def call(self, fn):
        it = self.it
        it.kills, it.bottom, it.frames = {}, False, []
        it.run(fn, None)

    def D(self, q):
        return ('#0', 0, 'Domain', q[0], q[1])

    def G(self, q):
        return self.D(q) + ('Grid', 0)

    def num(self, *p):
        v = self.it.load(path(*p), ('int',))
        if not v.is_const():
            raise AnalysisError('%s is not determined by the mesh: %s' % (show_path(path(*p)), show(v)[:120]))
        return int(v.const())

    def ptr(self, p):
        v = self.it.load(p, ('ptr', None))
        a = v.single_atom()
        if not v.t:
            return None
        if a is None or a.kind != 'base' or a.args[0][1]:
            raise AnalysisError('%s is not an allocated array: %s' % (sym.show_path(p), show(v)[:120]))
        return a.args[0][0]

    # ------------------------------------------------------------ geometry
    def children(self, q):
        return [c for c in self.doms if c[0] == q[0] + 1 and all(self.doms[c][0][d] // 2 >= self.doms[q][0][d] and
                (self.doms[c][0][d] + self.doms[c][1][d]) // 2 <= self.doms[q][0][d] + self.doms[q][1][d] for d in range(self.dims))]

    def sides(self, c):
        """2*dim+side of the child's faces that are fine/coarse boundaries"""
        lo, n = self.doms[c]
        out = []
        for d in range(self.dims):
            if lo[d] > 0:
                out.append(2 * d)
            if lo[d] + n[d] < NX[d] * 2 ** c[0]:
                out.append(2 * d + 1)
        return out

    def surface(self):
        """give the flux and electric-field records of every overlap the names of the faces and edges they stand for; index arrays of
        a record follow the transverse axes, slow one first"""
        it = self.it
        self.names = {}
        for q in self.doms:
            for o, N in (('CGrid', 'NCGrid'), ('PGrid', 'NPGrid')):
                n = self.num(*self.G(q), N)
                if not n:
                    continue
                og = self.ptr(path(*self.G(q), o))
                for k in range(n):
                    s = [self.num(og, k, 'ijks', d) for d in range(3)]
                    e = [self.num(og, k, 'ijke', d) for d in range(3)]
                    for side in range(6):
                        d, up = side // 2, side % 2
                        t = [x for x in (2, 1, 0) if x != d]
                        pos = (e[d] + 1) if up else s[d]
                        r = self.ptr(path(og, k, 'myFlx', side))
                        if r:
                            self.data.add(r)
                            for a in range(e[t[0]] - s[t[0]] + 1):
                                for b in range(e[t[1]] - s[t[1]] + 1):
                                    ijk = [0, 0, 0]
                                    ijk[d], ijk[t[0]], ijk[t[1]] = pos, s[t[0]] + a, s[t[1]] + b
                                    for f in self.cons(allb=True):
                                        it.values[path(r, a, b, *f)] = self.flux(q[0], d, self.glob(q, ijk), f)
                        if not self.mhd:
                            continue
                        for c in range(3):
                            r = self.ptr(path(og, k, 'myEMF%d' % (c + 1), side))
                            if not r:
                                continue
                            self.data.add(r)
                            for a in range(e[t[0]] - s[t[0]] + 1 + (c != t[0])):
                                for b in range(e[t[1]] - s[t[1]] + 1 + (c != t[1])):
                                    ijk = [0, 0, 0]
                                    ijk[d], ijk[t[0]], ijk[t[1]] = pos, s[t[0]] + a, s[t[1]] + b
                                    it.values[path(r, a, b)] = self.emf(q[0], c, self.glob(q, ijk))

    def flux(self, lev, d, g, f):
        return S('F%d.%s(level %d; %d,%d,%d)' % ((d + 1, fname(f), lev) + tuple(g)))

    def emf(self, lev, c, g):
        return S('emf%d(level %d; %d,%d,%d)' % ((c + 1, lev) + tuple(g)))

    def glob(self, q, ijk):
        lo = self.doms[q][0]
        return tuple(ijk[d] - self.ng + lo[d] if d < self.dims else 0 for d in range(3))

    def local(self, q, g):
        lo = self.doms[q][0]
        return [g[d] + self.ng - lo[d] if d < self.dims else 0 for d in range(3)]

    def cons(self, allb=False):
        out = [('d',), ('M1',), ('M2',), ('M3',)]
        if not self.iso:
            out.append(('E',))
        out += [('s', n) for n in range(self.cfg['nscalars'])]
        if self.mhd:
            out += [('B%dc' % (c + 1),) for c in range(3) if allb or c >= self.dims]
        return out

    # ------------------------------------------------------------ contents
    def U(self, q, g, f):
        i, j, k = self.local(q, g)
        return self.it.load(path(self.root[q, 'U'], k, j, i, *f), DBL)

    def B(self, q, c, g):
        i, j, k = self.local(q, g)
        return self.it.load(path(self.root[q, 'B%di' % (c + 1)], k, j, i), DBL)

    def old(self, q, arr, g, f=()):
        i, j, k = self.local(q, g)
        return ld(self.root[q, arr], k, j, i, *f)

    def dx(self, q, d):
        return self.it.load(path(*self.G(q), 'dx%d' % (d + 1)), DBL)

    def dt(self, q):
        return self.it.load(path(*self.G(q), 'dt'), DBL)

    def fine(self, g, along=None):
        """fine cells (faces normal to / edges along ...) covering a coarse index; along: axes not doubled"""
        rng = []
        for d in range(3):
            if d >= self.dims:
                rng.append((0,))
            elif along is not None and d in along:
                rng.append((2 * g[d],))
            else:
                rng.append((2 * g[d], 2 * g[d] + 1))
        return list(itertools.product(*rng))

    def cells(self, q):
        lo, n = self.doms[q]
        return itertools.product(*[range(lo[d], lo[d] + n[d]) if d < self.dims else (0,) for d in range(3)])

    def cover(self, q, g):
        """the child whose domain covers cell g"""
        for c in self.children(q):
            lo, n = self.doms[c]
            if all(lo[d] // 2 <= g[d] < (lo[d] + n[d]) // 2 for d in range(self.dims)):
                return c
        return None


def fname(f):
    return f[0] if len(f) == 1 else '%s[%d]' % f


def step(g, d, n=1):
    return tuple(x + (n if a == d else 0) for a, x in enumerate(g))


def mean(xs):
    xs = list(xs)
    s = P(0)
    for x in xs:
        s = s + x
    return s * P(Fraction(1, len(xs)))


class Verdicts:
    """one obligation per rule and kind of location, the first mismatch reported"""

    def __init__(self, rec, where):
        self.rec, self.where = rec, where
        self.n, self.bad = {}, {}

    def same(self, rule, kind, at, got, want):
        self.n[rule, kind] = self.n.get((rule, kind), 0) + 1
        if (rule, kind) in self.bad:
            return
        if isinstance(got, sym.Poly) and got == want:
            return
        d = got - want
        if not d.t:
            return
        if any(a.kind in ('unk', 'wild', 'lout', 'in', 'red', 'call') for a in got.atoms()):
            self.bad[rule, kind] = ('undecided', at, got, want)
        else:
            self.bad[rule, kind] = ('wrong', at, got, want)

    def flush(self):
        for (rule, kind), n in sorted(self.n.items(), key=str):
            text = '%s (%d instances)' % (kind, n)
            b = self.bad.get((rule, kind))
            if b is None:
                self.rec.ok(rule, text)
            elif b[0] == 'undecided':
                self.rec.undecided(rule, self.where, '%s: at %s the value is %s' % (kind, b[1], show(b[2])[:200]))
            else:
                self.rec.bad(rule, self.where, '%s; at %s it is %s instead of %s' % (kind, b[1], show(b[2])[:260], show(b[3])[:260]))


def restrict(rec, kw, dims, name, doms):
    cfg = Config(**kw)
    M = Mesh(cfg, dims, doms)
    it = M.it
    M.call('RestrictCorrect')
    u, _ = M.prog.need('RestrictCorrect')
    where = u.rel + ': RestrictCorrect'
    rec.fn(where)
    rec.fn('init_grid.c: init_grid')
    rec.add_stats(it)
    V = Verdicts(rec, where)
    for q in M.doms:
        kids = M.children(q)
        corr = {c: M.sides(c) for c in kids}
        lo, n = M.doms[q]
        # ---- cells
        for g in M.cells(q):
            c = M.cover(q, g)
            at = 'level %d cell (%d,%d,%d)' % ((q[0],) + g)
            for f in M.cons():
                got = M.U(q, g, f)
                if c:
                    V.same('restrict', 'a covered cell holds the mean of the fine cells: %s' % fname(f), at, got, mean(M.U(c, h, f) for h in M.fine(g)))
                    continue
                want = M.old(q, 'U', g, f)
                kind = 'a cell away from fine ones is unchanged: %s' % fname(f)
                for d in range(dims):
                    for up in (0, 1):
                        if M.cover(q, step(g, d, 1 if up else -1)):
                            face = step(g, d, up)
                            kind = 'a cell next to a fine one has the coarse flux replaced by the mean fine flux: %s' % fname(f)
                            dF = M.flux(q[0], d, face, f) - mean(M.flux(q[0] + 1, d, h, f) for h in M.fine(face, (d,)))
                            want = want + dF * M.dt(q) * sym.inv(M.dx(q, d)) * P(1 if up else -1)
                V.same('fluxcorrect', kind, at, got, want)
            if M.mhd:
                for b in range(dims) if dims > 1 else ():
                    V.same('centre', 'cell-centred field is the mean of the faces: B%dc' % (b + 1), at, M.U(q, g, ('B%dc' % (b + 1),)),
                           (M.B(q, b, g) + M.B(q, b, step(g, b))) * P(Fraction(1, 2)))
        # ---- faces
        if not M.mhd or dims == 1:
            continue
        edges = surface_edges(M, q)
        for b in range(dims):
            for g in itertools.product(*[range(lo[d], lo[d] + n[d] + (d == b)) if d < dims else (0,) for d in range(3)]):
                at = 'level %d x%d-face (%d,%d,%d)' % ((q[0], b + 1) + g)
                got = M.B(q, b, g)
                left, right = M.cover(q, step(g, b, -1)), M.cover(q, g)
                inner = left is not None and right is not None
                if not inner and (left or right):
                    c = left or right
                    side = 2 * b + (1 if left else 0)
                    inner = side not in corr[c]
                if inner:
                    c = right or left
                    V.same('restrict', 'a covered face holds the mean of the fine faces: B%d' % (b + 1), at, got, mean(M.B(c, b, h) for h in M.fine(g, (b,))))
                    continue
                want = M.old(q, 'B%di' % (b + 1), g)
                kind = 'a face away from fine cells is unchanged: B%d' % (b + 1)
                for e, a in (((b + 2) % 3, (b + 1) % 3), ((b + 1) % 3, (b + 2) % 3)):
                    # (curl E)_b = d_{b+1} E_{b+2} - d_{b+2} E_{b+1}
                    if a >= dims:
                        continue
                    sgn = 1 if e == (b + 2) % 3 else -1
                    for hi in (0, 1):
                        ed = (e, step(g, a, hi))
                        if ed in edges:
                            kind = 'a face at the fine/coarse boundary has the coarse electric field replaced by the mean fine one: B%d' % (b + 1)
                            dE = M.emf(q[0], e, ed[1]) - mean(M.emf(q[0] + 1, e, h) for h in M.fine(ed[1], [x for x in range(3) if x != e]))
                            want = want + dE * M.dt(q) * sym.inv(M.dx(q, a)) * P(sgn * (1 if hi else -1))
                V.same('fluxcorrect', kind, at, got, want)
    V.flush()
    bounds(rec, M, where)


def bounds(rec, M, where):
    seen = set()
    for what, p, sizes, alloc, guards, fn in M.it.oob:
        k = (fn, what, alloc)
        if k in seen:
            continue
        seen.add(k)
        rec.bad('bounds', where, '%s of element %s of the array allocated at %s with extents %s' % (what, sym.show_path(p)[:80], alloc, ' x '.join(show(x) for x in sizes)))
    if not seen:
        rec.ok('bounds', 'all %d arrays are accessed within their allocated extents' % len(M.it.allocs))


def surface_edges(M, q):
    """edges of q on corrected faces of its children"""
    out = set()
    for c in M.children(q):
        lo, n = M.doms[c]
        s, e = [x // 2 for x in lo], [(x + y) // 2 for x, y in zip(lo, n)]
        for side in M.sides(c):
            d, up = side // 2, side % 2
            for a in range(3):
                if a == d or (M.dims == 2 and a != 2):
                    continue
                rng = []
                for x in range(3):
                    if x >= M.dims:
                        rng.append((0,))
                    elif x == d:
                        rng.append((e[d] if up else s[d],))
                    elif x == a:
                        rng.append(range(s[x], e[x]))
                    else:
                        rng.append(range(s[x], e[x] + 1))
                for g in itertools.product(*rng):
                    out.add((a, g))
    return out


# ---------------------------------------------------------------- prolongation

class Ghosts:
    """which cells and faces of a fine domain prolongation has to fill"""

    def __init__(self, M, c):
        self.M, self.c = M, c
        self.lo, self.n = M.doms[c]
        self.slabs = []
        for s in M.sides(c):
            d, up = s // 2, s % 2
            box = [(self.lo[a] - M.ng, self.lo[a] + self.n[a] + M.ng) if a < M.dims else (0, 1) for a in range(3)]
            box[d] = (self.lo[d] + self.n[d], box[d][1]) if up else (box[d][0], self.lo[d])
            self.slabs.append((d, up, box))

    def cell(self, g):
        return any(all(b[0] <= x < b[1] for x, b in zip(g, box)) for d, up, box in self.slabs)

    def face(self, b, g):
        for d, up, box in self.slabs:
            if all(y[0] <= x < y[1] for x, y in zip(g, box)) and not (d == b and up and g[b] == box[b][0]):
                return True
        return False

    def exists(self, g):
        """in the arrays of the fine grid"""
        return all(self.lo[a] - self.M.ng <= g[a] < self.lo[a] + self.n[a] + self.M.ng for a in range(self.M.dims))

    def active(self, g, b=None):
        return all(self.lo[a] <= g[a] < self.lo[a] + self.n[a] + (a == b) for a in range(self.M.dims))

    def cells(self):
        for g in itertools.product(*[range(self.lo[a] - self.M.ng, self.lo[a] + self.n[a] + self.M.ng) if a < self.M.dims else (0,) for a in range(3)]):
            yield g


class Field:
    """an interpretation of the initial contents of all the grids"""

    def __init__(self, M, ghosts, kind, seed, axis=0):
        self.M, self.ghosts, self.kind = M, ghosts, kind
        self.seed, self.axis = seed, axis
        self.where = {r: qa for qa, r in M.root.items()}
        r = random.Random(seed)
        self.h = [Fraction(r.randint(50, 150), 100) for _ in range(3)]
        self.co = {}
        for f in ('d', 'M1', 'M2', 'M3', 'P', 's', 'B1', 'B2', 'B3'):
            self.co[f] = [Fraction(r.randint(-900, 900), 1000) for _ in range(4)]
            if f in ('d', 'P'):
                self.co[f][0] += 100
        if M.dims > 1:
            # divergence-free
            s = self.co['B1'][1]
            if M.dims == 3:
                self.co['B3'][3] = Fraction(r.randint(-900, 900), 1000)
                s += self.co['B3'][3]
            else:
                self.co['B3'][3] = Fraction(0)
            self.co['B2'][2] = -s
        else:
            self.co['B1'][1:] = [Fraction(0)] * 3
        self.memo = {}
        self.dxs = {}
        for q in M.doms:
            for d in range(3):
                a = M.dx(q, d).single_atom()
                if a is not None:
                    self.dxs[a] = self.h[d] / 2 ** q[0]

    def linear(self, f, x):
        c = self.co[f]
        return c[0] + sum(c[1 + d] * x[d] for d in range(self.M.dims))

    def pos(self, lev, g, face=None):
        return [self.h[d] / 2 ** lev * (g[d] if d == face else g[d] + Fraction(1, 2)) for d in range(3)]

    def U(self, q, g, f):
        """initial value of component f of a cell"""
        k = (q, g, f)
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = self._U(q, g, f)
        return v

    def _U(self, q, g, f):
        f0 = f[0]
        if f0 == 'E':
            v = self.U(q, g, ('P',)) + sum(self.U(q, g, ('M%d' % a,)) ** 2 for a in (1, 2, 3)) / self.U(q, g, ('d',)) / 2
            if self.M.mhd:
                v += sum(self.U(q, g, ('B%dc' % a,)) ** 2 for a in (1, 2, 3)) / 2
            return v
        if f0[0] == 'B' and f0[2:] == 'c' and self.M.dims > 1:
            b = int(f0[1]) - 1
            if b < self.M.dims:
                return (self.B(q, b, g) + self.B(q, b, step(g, b))) / 2
            return self.B(q, b, g)
        f1 = f0[:2] if f0[0] == 'B' else f0
        if self.kind == 'linear':
            return self.linear(f1, self.pos(q[0], g)) + (f[1] if len(f) > 1 else 0)
        return self.rand((q[0] if self.kind != 'random' else q, g, f))

    def B(self, q, b, g):
        k = (q, b, g)
        v = self.memo.get(k)
        if v is None:
            v = self.memo[k] = self._B(q, b, g)
        return v

    def _B(self, q, b, g):
        if self.kind == 'linear':
            return self.linear('B%d' % (b + 1), self.pos(q[0], g, b if b < self.M.dims else None))
        if self.M.dims == 1:
            return self.U(q, g, ('B%dc' % (b + 1),))
        if b < self.M.dims:
            # a coarse face made up of fine faces that are given holds their mean
            for c in self.M.children(q):
                G = self.ghosts[c]
                hs = self.M.fine(g, (b,))
                if all((G.exists(h) or G.active(h, b)) and not G.face(b, h) for h in hs):
                    return sum(self.B(c, b, h) for h in hs) / len(hs)
        return self.rand((q, b, g))

    def rand(self, key):
        f = key[2] if isinstance(key[2], tuple) and isinstance(key[2][0], str) else ('B',)
        base = 40 if f[0] in ('d', 'P') else 0
        if isinstance(key[1], int):
            return Fraction(random.Random(repr((self.seed, key))).randint(-9999, 9999), 1000)
        if self.kind == 'checker':
            g = key[1]
            s = 1 if sum(g) % 2 else -1
            return base + s * Fraction(random.Random(repr((self.seed, key))).randint(4000, 9999), 1000)
        if self.kind == 'ramp':
            # a function of one coordinate, rising in uneven steps
            x = key[1][self.axis] + 40
            up = 1 if random.Random(repr((self.seed, f))).random() < .5 else -1
            v = Fraction(0)
            for i in range(x):
                v += Fraction(random.Random(repr((self.seed, f, i))).randint(1, 999), 1000)
            return base + up * v / 3
        return base + Fraction(random.Random(repr((self.seed, key))).randint(-9999, 9999), 1000)

    def named(self, a):
        if a in self.dxs:
            return self.dxs[a]
        if a.kind != 'ld':
            return None
        root, idx = a.args[0]
        w = self.where.get(root)
        if w is None:
            return None
        q, arr = w
        ks = [x[1] for x in idx[:3]]
        ks = [int(x.const()) if isinstance(x, sym.Poly) else int(x) for x in ks]
        g = self.M.glob(q, ks[::-1])
        if arr == 'U':
            f = tuple(x[1] if isinstance(x[1], str) else int(x[1].const() if isinstance(x[1], sym.Poly) else x[1]) for x in idx[3:])
            return self.U(q, g, f)
        return self.B(q, int(arr[1]) - 1, g)


def prolong(rec, kw, dims, name, doms):
    import mpmath
    cfg = Config(**kw)
    M = Mesh(cfg, dims, doms)
    it = M.it
    # before: ghost contents stand for whatever was there
    M.call('Prolongate')
    u, _ = M.prog.need('Prolongate')
    where = u.rel + ': Prolongate'
    rec.fn(where)
    rec.add_stats(it)
    ghosts = {c: Ghosts(M, c) for c in M.doms if c[0] > 0}
    V = Verdicts(rec, where)
    # ---- what must not change
    for q, (lo, n) in M.doms.items():
        G = ghosts.get(q)
        for g in itertools.product(*[range(lo[d] - M.ng, lo[d] + n[d] + M.ng) if d < dims else (0,) for d in range(3)]):
            at = 'level %d (%d,%d,%d)' % ((q[0],) + g)
            if not (G and G.cell(g)):
                for f in M.cons():
                    V.same('unchanged', 'a zone that is no fine/coarse ghost zone keeps its value: %s' % fname(f), at, M.U(q, g, f), M.old(q, 'U', g, f))
            if M.mhd and dims > 1:
                for b in range(dims):
                    if not (G and G.face(b, g)):
                        V.same('unchanged', 'a face that is in no fine/coarse ghost zone keeps its value: B%d' % (b + 1), at, M.B(q, b, g), M.old(q, 'B%di' % (b + 1), g))
    V.flush()
    # ---- what the ghost zones must hold
    states = [('linear', 1, 0), ('random', 2, 0), ('random', 3, 0), ('checker', 4, 0)] + [('ramp', 5 + a, a) for a in range(dims)]
    fs = M.cons(allb=True)
    with mpmath.workdps(ident.DPS):
        res = {}
        for kind, seed, axis in states:
            F = Field(M, ghosts, kind, seed, axis)
            st = ident.State(F.named, seed)
            st.memo_ok = True
            val = {}

            def num(x, st=st):
                return st.poly(x)

            def cur(q, f, g, val=val, num=num):
                k = (q, f, g)
                if k not in val:
                    val[k] = num(M.U(q, g, f) if isinstance(f, tuple) else M.B(q, f, g))
                return val[k]

            def note(rule, text, ok, at, got, want):
                k = (rule, text)
                n, bad = res.get(k, (0, None))
                if not ok and bad is None:
                    bad = '%s it is %s instead of %s (%s data)' % (at, mpmath.nstr(got, 8), want if isinstance(want, str) else mpmath.nstr(want, 8), kind)
                res[k] = (n + 1, bad)

            def close(a, b):
                return ident.same(a, b, 1)
            try:
                for c, G in ghosts.items():
                    par = [q for q in M.doms if c in M.children(q)][0]

                    def known(b, g, G=G):
                        return G.face(b, g) or G.active(g, b)
                    blocks = {}
                    for g in G.cells():
                        if G.cell(g):
                            blocks.setdefault(tuple(x // 2 if a < dims else 0 for a, x in enumerate(g)), []).append(g)
                    for cg, gs in blocks.items():
                        at = 'at level %d (%d,%d,%d)' % ((c[0],) + gs[0])
                        for f in fs:
                            isB = f[0][0] == 'B' and dims > 1
                            if kind == 'linear':
                                for g in gs:
                                    w = F.U(c, g, f)
                                    note('linear', 'linear data are reproduced: %s' % fname(f), close(cur(c, f, g), mpf(w)), 'at level %d (%d,%d,%d)' % ((c[0],) + g), cur(c, f, g), mpf(w))
                            elif f[0] != 'E' and not isB and len(gs) == 2 ** dims:
                                m = sum(cur(c, f, g) for g in gs) / len(gs)
                                w = cur(par, f, cg)
                                note('mean', 'the fine values average to the coarse one: %s' % fname(f), close(m, w), at, m, w)
                                if kind == 'checker' and par[0] == 0:
                                    for g in gs:
                                        note('monotone', 'a coarse extremum is prolonged as a constant: %s' % fname(f), close(cur(c, f, g), w), at, cur(c, f, g), w)
                                if kind == 'ramp' and par[0] == 0:
                                    nb = [cur(par, f, step(cg, axis, s)) for s in (-1, 1)]
                                    for g in gs:
                                        s = -1 if g[axis] % 2 == 0 else 1
                                        e = (w + nb[0 if s < 0 else 1]) / 2
                                        v = cur(c, f, g)
                                        note('monotone', 'a prolonged value lies between the coarse value and half way to the neighbour: %s' % fname(f),
                                             min(w, e) - ident.TOL <= v <= max(w, e) + ident.TOL, at, v, 'between %s and %s' % (mpmath.nstr(w, 8), mpmath.nstr(e, 8)))
                                        # not first order
                                        note('slope', 'monotone coarse data are prolonged with a slope: %s' % fname(f), abs(v - w) > ident.TOL, at, v, 'different from the coarse value')
                        if not M.mhd:
                            continue
                        if dims == 1:
                            for g in gs:
                                for b in range(3):
                                    note('centre', 'face and cell-centred field agree: B%d' % (b + 1), close(cur(c, b, g), cur(c, ('B%dc' % (b + 1),), g)), at, cur(c, b, g), cur(c, ('B%dc' % (b + 1),), g))
                            continue
                        for g in gs:
                            for b in range(3):
                                if b >= dims:
                                    if kind == 'linear':
                                        note('linear', 'linear data are reproduced: B%d at faces' % (b + 1), close(cur(c, b, g), mpf(F.B(c, b, g))), at, cur(c, b, g), mpf(F.B(c, b, g)))
                                    continue
                                if known(b, g) and known(b, step(g, b)):
                                    m = (cur(c, b, g) + cur(c, b, step(g, b))) / 2
                                    note('centre', 'the cell-centred field is the mean of the faces: B%d' % (b + 1), close(m, cur(c, ('B%dc' % (b + 1),), g)), at, cur(c, ('B%dc' % (b + 1),), g), m)
                                if kind == 'linear' and G.face(b, g):
                                    note('linear', 'linear divergence-free data are reproduced: B%d' % (b + 1), close(cur(c, b, g), mpf(F.B(c, b, g))), at, cur(c, b, g), mpf(F.B(c, b, g)))
                            if all(known(b, step(g, b, s)) for b in range(dims) for s in (0, 1)):
                                dv = sum((cur(c, b, step(g, b)) - cur(c, b, g)) / mpf(F.h[b] / 2 ** c[0]) for b in range(dims))
                                dw = sum((cur(par, b, step(cg, b)) - cur(par, b, cg)) / mpf(F.h[b] / 2 ** par[0]) for b in range(dims))
                                note('divergence', 'every prolonged cell has the divergence of the coarse cell', close(dv, dw), at, dv, dw)
                        for b in range(dims):
                            for s in (0, 1):
                                cf = step(cg, b, s)
                                hs = M.fine(cf, (b,))
                                if all(known(b, h) for h in hs):
                                    m = sum(cur(c, b, h) for h in hs) / len(hs)
                                    w = cur(par, b, cf)
                                    note('flux', 'the fine faces average to the coarse face: B%d' % (b + 1), close(m, w), at, m, w)
            except sym._CantEval as e:
                rec.undecided('prolong', where, '%s data: %s' % (kind, e))
        for (rule, text), (n, bad) in sorted(res.items()):
            if bad:
                rec.bad(rule, where, '%s; %s' % (text, bad))
            else:
                rec.ok(rule, '%s (%d instances)' % (text, n))
    bounds(rec, M, where)


def mpf(x):
    import mpmath
    return mpmath.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else mpmath.mpf(x)


# ---------------------------------------------------------------- what the integrators record

def records(rec, kw, dims):
    cfg = Config(**kw)
    vals = {gp('NCGrid'): P(1), gp('NPGrid'): P(1), gp('NmyPGrid'): P(1), gp('NmyCGrid'): P(1)}
    facts = []
    lo, hi = {}, {}
    for d in range(dims, 3):
        vals[gp(('is', 'js', 'ks')[d])] = vals[gp(('ie', 'je', 'ke')[d])] = P(0)
    for o in ('CGrid', 'PGrid'):
        for side in range(6):
            for f in ('myFlx',) + (('myEMF1', 'myEMF2', 'myEMF3') if cfg['gas'] == 'mhd' else ()):
                if side < 2 * dims:
                    facts.append(ne(base(*(R + (o, 0, f, side))), 0))
                else:
                    vals[gp(o, 0, f, side)] = P(0)
        lo[o] = [gl(o, 0, 'ijks', d) for d in range(3)]
        hi[o] = [gl(o, 0, 'ijke', d) for d in range(3)]
        for d in range(3):
            if d < dims:
                facts += [le(ST[d], lo[o][d]), le(lo[o][d] + 1, hi[o][d]), le(hi[o][d], EN[d]), le(lo[o][d], hi[o][d])]
            else:
                vals[gp(o, 0, 'ijks', d)] = vals[gp(o, 0, 'ijke', d)] = P(0)
                lo[o][d] = hi[o][d] = P(0)
    prog, fn, it = summarise(cfg, dims, values=vals, facts=[f for f in facts if f is not True])
    rec.fn(fn)
    rec.add_stats(it)
    roots = c08.flux_roots(flux_calls(it))
    idx, cf = cell(dims)
    idx = [idx[d] if d < dims else P(0) for d in range(3)]
    ax = c08.axes_of(rec, it, cfg, dims, fn, roots, idx, cf)
    if ax is None:
        return
    emf = {}
    if cfg['gas'] == 'mhd' and dims > 1:
        q = Quiet()
        emf = c09.faces(q, it, cfg, dims, fn)
        if emf is None:
            rec.undecided('record', fn, 'the electric fields of the face update were not identified')
            emf = {}
    A, B = S('a'), S('b')
    for o in ('CGrid', 'PGrid'):
        for side in range(2 * dims):
            d, up = side // 2, side % 2
            t = [x for x in (2, 1, 0) if x != d]
            at = [None] * 3
            at[d] = hi[o][d] + 1 if up else lo[o][d]
            rf = []
            ab = []
            for x, v in zip(t, (A, B)):
                if x < dims:
                    at[x] = lo[o][x] + v
                    rf += [le(0, v), le(v, hi[o][x] - lo[o][x])]
                    ab.append(v)
                else:
                    at[x] = P(0)
                    ab.append(P(0))
            root, nd = ax[d]
            for f in cons_fields(cfg):
                c = c08.comp(f, d)
                w = '%s: %s.myFlx[%d].%s' % (fn, o, side, '.'.join(map(str, f)))
                got = post(it, gp(o, 0, 'myFlx', side, ab[0], ab[1], *f), DBL, [x for x in rf if x is not True])
                if c is None:
                    want = P(0)
                else:
                    want = P(atom('ld', (root, tuple(('i', x) for x in reversed(at[:nd])) + c), 0))
                verdict(rec, w, got, want, 'the flux across that face')
            if cfg['gas'] != 'mhd' or dims == 1:
                continue
            for c in range(3):
                if c == d or dims == 2 and c != 2 or c not in emf:
                    continue
                rf, ab, at2 = [], [], list(at)
                for x, v in zip(t, (A, B)):
                    if x < dims:
                        at2[x] = lo[o][x] + v
                        rf += [le(0, v), le(v, hi[o][x] - lo[o][x] + (1 if x != c else 0))]
                        ab.append(v)
                    else:
                        ab.append(P(0))
                w = '%s: %s.myEMF%d[%d]' % (fn, o, c + 1, side)
                got = post(it, gp(o, 0, 'myEMF%d' % (c + 1), side, *ab), DBL, [x for x in rf if x is not True])
                verdict(rec, w, got, c09.els(emf[c], at2, dims), 'the electric field along that edge')


def verdict(rec, w, got, want, what):
    r = sym.equal_values(got, want)
    if r:
        rec.ok('record', w)
    elif r is None or has_opaque(got):
        rec.undecided('record', w, '%s vs %s' % (show(got)[:300], show(want)[:200]))
    else:
        rec.bad('record', w, 'records %s instead of %s, %s' % (show(got)[:300], show(want)[:200], what))


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None
