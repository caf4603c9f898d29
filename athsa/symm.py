"""Equivariance of a grid routine under relabelling of the coordinate axes.

The routine is summarised with all arrays frozen: every store event is a
definition  array[k][j][i].field := value  over an index range.  From the
final contents of the state arrays the analysis walks backwards over the
definitions that reach each read (demand driven, by symbolic position: first,
interior, last cell of each axis plus an integer offset) and compares, for every
demanded location, the definition with the relabelled definition of the
relabelled location.  Only what the result depends on is compared, so the
spelling of loops and the order of independent statements do not matter."""
import re
from .interp import flatten
from .halo import addr_key
from . import sym
from .sym import P, S, atom, show, ZERO, ONE

I = [S('i!'), S('j!'), S('k!')]
IA = [x.single_atom() for x in I]
LOW, HIGH = ('is', 'js', 'ks'), ('ie', 'je', 'ke')
NGH = 4


class NotUnderstood(Exception):
    pass


class Ev:
    __slots__ = ('arr', 'sfx', 'rng', 'val', 'guard', 'seq', 'coord', 'reads', 'self', 'inc')


class Pot:
    """function pointers whose first three arguments are coordinates"""
    NAMES = ('StaticGravPot', 'ShearingBoxPot', 'x1GravAcc', 'OrbitalProfile')


class Routine:
    def __init__(self, it, unit, dims, order=3, outs=None, hidden=None):
        self.it = it
        self.dims = dims
        self.order = order
        self.hidden = hidden or {}          # call name -> handler(self, loops, guards, e)
        self.gl = set(unit.globals)
        self.calls = {}
        self.ev = {}
        self.sfxs = {}
        self.lowid, self.highid = {}, {}
        self.problems = []
        self.tainted = set()
        self.allev = []
        self.memo, self.kids = {}, {}
        for loops, guards, e in flatten(it.events):
            if e.k == 'call':
                a = e.res.single_atom() if isinstance(e.res, sym.Poly) else None
                if a is not None:
                    self.calls[a] = (loops, guards, e)
        evs = list(flatten(it.events))
        for loops, guards, e in evs:
            if e.k == 'store':
                self.add_store(loops, guards, e)
        for loops, guards, e in evs:
            if e.k == 'call':
                if e.name == 'fluxes':
                    self.add_flux(loops, guards, e)
                elif e.name == 'lr_states':
                    self.add_lr(loops, guards, e)
                elif e.name in self.hidden:
                    self.hidden[e.name](self, loops, guards, e)
        for k in self.ev:
            self.ev[k].sort(key=lambda x: x.seq)

    # -------------------------------------------------------- index algebra
    def extent_atom(self, a):
        """ld of is/ie/... -> (axis, 's'|'e') """
        if a.kind == 'ld' and a.args[0][1] and a.args[0][1][-1][0] == 'f':
            n = a.args[0][1][-1][1]
            if n in LOW:
                return LOW.index(n), 's'
            if n in HIGH:
                return HIGH.index(n), 'e'
        return None

    def num(self, p):
        """replace nghost by its value"""
        m = {a: P(NGH) for a in p.atoms() if a.kind == 'sym' and a.args[0] == 'nghost'}
        return sym.subst(p, m) if m else p

    def bound(self, p):
        """is+c / ie+c -> (axis, side, c)"""
        p = self.num(P(p))
        hit = None
        c = 0
        for m, k in p.t.items():
            if not m:
                c = k
                continue
            if len(m) != 1 or m[0][1] != 1 or k != 1 or hit is not None:
                return None
            hit = self.extent_atom(sym.atom_by_id(m[0][0]))
            if hit is None:
                return None
        if hit is None or int(c) != c:
            return None
        return hit[0], hit[1], int(c)

    def loop_axes(self, loops):
        """loop variable atom -> (axis, lo, hi)"""
        out = {}
        for l in loops:
            if l.var is None:
                continue
            a = l.var if isinstance(l.var, sym.Atom) else l.var.single_atom()
            lo, hi = self.bound(l.lo), self.bound(l.hi)
            if lo is None or hi is None or lo[0] != hi[0]:
                raise NotUnderstood('loop %s from %s to %s' % (show(P(a)), show(l.lo), show(l.hi)))
            out[a] = (lo[0], lo[1:], hi[1:])
        return out

    def axis_of(self, x, lax):
        """axis of an index expression"""
        for a in x.atoms():
            if a in lax:
                return lax[a][0]
            e = self.extent_atom(a)
            if e:
                return e[0]
        return None

    def parse(self, path, lax):
        """path -> (array name, {axis: index poly} , suffix) or None for a scalar"""
        root, els = path
        n0 = None
        for n, (k, v) in enumerate(els):
            if k == 'i' and self.axis_of(v, lax) is not None:
                n0 = n
                break
        if n0 is None:
            return None
        while n0 > 0 and els[n0 - 1][0] == 'i':
            n0 -= 1
        n1 = n0
        while n1 < len(els) and els[n1][0] == 'i':
            n1 += 1
        # a scalar index (s[n]) belongs to the suffix; leading pointer [0] of parameters to the name
        idx = [v for k, v in els[n0:n1]]
        name = root + ''.join('.' + v for k, v in els[:n0] if k == 'f')
        ix = {}
        if len(idx) == 1:
            a = self.axis_of(idx[0], lax)
            ix[a] = idx[0]
            name += '@%d' % a
        elif len(idx) <= 3:
            for a, v in enumerate(reversed(idx)):
                ix[a] = v
        else:
            raise NotUnderstood('array with %d indices' % len(idx))
        return name, ix, self.sfx(els[n1:])

    def sfx(self, els):
        return tuple(v if k == 'f' else int(v.const()) if v.is_const() else show(v) for k, v in els)

    def canon_map(self, loops, store_ix):
        """canonicalising substitution for an event stored at store_ix; returns (mapping, ranges)"""
        lax = self.loop_axes(loops)
        m, rng = {}, {}
        for a in range(self.dims):
            var = [v for v in lax if lax[v][0] == a]
            if len(var) > 1:
                raise NotUnderstood('two loops over one axis')
            x = store_ix.get(a) if store_ix is not None else None
            if x is not None:
                x = self.num(x)
            if var:
                v = var[0]
                c = 0
                if x is not None:
                    d = x - P(v)
                    if not d.is_const():
                        b = self.bound(x)
                        if b is None:
                            raise NotUnderstood('index ' + show(x))
                        raise NotUnderstood('fixed index inside a loop over its axis: ' + show(x))
                    c = int(d.const())
                m[v] = I[a] - c
                lo, hi = lax[v][1], lax[v][2]
                rng[a] = ((lo[0], lo[1] + c), (hi[0], hi[1] + c))
            elif x is not None:
                b = self.bound(x)
                if b is None or b[0] != a:
                    raise NotUnderstood('index ' + show(x))
                rng[a] = ((b[1], b[2]), (b[1], b[2]))
                for at in x.atoms():
                    if self.extent_atom(at):
                        m[at] = I[a] - b[2]
            else:
                rng[a] = None                # not determined: defined everywhere along a
        return lax, m, rng

    def conv(self, v, m, lax, reads):
        """event value -> canonical form with rd/rs atoms"""
        def idx3(ix):
            out = []
            for a in range(3):
                x = ix.get(a)
                if a >= self.dims:
                    if x is not None:
                        b = self.bound(x)
                        v = x.single_atom()
                        if (b is None or b[2] != 0) and not (v in lax and lax[v][0] == a):
                            raise NotUnderstood('index %s along an inactive axis' % show(x))
                    out.append(None)
                elif x is None:
                    out.append(I[a])
                else:
                    out.append(sym.subst(self.num(x), m))
            return tuple(out)

        def hook(a, rw):
            if a in m and a.kind != 'ld':
                return m[a]
            if a.kind == 'ld':
                p = self.parse(a.args[0], lax)
                if p is None:
                    els = a.args[0][1]
                    r = P(atom('rs', a.args[0][0] if not els or els[0][0] != 'i' or not els[0][1].is_const() else a.args[0][0],
                               tuple(x if k == 'f' else int(x.const()) if x.is_const() else show(x) for k, x in els)))
                    if a in m:
                        return m[a]
                    return r
                r = atom('rd', p[0], idx3(p[1]), p[2])
                reads.append(r)
                return P(r)
            if a.kind == 'sym' and a.args[0] == 'nghost':
                return P(NGH)
            if a.kind == 'base':
                k = (a.args[0], ZERO)
                return P(atom('fn', 'addr', a.args[0][0], self.sfx(a.args[0][1]) if all(k != 'i' or v.is_const() for k, v in a.args[0][1]) else rw.gen(a.args[0][1])))
            if a in self.calls:
                return P(self.pure(a, (), m, lax, reads, rw))
            if a.kind == 'fn' and a.args[0] == 'callfield':
                c = a.args[1]
                c = c.single_atom() if isinstance(c, sym.Poly) else c
                if c in self.calls:
                    return P(self.pure(c, self.sfx(a.args[2]), m, lax, reads, rw))
            return None
        rw = sym.Rewriter(hook)
        return rw

    def arg(self, x, m, lax, reads, rw):
        if not isinstance(x, sym.Poly):
            return tuple((self.sfx(s), rw.poly(v) if isinstance(v, sym.Poly) else None) for s, v in x)
        k = addr_key(x)
        if k is not None and k[0] is not None:
            (root, els), off, kind = k
            try:
                p = self.parse((root, els + ((('i', off),) if kind == 'base' else ())), lax)
            except NotUnderstood:
                p = None
            if p is not None:
                out = []
                for a in range(3):
                    y = p[1].get(a)
                    out.append(None if a >= self.dims else I[a] if y is None else sym.subst(self.num(y), m))
                r = atom('rd', p[0], tuple(out), p[2] + ('*',))
                reads.append(r)
                return P(r)
        return rw.poly(x)

    def pure(self, c, sfx, m, lax, reads, rw):
        loops, guards, e = self.calls[c]
        name = e.name
        if name is None:
            f = e.fnval
            name = f.args[0][0] if isinstance(f, sym.Atom) and f.kind == 'ld' else show(f) if isinstance(f, sym.Poly) else str(f)
        name = name.lstrip('&')
        return atom('fn', 'pc', name, sfx, tuple(self.arg(x, m, lax, reads, rw) for x in e.args))

    # ---------------------------------------------------------- definitions
    def put(self, arr, sfx, rng, val, guard, e, reads, selfix):
        n = Ev()
        n.arr, n.sfx, n.rng, n.val, n.guard, n.seq, n.coord = arr, sfx, rng, val, guard, e.seq, e.coord
        n.self = atom('rd', arr, tuple(I[a] if a < self.dims else None for a in range(3)), sfx)
        n.reads = [r for r in reads if r is not n.self]
        n.inc = None
        self.ev.setdefault((arr, sfx), []).append(n)
        self.sfxs.setdefault(arr, set()).add(sfx)
        self.allev.append(n)

    def add_store(self, loops, guards, e):
        try:
            lax = self.loop_axes(loops)
            p = self.parse(e.path, lax)
            if p is None:
                if e.path[0] in self.gl and not any(k == 'i' for k, v in e.path[1]):
                    p = (e.path[0] + '@*', {}, self.sfx(e.path[1]))
                else:
                    if isinstance(e.path[0], str) and (e.path[0] in self.gl or e.path[0][0] == '#'):
                        self.taint(e.path[0], e.path[1])
                    return
            lax, m, rng = self.canon_map(loops, p[1])
            reads = []
            rw = self.conv(None, m, lax, reads)
            val = rw.poly(e.val)
            guard = rw.cond(sym.c_and(*guards)) if guards else True
            self.put(p[0], p[2], rng, val, guard, e, reads, None)
        except NotUnderstood as x:
            self.problems.append('%s: %s' % (e.coord, x))
            self.taint(*e.path)

    def taint(self, root, els):
        self.tainted.add(str(root) + ''.join('.' + v for k, v in els if k == 'f'))

    def is_tainted(self, arr, sfx):
        n = arr.split('@')[0] + ''.join('.%s' % x for x in sfx if isinstance(x, str))
        return n in self.tainted or '*' in self.tainted or arr.split('@')[0] in self.tainted

    def add_flux(self, loops, guards, e):
        try:
            lax = self.loop_axes(loops)
            k = addr_key(e.args[-1])
            if k is None:
                raise NotUnderstood('destination of fluxes')
            p = self.parse((k[0][0], k[0][1] + ((('i', k[1]),) if k[2] == 'base' else ())), lax)
            if p is None:
                raise NotUnderstood('destination of fluxes')
            lax, m, rng = self.canon_map(loops, p[1])
            reads = []
            rw = self.conv(None, m, lax, reads)
            args = tuple(self.arg(x, m, lax, reads, rw) for x in e.args[:-1])
            for (n, sf) in [k for k in self.ev if k[0].endswith('@*')]:
                # file-scope scalars set for the solver (the H-correction parameter)
                r = atom('rd', n, tuple(I[a] if a < self.dims else None for a in range(3)), sf)
                reads.append(r)
                args += (P(r),)
            guard = rw.cond(sym.c_and(*guards)) if guards else True
            for s, v in e.args[0]:
                sf = self.sfx(s)
                self.put(p[0], sf, rng, P(atom('fn', 'pc', 'fluxes', sf, args)), guard, e, reads, None)
        except NotUnderstood as x:
            self.problems.append('%s: %s' % (e.coord, x))
            k = addr_key(e.args[-1])
            self.tainted.add(k[0][0] if k is not None and isinstance(k[0][0], str) else '*')

    def add_lr(self, loops, guards, e):
        try:
            a = e.args
            if len(a) < 10 or not a[9].is_const():
                raise NotUnderstood('arguments of lr_states')
            lo, hi = self.bound(a[5]), self.bound(a[6])
            if lo is None or hi is None or lo[0] != hi[0]:
                raise NotUnderstood('range of lr_states')
            ax = lo[0]
            lax, m, rng = self.canon_map(loops, {})
            rng = dict(rng)
            rng[ax] = (lo[1:], (hi[1], hi[2] + 1))
            reads = []
            rw = self.conv(None, m, lax, reads)
            W, B = self.vec(a[1]), self.vec(a[2])
            guard = rw.cond(sym.c_and(*guards)) if guards else True
            st = {1: 0, 2: 1, 3: 2}[self.order]
            for side, arg in ((0, a[7]), (1, a[8])):
                rd = []
                for c in range(-1 + side - st, side + st):
                    ix = tuple(None if q >= self.dims else I[q] + (c if q == ax else 0) for q in range(3))
                    rd.append(atom('rd', '%s@%d' % (W, ax), ix, ('*',)))
                    if B is not None:
                        rd.append(atom('rd', '%s@%d' % (B, ax), ix, ()))
                rest = tuple(self.arg(x, m, lax, reads, rw) for x in (a[3], a[4]))
                src = P(rd[0])
                for s in sorted(self.sfxs.get('%s@%d' % (W, ax), ()), key=str):
                    v = P(atom('fn', 'pc', 'lr_states', s, (side, P(a[9].const() - 1 - ax), rest, tuple(P(r) for r in rd))))
                    self.put('%s@%d' % (self.vec(arg), ax), s, rng, v, guard, e, list(rd), None)
        except NotUnderstood as x:
            self.problems.append('%s: %s' % (e.coord, x))
            self.tainted.add('*')

    def vec(self, x):
        k = addr_key(x)
        if k is None or k[1] != ZERO:
            raise NotUnderstood('vector argument ' + show(x))
        root, els = k[0]
        return root + ''.join('.' + v for q, v in els if q == 'f')

    # -------------------------------------------------------------- coverage
    @staticmethod
    def le(a, b):
        """position/bound (side, offset) comparison on a large grid"""
        o = {'s': 0, 'm': 1, 'e': 2}
        return a[1] <= b[1] if a[0] == b[0] else o[a[0]] < o[b[0]]

    def covers(self, ev, pos):
        for a, r in ev.rng.items():
            if r is not None and not (self.le(r[0], pos[a]) and self.le(pos[a], r[1])):
                return False
        return True

    def chain(self, arr, sfx, pos, limit):
        out = []
        for e in self.ev.get((arr, sfx), ()):
            if e.seq >= limit:
                break
            if self.covers(e, pos):
                if e.guard is True and e.self not in deps_atoms(e.val):
                    out = []
                out.append(e)
        return out


    def nested(self, arr, sfx, pos, limit, depth=0):
        """definitions reaching a read, (chain, key); one-dimensional scratch read at the same place is expanded"""
        mk = (arr, sfx, pos, limit)
        hit = self.memo.get(mk)
        if hit is not None:
            return hit
        out = []
        for e in self.chain(arr, sfx, pos, limit):
            sub = []
            if depth < 8:
                for r, fl in self.inner(e):
                    if fl is not None:
                        sub.append((r, tuple((f, self.nested(r.args[0], f, pos, e.seq, depth + 1)) for f in fl)))
                    else:
                        sub.append((r, self.nested(r.args[0], r.args[2], pos, e.seq, depth + 1)))
            out.append((e, tuple(sub)))
        ch = tuple(out)
        key = (arr, sfx) + tuple((e.seq, tuple(tuple(c[1] for f, c in sub) if r.args[2] and r.args[2][-1] == '*' else sub[1] for r, sub in ss)) for e, ss in ch)
        kid = self.kids.get(key)
        if kid is None:
            kid = self.kids[key] = (ch, len(self.kids))
        self.memo[mk] = kid
        return kid

    def inner(self, e):
        """one-dimensional scratch locations a definition reads at its own place"""
        if e.inc is None:
            e.inc = []
            for r in sorted(set(e.reads), key=lambda x: x.id):
                if '@' not in r.args[0] or any(r.args[1][a] != I[a] for a in range(self.dims)):
                    continue
                fl = None
                if r.args[2] and r.args[2][-1] == '*':
                    fl = sorted((f for f in self.sfxs.get(r.args[0], ()) if f[:len(r.args[2]) - 1] == r.args[2][:-1]), key=str)
                e.inc.append((r, fl))
        return e.inc

    def nvalue(self, ch, selfatom, reads):
        """value of a nested chain; reads collects (atom, seq) of what remains"""
        v = P(selfatom)
        for e, ss in ch:
            m = {}
            inl = set()
            for r, sub in ss:
                star = r.args[2] and r.args[2][-1] == '*'
                if not (sub if star else sub[0]):
                    continue
                inl.add(r)
                if star:
                    parts = tuple((f, self.nvalue(c[0], atom('rd', r.args[0], r.args[1], f), reads)) for f, c in sub)
                    m[r] = P(atom('fn', 'struct', parts))
                else:
                    m[r] = self.nvalue(sub[0], r, reads)
            w, g = e.val, e.guard
            if v != P(selfatom) and selfatom not in m:
                m[selfatom] = v
            if m:
                w = sym.subst(w, m)
                g = sym.subst(g, m) if g is not True else g
            for r in e.reads:
                if r not in inl:
                    reads.append((r, e.seq))
            v = w if g is True else sym.ite(g, w, v)
        return v


_da = {}


def deps_atoms(p):
    """all atoms below a value"""
    k = p
    if k in _da:
        return _da[k]
    out = set()

    def go(x):
        if isinstance(x, sym.Poly):
            for a in x.atoms():
                go(a)
        elif isinstance(x, sym.Atom):
            if x not in out:
                out.add(x)
                for y in x.args:
                    go(y)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
    go(p)
    _da[k] = out
    return out


ONED = {'My': 'Mz', 'Mz': 'My', 'Vy': 'Vz', 'Vz': 'Vy', 'By': 'Bz', 'Bz': 'By'}


class Relabel:
    """axis permutation perm (axis a -> perm[a]); odd permutations also exchange the two transverse
    components of one-dimensional states and flip the sign of electromotive forces"""

    def __init__(self, rt, perm, fixed=False, odd=('emf',)):
        self.fixed = fixed              # Mx, My, Mz are components along x1, x2, x3
        self.oddnames = odd
        self.rt = rt
        self.perm = perm
        self.odd = sum(1 for a in range(3) for b in range(a) if perm[b] > perm[a]) % 2
        self.rw = sym.Rewriter(self.hook)

    def name(self, n):
        """relabel a plain identifier"""
        for grp in (LOW, HIGH):
            if n in grp:
                return grp[self.perm[grp.index(n)]]
        return ''.join(str(self.perm[int(c) - 1] + 1) if c in '123' else c for c in n)

    def root(self, n):
        if not isinstance(n, str):
            return n
        r = self.name(n)
        if r == n:
            return n
        if n in self.rt.gl and r in self.rt.gl:
            return r
        return n

    def arr(self, n):
        at = ''
        if '@' in n:
            n, a = n.split('@')
            at = '@' + (a if a == '*' else str(self.perm[int(a)]))
        parts = n.split('.')
        if parts[0][0] == '#':
            parts = [parts[0]] + [self.name(x) for x in parts[1:]]
        else:
            parts = [self.root(parts[0])] + parts[1:]
        return '.'.join(parts) + at

    def sign(self, n):
        return -1 if self.odd and n.split('.')[-1].split('@')[0].startswith(self.oddnames) else 1

    def sfx(self, s, one=False):
        out = []
        for i, x in enumerate(s):
            if isinstance(x, str):
                if self.fixed and len(x) == 2 and x[1] in 'xyz':
                    x = x[0] + 'xyz'[self.perm['xyz'.index(x[1])]]
                elif self.odd and x in ONED:
                    x = ONED[x]
                else:
                    x = self.name(x)
            out.append(x)
        return tuple(out)

    def scalar(self, root, els):
        out = []
        for i, x in enumerate(els):
            if isinstance(x, int) and not isinstance(x, bool) and i and els[i - 1] in ('MinX', 'MaxX', 'Nx', 'Disp', 'RootMinX', 'RootMaxX', 'dx', 'Ngrid', 'NGrid'):
                out.append(self.perm[x])
            elif isinstance(x, str):
                out.append(self.name(x))
            else:
                out.append(x)
        return root, tuple(out)

    def hook(self, a, rw):
        if a.kind == 'sym':
            if a in IA:
                return I[self.perm[IA.index(a)]]
            return None
        if a.kind == 'rd':
            arr, ix, sfx = a.args
            new = [None, None, None]
            for q in range(3):
                new[self.perm[q]] = rw.poly(ix[q]) if ix[q] is not None else None
            p = P(atom('rd', self.arr(arr), tuple(new), self.sfx(sfx)))
            return p if self.sign(arr) > 0 else -p
        if a.kind == 'rs':
            r, e = self.scalar(*a.args)
            return P(atom('rs', r, e))
        if a.kind == 'fn' and a.args[0] == 'struct':
            return P(atom('fn', 'struct', rw.gen(self.struct(a.args[1]))))
        if a.kind == 'fn' and a.args[0] == 'pc':
            _, nm, sfx, args = a.args
            args = [rw.gen(self.struct(x)) for x in args]
            if nm in Pot.NAMES and len(args) >= 3:
                new = list(args)
                for q in range(3):
                    new[self.perm[q]] = args[q]
                args = new
            return P(atom('fn', 'pc', self.root(nm), self.sfx(sfx), tuple(args)))
        return None

    def struct(self, x):
        """struct arguments: rename the fields"""
        if isinstance(x, tuple) and x and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) for y in x):
            return tuple(sorted(((self.sfx(s), v) for s, v in x), key=lambda y: str(y[0])))
        return x

    def pos(self, p):
        new = [None, None, None]
        for q in range(3):
            new[self.perm[q]] = p[q]
        return tuple(new)


def compare(rec, rt, perm, starts, where, final, maxdemand=400000, **kw):
    """starts: positions; final: [(array, suffix)] of the state"""
    rl = Relabel(rt, perm, **kw)
    stored = {k[0].split('@')[0] for k in rt.ev}
    todo = []
    seen = set()
    INF = 1 << 60
    label = 'axes %s' % ''.join('%d->%d ' % (a + 1, perm[a] + 1) for a in range(rt.dims)).strip()

    def demand(arr, sfx, pos, l1, l2):
        if sfx and sfx[-1] == '*':
            for s in rt.sfxs.get(arr, ()):
                if s[:len(sfx) - 1] == sfx[:-1]:
                    demand(arr, s, pos, l1, l2)
            return
        k = (arr, sfx, pos, l1, l2)
        if k not in seen:
            seen.add(k)
            todo.append(k)
    for pos in starts:
        for arr, sfx in final:
            demand(arr, sfx, pos, INF, INF)
    pairs = {}
    stale, skipped = set(), set()
    n = 0
    while todo and n < maxdemand:
        n += 1
        arr, sfx, pos, l1, l2 = todo.pop()
        arr2, sfx2, pos2 = rl.arr(arr), rl.sfx(sfx), rl.pos(pos)
        if rt.is_tainted(arr, sfx) or rt.is_tainted(arr2, sfx2):
            if (arr, sfx) not in skipped:
                skipped.add((arr, sfx))
                rec.undecided('symmetry', where, '%s%s is stored in a form that was not understood: %s' % (
                    arr, ''.join('.%s' % x for x in sfx), '; '.join(rt.problems[:2])))
            continue
        c1, k1 = rt.nested(arr, sfx, pos, l1)
        c2, k2 = rt.nested(arr2, sfx2, pos2, l2)
        k = (arr, sfx, k1, k2)
        if k in pairs:
            info = pairs[k]
        else:
            info = pairs[k] = judge(rec, rt, rl, arr, sfx, c1, c2, where, label, pos)
        if not c1 and arr[0] != '#' and (arr.split('@')[0] in stored):
            stale.add((arr, sfx, pos))
        for (ra, off, rs, s1, s2) in info:
            q = tuple(None if pos[a] is None else (pos[a][0], pos[a][1] + off[a] if pos[a][0] != 'm' else 0) for a in range(3))
            demand(ra, rs, q, s1, s2)
    if todo:
        rec.undecided('symmetry', where, 'more than %d locations demanded' % maxdemand)
    for arr, sfx, pos in sorted(stale, key=str)[:3]:
        rec.bad('stale-read', where, 'the result at an active cell depends on %s%s at %s, which nothing fills beforehand' % (
            arr, ''.join('.%s' % x for x in sfx), spell(pos)), key='stale-read|%s|%s' % (where, re.sub(r'^W[lr]_', 'W_', re.sub(r'[123]', '#', arr))))
    if not stale:
        rec.ok('stale-read', '%s: every work location the result depends on is filled first (%d locations)' % (where, n))
    return pairs


def spell(pos):
    return ', '.join('%s%+d' % ((LOW if p[0] == 's' else HIGH if p[0] == 'e' else 'ijk')[a], p[1]) for a, p in enumerate(pos) if p is not None)


def judge(rec, rt, rl, arr, sfx, c1, c2, where, label, pos):
    selfa = atom('rd', arr, tuple(I[a] if a < rt.dims else None for a in range(3)), sfx)
    arr2, sfx2 = rl.arr(arr), rl.sfx(sfx)
    selfb = atom('rd', arr2, tuple(I[a] if a < rt.dims else None for a in range(3)), sfx2)
    what = '%s%s at %s' % (arr, ''.join('.%s' % x for x in sfx), spell(pos))
    coords = '/'.join(sorted(set(e.coord.split('/')[-1] for e, _ in c1 + c2)))
    if bool(c1) != bool(c2):
        rec.bad('symmetry', '%s %s' % (where, coords), '%s is %s, its counterpart %s under %s is %s' % (
            what, 'computed' if c1 else 'not computed', arr2 + ''.join('.%s' % x for x in sfx2), label, 'computed' if c2 else 'not'))
        return []
    if not c1:
        return []
    q1, q2 = [], []
    v1, v2 = rt.nvalue(c1, selfa, q1), rt.nvalue(c2, selfb, q2)
    w = rl.rw.poly(v1)
    if rl.sign(arr) < 0:
        w = -w
    r = True if w == v2 else sym.equal_values(w, v2)
    if r:
        rec.ok('symmetry', '%s %s %s' % (where, label, what))
    elif r is None:
        rec.undecided('symmetry', where, '%s: %s' % (what, show(w - v2)[:300]))
    else:
        rec.bad('symmetry', '%s %s' % (where, coords), 'under %s the computation of %s differs from that of %s: relabelled %s, counterpart %s' % (
            label, what, arr2 + ''.join('.%s' % x for x in sfx2), show(w)[:500], show(v2)[:500]))
        return []
    # pair up the reads
    rd1, rd2 = {}, {}
    for x, sq in q1:
        if x is not selfa:
            rd1.setdefault(x, []).append(sq)
    for x, sq in q2:
        rd2.setdefault(x, []).append(sq)
    out = []
    for x, ss in rd1.items():
        y = rl.rw.poly(P(x))
        ya = [a for a in y.atoms()][0]
        tt = rd2.get(ya)
        ss = sorted(set(ss))
        tt = sorted(set(tt)) if tt else None
        off = []
        for a in range(3):
            if a >= rt.dims:
                off.append(None)
                continue
            d = x.args[1][a] - I[a]
            if not d.is_const():
                off = None
                break
            off.append(int(d.const()))
        if off is None:
            continue
        if tt is None:
            tt = ss
        if len(tt) != len(ss):
            ss, tt = [ss[0], ss[-1]], [tt[0], tt[-1]]
        for s1, s2 in zip(ss, tt):
            out.append((x.args[0], tuple(off), x.args[2], s1, s2))
    return out
