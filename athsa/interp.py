"""Forward dataflow over the C syntax tree with gated value numbering.

Every scalar cell holds a polynomial value number; branches are *joined* into
gated merges (no path enumeration), counted loops are summarised by solving
their recurrences (induction variables, sum/max/min reductions), array writes
are kept as region writes (loop nest, guard, subscripts, value) and loads are
resolved to the last region write that provably covers them.  Repository
callees are inlined, so extracting or merging helpers does not change the
summary.
"""
import re
from fractions import Fraction
from pycparser import c_ast
from .front import AnalysisError, INT, CHAR, LONG, DBL, FLT, VOID
from . import sym
from .sym import (P, Poly, Atom, atom, ZERO, ONE, ite, c_and, c_or, c_not, c_le0,
                  c_lt0, c_eq0, subst, maxv, minv, absv, inv, div, idiv, imod, sqrt,
                  show, show_path, show_cond)

PURE = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh',
        'exp', 'log', 'log10', 'floor', 'ceil', 'fmod', 'cbrt', 'hypot', 'rint', 'erf',
        'strcmp', 'strncmp', 'strlen', 'strcasecmp', 'isspace', 'isdigit', 'atoi', 'atof',
        'toupper', 'tolower', 'isnan', 'isinf', '__isnan', '__isinf', 'acosh', 'copysign'}
# results treated as a function of the (textual) arguments only
GETTERS = {'par_geti', 'par_getd', 'par_getl', 'par_geti_def', 'par_getd_def', 'par_getl_def',
           'par_exist', 'par_gets', 'par_gets_def'}
DEFAULT_OPAQUE = {'ath_perr', 'ath_pout', 'ath_log_open', 'ath_gcd',
                  'calloc_1d_array', 'calloc_2d_array', 'calloc_3d_array',
                  'free_1d_array', 'free_2d_array', 'free_3d_array', 'ath_2d_fft', 'ath_3d_fft',
                  'ath_fname', 'ran2', 'flush_perr', 'flush_pout', 'ath_flush_perr', 'ath_flush_pout'}
NO_EFFECT = {'ath_perr', 'ath_pout', 'calloc_1d_array', 'calloc_2d_array', 'calloc_3d_array',
             'free_1d_array', 'free_2d_array', 'free_3d_array'}
NORETURN = {'ath_error', 'exit', 'abort', 'MPI_Abort', 'usage'}
# argument positions written by opaque library calls
WRITES = {'fread': [0], 'fgets': [0], 'sprintf': [0], 'snprintf': [0], 'strcpy': [0],
          'strncpy': [0], 'strcat': [0], 'memcpy': [0], 'memset': [0], 'memmove': [0],
          'sscanf': [2, 3, 4, 5, 6, 7, 8], 'fscanf': [2, 3, 4, 5, 6, 7, 8],
          'MPI_Recv': [0, 6], 'MPI_Irecv': [0, 6], 'MPI_Isend': [6], 'MPI_Bcast': [0],
          'MPI_Allreduce': [1], 'MPI_Reduce': [1], 'MPI_Allgather': [3], 'MPI_Gather': [3],
          'MPI_Wait': [0, 1], 'MPI_Waitall': [1, 2], 'MPI_Waitany': [1, 2, 3],
          'MPI_Comm_rank': [1], 'MPI_Comm_size': [1], 'MPI_Testall': [1, 2, 3],
          'MPI_Sendrecv': [5, 10], 'MPI_Comm_group': [1], 'MPI_Group_incl': [3], 'MPI_Scatter': [3],
          'MPI_Comm_create': [2], 'MPI_Sendrecv_replace': [0, 8], 'MPI_Get_count': [2],
          'MPI_Pack': [3, 5], 'MPI_Unpack': [2, 3], 'MPI_Probe': [3], 'MPI_Init': [0, 1],
          'printf': [], 'fprintf': [], 'fwrite': [], 'fclose': [], 'fopen': [], 'free': [],
          'MPI_Send': [], 'fseek': [], 'ftell': [], 'fputs': [], 'fflush': [], 'qsort': [0],
          'gettimeofday': [0], 'times': [0], 'vsprintf': [0], 'vfprintf': [], 'frexp': [1]}


def snap(f):
    """0.33333333333333333 means 1/3: the simple fraction the literal rounds to"""
    if f.denominator > 10**12:
        g = f.limit_denominator(1000)
        if g and abs(g - f) < abs(g) * Fraction(1, 10**15):
            return g
    return f


class EvLoop:
    k = 'loop'
    __slots__ = ('var', 'lo', 'hi', 'body', 'coord', 'desc', 'brk', 'cond', 'trip', 'lid')


class EvIf:
    k = 'if'
    __slots__ = ('cond', 'then', 'els', 'coord')


class EvStore:
    k = 'store'
    __slots__ = ('path', 'val', 'type', 'coord', 'old', 'seq', 'fn')


class EvCall:
    k = 'call'
    __slots__ = ('name', 'args', 'res', 'coord', 'fnval', 'seq', 'types', 'fn', 'astargs', 'inval', 'row')


class EvRet:
    k = 'ret'
    __slots__ = ('val', 'coord', 'fn')


class Entry:
    __slots__ = ('path', 'val', 'guard', 'loops', 'seq', 'rng')


class SVal(dict):
    """struct value: suffix elems -> Poly"""


def skel(path):
    return (path[0],) + tuple(e[1] if e[0] == 'f' else '*' for e in path[1])


def const_path(path):
    for k, v in path[1]:
        if k == 'i' and not v.is_const():
            return False
    return True


class Frame:
    __slots__ = ('unit', 'name', 'vars', 'types', 'tag', 'retpath', 'rettype', 'statics')


def sym_kind(i):
    return sym.atom_by_id(i).kind


class _NoUnroll(Exception):
    pass


class LoopCtx:
    __slots__ = ('var', 'lo', 'hi', 'startseq', 'loads', 'carried', 'lid')


def coord_str(node):
    c = getattr(node, 'coord', None)
    if c is None:
        return '?'
    f = c.file or '?'
    i = f.find('/src/')
    return '%s:%s' % (f[i + 1:] if i >= 0 else f, c.line)


class Cells:
    """current values by path, copied per root when written after a copy"""
    __slots__ = ('m', 'own')

    def __init__(self):
        self.m, self.own = {}, set()

    def copy(self):
        c = Cells()
        c.m = dict(self.m)
        self.own = set()
        return c

    def get(self, k, d=None):
        r = self.m.get(k[0])
        return d if r is None else r.get(k[1], d)

    def __getitem__(self, k):
        return self.m[k[0]][k[1]]

    def __contains__(self, k):
        r = self.m.get(k[0])
        return r is not None and k[1] in r

    def _w(self, r):
        x = self.m.get(r)
        if x is None:
            x = self.m[r] = {}
            self.own.add(r)
        elif r not in self.own:
            x = self.m[r] = dict(x)
            self.own.add(r)
        return x

    def __setitem__(self, k, v):
        self._w(k[0])[k[1]] = v

    def __delitem__(self, k):
        x = self._w(k[0])
        del x[k[1]]
        if not x:
            self.drop(k[0])

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        return d[0]

    def drop(self, r):
        self.m.pop(r, None)
        self.own.discard(r)

    def __iter__(self):
        for r, x in self.m.items():
            for s in x:
                yield (r, s)

    def items(self):
        for r, x in self.m.items():
            for s, v in x.items():
                yield (r, s), v

    def under(self, r):
        return [((r, s), v) for s, v in self.m.get(r, {}).items()]

    def changed(self, other):
        """keys whose values may differ between the two"""
        out = []
        for r, x in self.m.items():
            y = other.m.get(r)
            if y is x:
                continue
            for s, v in x.items():
                if y is None or y.get(s) is not v:
                    out.append((r, s))
        for r, y in other.m.items():
            x = self.m.get(r)
            if y is x:
                continue
            for s in y:
                if x is None or s not in x:
                    out.append((r, s))
        return out


class Interp:
    def __init__(self, prog, opaque=(), effects=None, assume=(), unroll=16, inline=True,
                 no_alias_roots=(), maxdepth=14, callbacks=None, track_arrays=True, values=None, frozen=False):
        self.box = 0            # name values with more terms than this (they are then not expanded in products)
        self.frozen = frozen
        self.prog = prog
        self.opaque = set(opaque) | DEFAULT_OPAQUE
        self.effects = dict(effects or {})
        for q in NO_EFFECT:
            self.effects.setdefault(q, [])
        self.inline = inline
        self.unroll = unroll
        self.maxdepth = maxdepth
        self.callbacks = callbacks or {}
        self.loopinfo = {}
        self.loopmeta = {}
        self.loopcond = {}
        self.cells = Cells()
        self.log = {}
        self.havocs = []
        self.guards = []
        self.facts = []
        self.linfacts = []
        self.events = []
        self.cont = self.events
        self.frames = []
        self.loops = []
        self.kills = {}
        self.bottom = False
        self.seq = 0
        self.tagn = 0
        self.loopn = 0
        self.undecided = []
        self.written = None
        self.stats = {'stores': 0, 'loads': 0, 'calls': 0, 'inlined': 0, 'loops': 0}
        self.track = track_arrays
        self.values = values or {}
        self.allocs = None      # {root: (levels, sizes, coord)}: allocations give fresh, zeroed, non-null memory
        self.data = ()          # allocations whose contents are unknown by now
        self.oob = []           # accesses outside such memory
        for c in assume:
            self.add_fact(c)

    # ------------------------------------------------------------- facts
    def add_fact(self, c):
        if c is True or c is False:
            return
        if c[0] == 'and':
            for x in c[1]:
                self.add_fact(x)
            return
        self.facts.append(c)

    def lin_of(self, c):
        """literal -> list of polys known >= 0"""
        if c[0] != 'lit':
            return []
        a, v = c[1], c[2]
        if a.kind == 'le0':
            p = a.args[0]
            if v:
                return [-p]
            return [p - 1] if a.args[1] else [p]
        if a.kind == 'lt0':
            return [-a.args[0]] if v else [a.args[0]]
        if a.kind == 'eq0' and v:
            return [a.args[0], -a.args[0]]
        return []

    def known(self):
        """polys known to be >=0 in the current context"""
        out = []
        for c in self.facts:
            out += self.lin_of(c)
        for c in self.guards:
            if c is True or c is False:
                continue
            if c[0] == 'and':
                for x in c[1]:
                    out += self.lin_of(x)
            else:
                out += self.lin_of(c)
        for l in self.loops:
            if l.var is not None and l.lo is not None:
                out.append(P(l.var) - l.lo)
                out.append(l.hi - P(l.var))
        return out

    def prove_ge0(self, p):
        return prove_ge0(p, self.known)

    def decide(self, c):
        if c is True or c is False:
            return c
        if c[0] in ('and', 'or'):
            xs = [self.decide(x) for x in c[1]]
            return c_and(*xs) if c[0] == 'and' else c_or(*xs)
        n = c_not(c)
        for f in self.facts:
            if f == c:
                return True
            if f == n:
                return False
        for g in self.guards:
            if g == c:
                return True
            if g == n:
                return False
            if isinstance(g, tuple) and g[0] == 'and':
                if c in g[1]:
                    return True
                if n in g[1]:
                    return False
        a = c[1]
        if a.kind == 'le0' and a.args[1]:
            p = a.args[0]
            if len(p.t) <= 6:
                if self.prove_ge0(-p):
                    return c[2]
                if self.prove_ge0(p - 1):
                    return not c[2]
        elif a.kind == 'eq0' and len(a.args[0].t) <= 5:
            p = a.args[0]
            if self.prove_ge0(p - 1) or self.prove_ge0(-p - 1):
                return not c[2]
        return c

    # ------------------------------------------------------------ memory
    def next(self):
        self.seq += 1
        return self.seq

    def init_val(self, path, t, ver=0):
        if ver == 0 and path in self.values:
            return P(self.values[path])
        if self.allocs and path[0] in self.allocs:
            if t is not None and t[0] == 'ptr' and len(path[1]) < self.allocs[path[0]][0] and all(e[0] == 'i' for e in path[1]):
                return P(atom('base', path))
            if t is not None and t[0] != 'arr' and ver == 0 and path[0] not in self.data:
                return ZERO
        if t is not None and t[0] in ('ptr', 'arr') and ver == 0:
            return P(atom('base', path))
        return P(atom('ld', path, ver))

    def inside(self, path, what):
        lv, sizes, where = self.allocs[path[0]]
        for e, n in zip(path[1], sizes):
            if e[0] != 'i':
                break
            if e[1].is_const() and n.is_const() and not 0 <= e[1].const() < n.const():
                if self.decide(c_and(*self.guards)) is not False:
                    self.oob.append((what, path, sizes, where, tuple(self.guards), self.frames[-1].name))
                break

    def load(self, path, t):
        self.stats['loads'] += 1
        if self.allocs and path[0] in self.allocs:
            self.inside(path, 'read')
        if t is not None and t[0] == 'arr':
            return P(atom('base', path))
        v = self.cells.get(path)
        if v is not None:
            return v
        if isinstance(path[0], Atom) and path[0].kind == 'ite':
            a = path[0]
            c = self.decide(a.args[0])
            x = self.load(self.rebase(path, a.args[1]), t)
            y = self.load(self.rebase(path, a.args[2]), t)
            return ite(c, x, y)
        if self.frozen and path[1] and self.is_frozen(path, t):
            return self.init_val(path, t, 0)
        sk = skel(path)
        ents = list(self.log.get(sk, ()))
        # cells with same skeleton but symbolic load index
        if not const_path(path):
            for cp, cv in self.cells.under(path[0]):
                if len(cp[1]) == len(path[1]) and skel(cp) == sk and cp != path:
                    e = Entry()
                    e.path, e.val, e.guard, e.loops, e.seq, e.rng = cp, cv, (), (), self.seq, None
                    ents.append(e)
        hav = [h for h in self.havocs if sk[:len(h[1])] == h[1]]
        if hav:
            ents = ents + [h for h in hav]
            ents.sort(key=lambda e: e.seq if isinstance(e, Entry) else e[0])
        pend = []
        res = None
        for e in reversed(ents):
            if not isinstance(e, Entry):
                g = self.relguard(e[3])
                if g is False:
                    continue
                r = self.init_val(path, t, ('c', e[2]))
                for l in self.loops:
                    if e[0] < l.startseq:
                        l.loads.append((path, sk))
                if g is True:
                    res = r
                    break
                pend.append((g, r))
                continue
            if not e.loops:
                g = self.relguard(e.guard)
                if g is False:
                    continue
            self.msol = None
            m, val, dom = self.match(e, path)
            if m == 'no':
                continue
            if e.loops:
                # the guard of the iteration that stored here
                g = self.relguard([subst(c, self.msol) for c in e.guard] if self.msol else e.guard)
                if g is False:
                    continue
            if m == 'yes':
                for l in self.loops:
                    if e.seq < l.startseq:
                        l.loads.append((path, sk))
                if dom is not True:
                    g = c_and(g, dom)
                if g is True:
                    res = val
                    break
                pend.append((g, val))
                continue
            res = self.init_val(path, t, ('e', e.seq))
            for l in self.loops:
                if e.seq < l.startseq:
                    l.loads.append((path, sk))
            break
        if res is None:
            ver = 0
            for l in self.loops:
                l.loads.append((path, sk))
                if sk in l.carried:
                    ver = ('l', l.lid)
            res = self.init_val(path, t, ver)
        for g, v in reversed(pend):
            res = ite(g, v, res)
        return res

    def is_frozen(self, path, t):
        """contents of file-scope work arrays are kept symbolic (not tracked)"""
        r = path[0]
        if callable(self.frozen) and not self.frozen(r):
            return False
        if getattr(self.frozen, 'deep', False) and isinstance(r, str) and r[0] == '#':
            return not const_path(path) and not (t is not None and t[0] in ('ptr', 'arr'))
        if not isinstance(r, str) or r[0] in '#%$' or t is not None and t[0] in ('ptr', 'arr'):
            return False
        return any(k == 'i' for k, v in path[1])

    def rebase(self, path, ptr):
        els = path[1]
        first = els[0]
        p = self.deref_path(ptr + (first[1] if first[0] == 'i' else 0))
        return (p[0], p[1] + els[1:])

    def relguard(self, guard):
        """guard of an entry relative to the current path condition"""
        cs = []
        for c in guard:
            if c in self.guards:
                continue
            d = self.decide_quick(c)
            if d is False:
                return False
            if d is True:
                continue
            cs.append(d)
        return c_and(*cs)

    def decide_quick(self, c):
        if c is True or c is False:
            return c
        n = c_not(c)
        for g in self.guards:
            if g == c:
                return True
            if g == n:
                return False
            if isinstance(g, tuple) and g[0] == 'and' and c[0] == 'lit':
                if c in g[1]:
                    return True
                if n in g[1]:
                    return False
        for g in self.facts:
            if g == c:
                return True
            if g == n:
                return False
        if c[0] == 'and':
            xs = [self.decide_quick(x) for x in c[1]]
            return c_and(*xs)
        if c[0] == 'or':
            xs = [self.decide_quick(x) for x in c[1]]
            return c_or(*xs)
        return c

    def match(self, e, path):
        """does entry e define location path?  ('no'|'yes'|'maybe', value, domain)"""
        pe, pl = e.path[1], path[1]
        if len(pe) != len(pl):
            return 'maybe', None, None
        bound = [l[0] for l in e.loops]
        if not bound:
            pend = []
            for (ka, a), (kb, b) in zip(pe, pl):
                if ka != 'i' or a is b:
                    continue
                d = a - b
                if not d.t:
                    continue
                if d.is_const():
                    return 'no', None, None
                if self.prove_ge0(d - 1) or self.prove_ge0(-d - 1):
                    return 'no', None, None
                pend.append((a, b))
            if pend:
                g = self.coincide(pend)
                if g is None:
                    return self._maybe(e, path)
                return 'yes', e.val, g
            return 'yes', e.val, True
        bids = {a.id for a in bound}
        sol = {}
        todo = []
        for (ka, a), (kb, b) in zip(pe, pl):
            if ka == 'i':
                todo.append((a, b))
        progress = True
        while progress:
            progress = False
            rest = []
            for a, b in todo:
                if sol:
                    a = subst(a, sol)
                fb = [x for x in bound if x.id in a.deps and x not in sol]
                if len(fb) == 0:
                    d = a - b
                    if not d.t:
                        continue
                    if d.is_const():
                        return 'no', None, None
                    if self.prove_ge0(d - 1) or self.prove_ge0(-d - 1):
                        return 'no', None, None
                    # could still be disjoint by another dimension
                    rest.append((a, b))
                    continue
                if len(fb) == 1:
                    v = fb[0]
                    co = a.t.get(((v.id, 1),))
                    r = a - P(v) * (co or 0)
                    if co in (1, -1) and v.id not in r.deps:
                        sol[v] = (b - r) * co
                        progress = True
                        continue
                    if co is not None and co.denominator == 1 and abs(co) > 1 and v.id not in r.deps:
                        d = b - r
                        nd = [m for m, c in d.t.items() if c.denominator != 1 or c % co != 0]
                        if not nd:
                            sol[v] = d * P(Fraction(1, int(co)))
                            progress = True
                            continue
                        if nd == [()] and all(c.denominator == 1 for c in d.t.values()):
                            return 'no', None, None
                rest.append((a, b))
            todo = rest
        # domain check
        dom = True
        unsolved = [l for l in e.loops if l[0] not in sol]
        exact = not todo and not unsolved
        for (v, lo, hi) in e.loops:
            if v not in sol or lo is None:
                continue
            lo = subst(lo, sol)
            hi = subst(hi, sol)
            x = sol[v]
            if any(u[0].id in (lo.deps | hi.deps | x.deps) for u in unsolved):
                exact = False
                continue
            for d in (x - lo, hi - x):
                if self.prove_ge0(d):
                    continue
                if self.prove_ge0(-d - 1):
                    return 'no', None, None
                dom = c_and(dom, c_le0(-d, True))
        if not exact:
            # interval disjointness of the unresolved dims
            for a, b in todo:
                lo, hi = self.interval(a, e.loops)
                if lo is not None and (self.prove_ge0(lo - b - 1) or self.prove_ge0(b - hi - 1)):
                    return 'no', None, None
            if not unsolved and todo:
                g = self.coincide(todo)
                if g is not None:
                    self.msol = sol
                    return 'yes', subst(e.val, sol), c_and(dom, g)
            return self._maybe(e, path)
        if dom is not True:
            # symbolic overlap undecided: keep as a gated value
            pass
        self.msol = sol
        return 'yes', subst(e.val, sol), dom

    def coincide(self, pairs):
        """condition under which undecided index pairs agree (kept as a gate)"""
        if len(pairs) > 1:
            return None
        g = True
        for a, b in pairs:
            d = a - b
            if len(d.t) > 3 or any(len(m) > 1 or m and m[0][1] != 1 for m in d.t):
                return None
            if any(sym_kind(m[0][0]) not in ('ld', 'sym', 'lv') for m in d.t if m):
                return None
            g = c_and(g, c_eq0(d, True))
        return g

    def _maybe(self, e, path):
        return 'maybe', None, None

    def interval(self, p, loops):
        """(lo,hi) polys of p over the bound loops"""
        lo = hi = p
        for v, l, h in reversed(loops):
            if l is None:
                if v.id in lo.deps or v.id in hi.deps:
                    return None, None
                continue
            lo = self._ext(lo, v, l, h, False)
            hi = self._ext(hi, v, l, h, True)
            if lo is None or hi is None:
                return None, None
        return lo, hi

    def _ext(self, p, v, l, h, up):
        if v.id not in p.deps:
            return p
        co = p.t.get(((v.id, 1),))
        r = p - P(v) * (co or 0)
        if co is None or v.id in r.deps:
            return None
        x = h if (co > 0) == up else l
        return r + x * co

    def store(self, path, t, val, node):
        self.stats['stores'] += 1
        if self.allocs and path[0] in self.allocs:
            self.inside(path, 'write')
        if self.box and isinstance(val, sym.Poly) and len(val.t) > self.box:
            val = P(sym.atom('box', val))
        if isinstance(val, SVal):
            for suf, v in val.items():
                self.store((path[0], path[1] + suf), None, v, node)
            return
        if isinstance(path[0], Atom) and path[0].kind == 'ite':
            # store through a gated pointer: conditional stores
            a = path[0]
            c = self.decide(a.args[0])
            for cc, tgt in ((c, a.args[1]), (c_not(c), a.args[2])):
                if cc is False or tgt.is_const():
                    continue
                self.branch(cc, lambda tgt=tgt: self.store(self.rebase(path, tgt), t, val, node), None, node)
            return
        local = self.is_local_cell(path)
        if not local:
            ev = EvStore()
            ev.path, ev.val, ev.type = path, val, t
            ev.coord = coord_str(node)
            ev.seq = self.next()
            ev.old = None
            ev.fn = self.frames[-1].name if self.frames else None
            self.cont.append(ev)
        if self.frozen and path[1] and self.is_frozen(path, t):
            return
        if self.written is not None:
            self.written.add(path)
        sk = skel(path)
        if const_path(path) and sk not in self.log:
            self.cells[path] = val
            return
        if not const_path(path):
            # migrate const cells of the same skeleton into the log
            mig = [cp for cp, _ in self.cells.under(path[0]) if len(cp[1]) == len(path[1]) and skel(cp) == sk]
            for cp in mig:
                self.add_entry(cp, self.cells.pop(cp), ())
        self.add_entry(path, val, tuple(self.guards))

    def add_entry(self, path, val, guard):
        e = Entry()
        e.path, e.val, e.guard, e.loops, e.seq, e.rng = path, val, guard, (), self.next(), None
        lst = self.log.setdefault(skel(path), [])
        # exact overwrite under identical guard: drop older identical-location entry
        if lst and lst[-1].path == path and lst[-1].guard == guard and not lst[-1].loops:
            lst[-1] = e
        else:
            lst.append(e)

    def is_local_cell(self, path):
        r = path[0]
        if not isinstance(r, str):
            return False
        if r.startswith('%') or r.startswith('$'):
            return all(k == 'f' for k, v in path[1]) or (const_path(path) and len(path[1]) > 0 and skel(path) not in self.log)
        return False

    # ------------------------------------------------------------ control
    def alive(self):
        if self.bottom:
            return False
        return c_not(c_or(*self.kills.values())) if self.kills else True

    def branch(self, c, then, els, node):
        """execute then/els (callables) under c / not c and join"""
        if c is True:
            then()
            return
        if c is False:
            if els:
                els()
            return
        ev = EvIf()
        ev.cond, ev.then, ev.els = c, [], []
        ev.coord = coord_str(node)
        saved_cells = self.cells
        saved_kills = self.kills
        cont = self.cont
        nf = len(self.facts)
        # then
        self.cells = saved_cells.copy()
        self.kills = dict(saved_kills)
        self.cont = ev.then
        self.guards.append(c)
        self.bottom = False
        then()
        self.guards.pop()
        ct, kt, bt = self.cells, self.kills, self.bottom
        ft = self.facts[nf:]
        del self.facts[nf:]
        # else
        self.cells = saved_cells.copy()
        self.kills = dict(saved_kills)
        self.cont = ev.els
        n = c_not(c)
        self.guards.append(n)
        self.bottom = False
        if els:
            els()
        self.guards.pop()
        ce, ke, be = self.cells, self.kills, self.bottom
        fe = self.facts[nf:]
        del self.facts[nf:]
        self.cont = cont
        if ev.then or ev.els:
            self.cont.append(ev)
        self.bottom = False
        if bt and be:
            self.bottom = True
            self.cells, self.kills = ct, kt
            return
        if bt:
            self.cells, self.kills = ce, ke
            self.facts += fe
            self.add_fact(n)
            return
        if be:
            self.cells, self.kills = ct, kt
            self.facts += ft
            self.add_fact(c)
            return
        # values on a killed branch do not matter beyond the join
        tk = self._killed(kt, c)
        ek = self._killed(ke, n)
        if tk and not ek:
            merged = ce.copy()
            for k in ct.changed(ce):
                if k not in ct:
                    continue
                if isinstance(k[0], str) and k[0].startswith('$ret'):
                    merged[k] = ite(c, ct[k], ce.get(k, ZERO)) if k in ce else ct[k]
                elif not self.is_frame_local(k) and ct.get(k) != saved_cells.get(k):
                    merged[k] = self._mg(c, ct, ce, k)
        elif ek and not tk:
            merged = ct.copy()
            for k in ct.changed(ce):
                if k not in ce:
                    continue
                if isinstance(k[0], str) and k[0].startswith('$ret'):
                    merged[k] = ite(c, ct[k], ce[k]) if k in ct else ce[k]
                elif not self.is_frame_local(k) and ce.get(k) != saved_cells.get(k):
                    merged[k] = self._mg(c, ct, ce, k)
        else:
            merged = ct.copy()
            for k in ct.changed(ce):
                merged[k] = self._mg(c, ct, ce, k)
        self.cells = merged
        self.kills = {}
        for k in set(kt) | set(ke):
            a, b = kt.get(k, False), ke.get(k, False)
            if a == b:
                v = a
            else:
                v = c_or(c_and(c, a), c_and(n, b))
            if v is not False:
                self.kills[k] = v

    def is_frame_local(self, k):
        """a local of the current function (dead once it has returned)"""
        if not isinstance(k[0], str) or not k[0].startswith('%'):
            return False
        tag = self.frames[-1].tag if self.frames else ''
        return k[0].endswith(tag) if tag else '@' not in k[0]

    def _killed(self, kills, c):
        return kills.get('ret') is True

    def _mg(self, c, ct, ce, k):
        a = ct.get(k)
        b = ce.get(k)
        if a is None:
            a = self._undef(k)
        if b is None:
            b = self._undef(k)
        return ite(c, a, b)

    def _undef(self, k):
        for h in reversed(self.havocs):
            sk = skel(k)
            if sk[:len(h[1])] == h[1]:
                return P(atom('ld', k, ('c', h[2])))
        if k in self.ptrcells:
            return P(atom('base', k))
        return self.init_val(k, None)

    ptrcells = frozenset()

    def exec_list(self, stmts):
        i = 0
        n = len(stmts)
        while i < n:
            if self.bottom:
                # look for labels reachable by goto from before
                return
            al = self.alive()
            if al is True:
                self.exec(stmts[i])
                i += 1
                continue
            # find first label that revives
            j = None
            for q in range(i, n):
                s = stmts[q]
                if isinstance(s, c_ast.Label) and ('goto', s.name) in self.kills:
                    j = q
                    break
            end = n if j is None else j
            if al is not False and end > i:
                outer = self.kills
                rest = stmts[i:end]

                def run(rest=rest):
                    self.kills = {}
                    self.exec_list(rest)
                self._guarded_rest(al, run, stmts[i], outer)
            if j is None:
                return
            self.kills.pop(('goto', stmts[j].name), None)
            self.exec(stmts[j])
            i = j + 1

    def _guarded_rest(self, al, run, node, outer):
        self.branch(al, run, None, node)
        # branch() recomputed kills under (al): merge with the outer kills
        ks = {}
        for k in set(outer) | set(self.kills):
            v = c_or(outer.get(k, False), self.kills.get(k, False))
            if v is not False:
                ks[k] = v
        self.kills = ks

    # ---------------------------------------------------------- statements
    def exec(self, s):
        if s is None or self.bottom:
            return
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            # expression statement
            self.ev(s)
            return
        m(s)

    def x_Compound(self, s):
        self.exec_list(s.block_items or [])

    def x_EmptyStatement(self, s):
        pass

    def x_Pragma(self, s):
        pass

    def x_Label(self, s):
        self.kills.pop(('goto', s.name), None)
        self.exec(s.stmt)

    def x_Goto(self, s):
        k = ('goto', s.name)
        self.kills[k] = True

    def x_Decl(self, s):
        fr = self.frames[-1]
        if isinstance(s.type, c_ast.FuncDecl):
            return
        t = fr.unit.type_of(s.type)
        if s.name is None:
            return
        if 'static' in (s.storage or []) and s.init is not None and t[0] not in ('arr', 'struct', 'ptr') \
                and s.name not in self.assigned(self.prog.need(fr.name, fr.unit.rel)[1].body):
            pass        # never changed: a constant
        elif 'static' in (s.storage or []):
            fr.vars[s.name] = fr.name + '.' + s.name
            fr.types[s.name] = t
            return
        if 'extern' in (s.storage or []):
            return
        root = '%' + s.name + fr.tag
        fr.vars[s.name] = root
        fr.types[s.name] = t
        path = (root, ())
        if s.init is not None:
            if isinstance(s.init, c_ast.InitList):
                self.init_list(path, t, s.init)
            else:
                if t[0] == 'arr' and isinstance(s.init, c_ast.Constant):
                    self.store((root, (('i', ZERO),)), t[1], self.ev(s.init)[0], s)
                    return
                v, vt = self.ev(s.init)
                self.store(path, t, self.conv(v, vt, t), s)
        else:
            # fresh instance: forget stale cells from an earlier iteration/inlining
            pass

    def init_list(self, path, t, il):
        for n, e in enumerate(il.exprs):
            if t[0] == 'arr':
                sub = (path[0], path[1] + (('i', P(n)),))
                st = t[1]
            elif t[0] == 'struct':
                f = self.frames[-1].unit.fields(t)[n]
                sub = (path[0], path[1] + (('f', f[0]),))
                st = f[1]
            else:
                sub, st = path, t
            if isinstance(e, c_ast.InitList):
                self.init_list(sub, st, e)
            else:
                v, vt = self.ev(e)
                self.store(sub, st, self.conv(v, vt, st), e)

    def x_DeclList(self, s):
        for d in s.decls:
            self.exec(d)

    def x_If(self, s):
        c = self.decide(self.cond(s.cond))
        self.branch(c, lambda: self.exec(s.iftrue), (lambda: self.exec(s.iffalse)) if s.iffalse is not None else None, s)

    def x_Return(self, s):
        fr = self.frames[-1]
        if s.expr is not None:
            v, t = self.ev(s.expr)
            if isinstance(v, SVal):
                for suf, x in v.items():
                    self.cells[(fr.retpath, suf)] = x
            else:
                self.cells[(fr.retpath, ())] = self.conv(v, t, fr.rettype)
            if len(self.frames) == 1:
                ev = EvRet()
                ev.val, ev.coord, ev.fn = v, coord_str(s), fr.name
                self.cont.append(ev)
        elif len(self.frames) == 1:
            ev = EvRet()
            ev.val, ev.coord, ev.fn = None, coord_str(s), fr.name
            self.cont.append(ev)
        self.kills['ret'] = True

    def x_Break(self, s):
        self.kills['brk'] = True

    def x_Continue(self, s):
        self.kills['cont'] = True

    def x_Switch(self, s):
        v, t = self.ev(s.cond)
        items = s.stmt.block_items or [] if isinstance(s.stmt, c_ast.Compound) else [s.stmt]
        segs = []  # (label conds or None, stmts)
        allc = []

        def lab(x):
            if isinstance(x, c_ast.Case):
                cv, _ = self.ev(x.expr)
                c = c_eq0(v - cv, True)
                allc.append(c)
                return c
            return None
        flat = []

        def walk(x):
            if isinstance(x, (c_ast.Case, c_ast.Default)):
                flat.append(('L', lab(x)))
                for y in (x.stmts or []):
                    walk(y)
            else:
                flat.append(('S', x))
        for x in items:
            walk(x)
        dflt = c_not(c_or(*allc)) if allc else True
        outer_brk = self.kills.pop('brk', None)
        # group
        active = False
        i = 0
        while i < len(flat):
            k, x = flat[i]
            if k == 'L':
                m = dflt if x is None else x
                m = self.decide(m)
                # fallthrough: previously active and not broken
                active = c_or(c_and(active, c_not(self.kills.get('brk', False))), m)
                i += 1
                continue
            j = i
            while j < len(flat) and flat[j][0] == 'S':
                j += 1
            stmts = [y for _, y in flat[i:j]]
            act = self.decide(c_and(active, c_not(c_or(*[v2 for k2, v2 in self.kills.items() if k2 != 'brk']))))
            outer = dict(self.kills)
            if act is not False:
                def run(stmts=stmts):
                    self.kills = {}
                    self.exec_list(stmts)
                if act is True:
                    self.kills = {}
                    self.exec_list(stmts)
                    new = self.kills
                else:
                    self.kills = {}
                    self.branch(act, run, None, s)
                    new = self.kills
                ks = {}
                for k2 in set(outer) | set(new):
                    vv = c_or(outer.get(k2, False), new.get(k2, False))
                    if vv is not False:
                        ks[k2] = vv
                self.kills = ks
            i = j
            if self.bottom:
                break
        self.kills.pop('brk', None)
        if outer_brk is not None:
            self.kills['brk'] = outer_brk

    # ---------------------------------------------------------------- loops
    def x_For(self, s):
        if s.init is not None:
            if isinstance(s.init, c_ast.DeclList):
                self.exec(s.init)
            else:
                self.ev(s.init)
        self.loop(s, s.cond, s.next, s.stmt, False)

    def x_While(self, s):
        self.loop(s, s.cond, None, s.stmt, False)

    def x_DoWhile(self, s):
        self.loop(s, s.cond, None, s.stmt, True)

    def assigned(self, *nodes):
        """local scalar variables syntactically assigned in nodes"""
        out = set()

        def root_id(l):
            via = False
            while True:
                if isinstance(l, c_ast.ID):
                    if via:
                        t = self.type_of_name(l.name)
                        if t is not None and t[0] == 'ptr':
                            return None     # stored through the pointer
                    return l.name
                if isinstance(l, c_ast.StructRef) and l.type == '.':
                    l = l.name
                elif isinstance(l, c_ast.ArrayRef):
                    l = l.name
                    via = True
                elif isinstance(l, c_ast.Cast):
                    l = l.expr
                else:
                    return None

        class V(c_ast.NodeVisitor):
            def visit_Assignment(v, n):
                r = root_id(n.lvalue)
                if r:
                    out.add(r)
                v.generic_visit(n)

            def visit_UnaryOp(v, n):
                if n.op in ('++', '--', 'p++', 'p--', '&'):
                    r = root_id(n.expr)
                    if r:
                        out.add(r)
                v.generic_visit(n)
        vv = V()
        for n in nodes:
            if n is not None:
                vv.visit(n)
        return out

    def loop(self, s, cond, step, body, dowhile):
        self.stats['loops'] += 1
        # ---- constant trip count: unroll
        c0 = True if cond is None else self.decide(self.cond(cond))
        if c0 is False and not dowhile:
            return
        if c0 is True and cond is not None and not dowhile and self.const_counter(cond) and self.const_diff(cond):
            if self.try_unroll(cond, step, body):
                return
        fr = self.frames[-1]
        names = self.assigned(cond, step, body)
        M = set()
        for nme in names:
            r = self.root_of(nme)
            if r is None:
                continue
            t = self.type_of_name(nme)
            if t is None or t[0] not in ('arr', 'struct'):
                M.add((r, ()))
            else:
                for k, _ in self.cells.under(r):
                    M.add(k)
        self.loopn += 1
        lid = self.loopn
        base_cells = self.cells
        base_kills = self.kills
        nlog = {k: len(v) for k, v in self.log.items()}
        nhav = len(self.havocs)
        nfacts = len(self.facts)
        startseq = self.next()
        carried = set()
        guess = self.guess_counter(cond, step, base_cells)
        closed = {}
        counter = None
        lv = None
        lo = hi = None
        for attempt in range(6):
            # -------- one symbolic pass over the body
            for k in list(self.log):
                if k not in nlog:
                    del self.log[k]
                else:
                    del self.log[k][nlog[k]:]
            del self.havocs[nhav:]
            del self.facts[nfacts:]
            self.cells = base_cells.copy()
            self.kills = {}
            self.bottom = False
            ctx = LoopCtx()
            ctx.var, ctx.lo, ctx.hi, ctx.startseq, ctx.loads, ctx.carried, ctx.lid = None, None, None, startseq, [], carried, lid
            if lv is None and guess is not None:
                gname, gpath, glo, gdir = guess
                lv = atom('lv', '%s#%d' % (gname, lid))
                counter = gpath
                closed = {gpath: P(lv)}
            ins = {}
            for k in M:
                if k in closed:
                    self.cells[k] = closed[k]
                else:
                    a = atom('in', k, lid)
                    ins[k] = a
                    self.cells[k] = P(a)
            body_ev = []
            cont = self.cont
            self.cont = body_ev
            saved_written = self.written
            self.written = set()
            cc = True
            if not dowhile and cond is not None:
                cc = self.cond(cond)
            if lv is not None:
                ctx.var = lv
                if guess is not None and lo is None:
                    # provisional bounds from the guessed counter
                    b = self.bounds_from(cc, lv, glo, gdir)
                    if b:
                        lo, hi = b
                ctx.lo, ctx.hi = lo, hi
                if lo is None:
                    ctx.var = None
            self.loops.append(ctx)
            # the loop condition holds inside the body
            pushed = False
            if cc is not True and cc is not False and lo is None:
                self.guards.append(cc)
                pushed = True
            self.exec(body)
            cont_kill = self.kills.pop('cont', False)
            bot = self.bottom
            self.bottom = False
            brk = self.kills.pop('brk', False)
            others = dict(self.kills)
            self.kills = {}
            if step is not None:
                self.ev(step)
            dcc = None
            if dowhile:
                dcc = self.cond(cond)
            if pushed:
                self.guards.pop()
            self.loops.pop()
            self.cont = cont
            wr = self.written
            self.written = saved_written
            if self.written is not None:
                self.written |= wr
            outc = self.cells
            # cells changed that were not in M
            grew = False
            for k, v in outc.items():
                if k in M:
                    continue
                if k in base_cells:
                    if base_cells[k] is not v and base_cells[k] != v:
                        M.add(k)
                        grew = True
                elif k in wr and not self.is_frame_local(k):
                    M.add(k)
                    grew = True
            # cells that vanished (migrated to the log inside the loop)
            vanished = [k for k in base_cells if k not in outc and k not in M]
            if vanished:
                # migrate before the loop and retry
                self.cells = base_cells
                for k in list(self.log):
                    if k not in nlog:
                        del self.log[k]
                    else:
                        del self.log[k][nlog[k]:]
                for k in vanished:
                    self.add_entry(k, base_cells[k], ())
                    base_cells = base_cells.copy()
                    base_cells.pop(k, None)
                nlog = {k: len(v) for k, v in self.log.items()}
                startseq = self.next()
                continue
            if grew:
                continue
            # ---- verify / find the counter
            if lv is not None:
                want = P(lv) + (1 if (guess is None or guess[3] > 0) else -1)
                if guess is not None and outc.get(counter) != want:
                    guess = None
                    lv = None
                    closed = {}
                    lo = hi = None
                    continue
                if guess is not None and lo is None:
                    guess = None
                    lv = None
                    closed = {}
                    continue
            # ---- carried memory dependences
            newc = self.carried_conflicts(ctx, lv, lo, hi, nlog, -1 if (guess and guess[3] < 0) else 1)
            newc -= carried
            if newc:
                carried |= newc
                continue
            # ---- carried scalars
            used = self.used_ins(body_ev, outc, ins, nlog, base_cells, [brk, cc] + list(others.values()))
            recs = {}
            for k, a in ins.items():
                o = outc.get(k)
                if o is None:
                    continue
                recs[k] = o
            if lv is None:
                # choose a counter among induction cells
                pick = self.pick_counter(cc, ins, outc, base_cells)
                if pick is not None:
                    k, st, lo_, hi_ = pick
                    nm = k[0].lstrip('%') if isinstance(k[0], str) else 'n'
                    lv = atom('lv', '%s#%d' % (nm.split('@')[0], lid))
                    counter = k
                    lo, hi = lo_, hi_
                    closed = {k: P(lv)}
                    guess = (nm, k, lo, 1 if st > 0 else -1)
                    continue
            need = False
            if lv is not None:
                n_iter = (P(lv) - lo) if guess[3] > 0 else (hi - P(lv))
                for k in used:
                    a = ins[k]
                    o = outc.get(k)
                    if o is None:
                        continue
                    stp = split_linear(o, a)
                    if stp is not None and not (stp.deps & ({lv.id} | {x.id for x in ins.values()})) and not inner_lout(stp, lid):
                        if k not in closed and k in base_cells:
                            closed[k] = base_cells[k] + stp * n_iter
                            need = True
                        elif k not in closed:
                            closed[k] = self._undef(k) + stp * n_iter
                            need = True
            if need:
                continue
            break
        # ------------------------------------------------ finalise
        ev = EvLoop()
        ev.var, ev.lo, ev.hi = lv, lo, hi
        ev.coord = coord_str(s)
        ev.desc = bool(lv is not None and guess is not None and guess[3] < 0)
        ev.brk = brk
        ev.cond = cc if not dowhile else dcc
        ev.body = body_ev
        ev.lid = lid
        self.loopcond[lid] = (ev.cond, brk)
        ev.trip = (hi - lo + 1) if lv is not None else None
        if body_ev:
            self.cont.append(ev)
        # bind log entries
        bind = (lv if lv is not None else atom('lv', 'it#%d' % lid), lo, hi)
        for k, lst in self.log.items():
            st = nlog.get(k, 0)
            for q in range(st, len(lst)):
                e = lst[q]
                e.loops = (bind,) + e.loops
        del self.facts[nfacts:]
        # exit values
        for k, a in ins.items():
            if k in outc:
                self.loopinfo[a] = (base_cells.get(k, self._undef(k)), outc[k], lid, k)
        newcells = base_cells.copy()
        irregular = brk is not False or bool(others) or lv is None
        self.loopmeta[lid] = (lv, lo, hi, irregular)
        for k in M:
            o = outc.get(k)
            if o is None:
                newcells.pop(k, None)
                continue
            b = base_cells.get(k)
            if b is None:
                b = self._undef(k)
            if k in ins:
                a = ins[k]
                if o == P(a):
                    newcells[k] = b
                    if k not in base_cells:
                        newcells.pop(k, None)
                    continue
            if irregular:
                newcells[k] = P(atom('lout', lid, k))
                continue
            if k == counter:
                newcells[k] = (hi + 1) if guess[3] > 0 else (lo - 1)
                continue
            if k in closed:
                a = closed[k]
                trip = hi - lo + 1
                stp = (o - a)
                newcells[k] = b + stp * trip
                continue
            a = ins.get(k)
            if a is None:
                newcells[k] = P(atom('lout', lid, k))
                continue
            if a.id not in o.deps:
                last = hi if guess[3] > 0 else lo
                inside = {x.id for x in ins.values()}
                if o.deps & inside or inner_lout(o, lid):
                    newcells[k] = P(atom('lout', lid, k))
                else:
                    newcells[k] = subst(o, {lv: last})
                continue
            newcells[k] = self.reduction(k, a, o, b, lv, lo, hi, ins, lid)
        self.cells = newcells
        self.kills = dict(base_kills)
        for k2, v2 in others.items():
            # a return/goto inside the loop body: conditional on a loop-dependent event
            kc = v2
            if kc is not True or True:
                kc = ('lit', atom('lkill', lid, str(k2)), True)
            self.kills[k2] = c_or(self.kills.get(k2, False), kc)
        if bot and not body_ev:
            pass

    def reduction(self, k, a, o, b, lv, lo, hi, ins, lid):
        others = {x.id for x in ins.values() if x is not a}
        g = split_linear(o, a)
        if g is not None and not (g.deps & (others | {a.id})):
            return b + red('sum', lv, lo, hi, g)
        for op in ('max', 'min'):
            g = split_minmax(o, a, op)
            if g is not None and not (g.deps & (others | {a.id})):
                r = red(op, lv, lo, hi, g)
                return maxv(b, r) if op == 'max' else minv(b, r)
        return P(atom('lout', lid, k))

    def used_ins(self, evs, outc, ins, nlog, base_cells, conds):
        """which loop-in atoms are actually observed in the body"""
        ids = {a.id: k for k, a in ins.items()}
        if not ids:
            return []
        seen = set()
        idset = frozenset(ids)

        def chk(x):
            d = sym._deps_of(x) & idset
            if d:
                seen.update(d)

        def walk(lst):
            for e in lst:
                if e.k == 'store':
                    chk(e.path)
                    chk(e.val)
                elif e.k == 'call':
                    chk(e.args)
                elif e.k == 'if':
                    chk(e.cond)
                    walk(e.then)
                    walk(e.els)
                elif e.k == 'loop':
                    if e.lo is not None:
                        chk(e.lo)
                        chk(e.hi)
                    chk(e.cond)
                    walk(e.body)
                elif e.k == 'ret' and e.val is not None and not isinstance(e.val, dict):
                    chk(e.val)
        walk(evs)
        for k, lst in self.log.items():
            for e in lst[nlog.get(k, 0):]:
                chk(e.path)
                chk(e.val)
                chk(e.guard)
        for c in conds:
            if c is not True and c is not False and c is not None:
                chk(c)
        for k, v in outc.items():
            if k in ins:
                if v != P(ins[k]):
                    chk(v)
            else:
                chk(v)
        return [ids[i] for i in seen]

    def bounds_from(self, cc, lv, lo0, direction):
        """loop bounds from the condition over counter lv"""
        if cc is True or cc is False:
            return None
        lits = [cc] if cc[0] == 'lit' else list(cc[1]) if cc[0] == 'and' else []
        for l in lits:
            if l[0] != 'lit':
                continue
            a = l[1]
            if a.kind == 'le0' and a.args[1]:
                p = a.args[0] if l[2] else (-a.args[0] + 1)   # p<=0
                co = p.t.get(((lv.id, 1),))
                r = p - P(lv) * (co or 0)
                if lv.id in r.deps:
                    continue
                if co == 1 and direction > 0:
                    return lo0, -r
                if co == -1 and direction < 0:
                    return r, lo0
            if a.kind == 'eq0' and not l[2]:
                p = a.args[0]
                co = p.t.get(((lv.id, 1),))
                if co in (1, -1):
                    r = (p - P(lv) * co) * (-co)
                    if lv.id not in r.deps:
                        return (lo0, r - 1) if direction > 0 else (r + 1, lo0)
        return None

    def pick_counter(self, cc, ins, outc, base):
        if cc is True or cc is False:
            return None
        inids = {a.id for a in ins.values()}
        lits = [cc] if cc[0] == 'lit' else list(cc[1]) if cc[0] == 'and' else []
        for l in lits:
            if l[0] != 'lit':
                continue
            a = l[1]
            for k, ia in ins.items():
                if k not in base:
                    continue
                if ia.id not in a.deps:
                    continue
                o = outc.get(k)
                if o is None:
                    continue
                st = o - P(ia)
                if not st.is_const() or st.const() not in (1, -1):
                    continue
                st = st.const()
                if a.kind == 'le0' and a.args[1]:
                    p = a.args[0] if l[2] else (-a.args[0] + 1)
                    co = p.t.get(((ia.id, 1),))
                    r = p - P(ia) * (co or 0)
                    if r.deps & inids:
                        continue
                    if co == 1 and st == 1:
                        return k, st, base[k], -r
                    if co == -1 and st == -1:
                        return k, st, r, base[k]
                if a.kind == 'eq0' and not l[2]:
                    p = a.args[0]
                    co = p.t.get(((ia.id, 1),))
                    if co in (1, -1):
                        r = (p - P(ia) * co) * (-co)
                        if not (r.deps & inids):
                            return (k, st, base[k], r - 1) if st > 0 else (k, st, r + 1, base[k])
        return None

    def guess_counter(self, cond, step, cells):
        if step is None or cond is None:
            return None
        st = step
        if isinstance(st, c_ast.ExprList) and len(st.exprs) == 1:
            st = st.exprs[0]
        d = None
        if isinstance(st, c_ast.UnaryOp) and isinstance(st.expr, c_ast.ID):
            nm = st.expr.name
            d = {'p++': 1, '++': 1, 'p--': -1, '--': -1}.get(st.op)
        elif isinstance(st, c_ast.Assignment) and isinstance(st.lvalue, c_ast.ID) and st.op in ('+=', '-=') \
                and isinstance(st.rvalue, c_ast.Constant) and st.rvalue.value == '1':
            nm = st.lvalue.name
            d = 1 if st.op == '+=' else -1
        if d is None:
            return None
        r = self.root_of(nm)
        if r is None:
            return None
        path = (r, ())
        t = self.type_of_name(nm)
        if t is None or t[0] != 'int' or path not in cells:
            return None
        return (nm, path, cells[path], d)

    def carried_conflicts(self, ctx, lv, lo, hi, nlog, direction):
        """skeletons whose loads may observe writes of earlier iterations"""
        bad = set()
        if not ctx.loads:
            return bad
        loads = {}
        for p, sk in ctx.loads:
            loads.setdefault(sk, set()).add(p)
        for sk, ps in loads.items():
            ents = self.log.get(sk, ())[nlog.get(sk, 0):]
            if not ents:
                continue
            for e in ents:
                for p in ps:
                    if self.may_carry(e, p, lv, lo, hi, direction):
                        bad.add(sk)
                        break
                if sk in bad:
                    break
        return bad

    def may_carry(self, e, p, lv, lo, hi, direction):
        if lv is None:
            return True
        vp = atom('lv', "'" + str(lv.args[0]))
        ren = {lv: P(vp)}
        inner = []
        for (v, l, h) in e.loops:
            nv = atom('lv', "''" + str(v.args[0]))
            ren[v] = P(nv)
            inner.append((nv, None if l is None else subst(l, ren), None if h is None else subst(h, ren)))
        for (ka, a), (kb, b) in zip(e.path[1], p[1]):
            if ka != 'i':
                continue
            a = subst(a, ren)
            l, h = self.interval(a, inner)
            if l is None:
                continue
            # is there v' < v (dir>0) with l(v') <= b(v) <= h(v') ?
            # eliminate by substituting v' = v - d, d>=1 : need linear in v'
            cl = l.t.get(((vp.id, 1),), 0)
            ch = h.t.get(((vp.id, 1),), 0)
            d = atom('lv', "d")
            back = {vp: P(lv) - P(d) * direction}
            L = subst(l, back)
            H = subst(h, back)
            known = self.known() + [P(d) - 1, P(lv) - lo, hi - P(lv), hi - lo - P(d)]
            known.append(P(lv) - P(d) - lo if direction > 0 else hi - P(lv) - P(d))
            # load-side inner loop variables are unconstrained atoms here, except via known()
            if prove_ge0(L - b - 1, lambda: known) or prove_ge0(b - H - 1, lambda: known):
                return False
        return True

    def const_counter(self, cond):
        """cheap test that the loop condition only involves currently-constant cells"""
        if self.values:
            return True
        ok = [True]

        class V(c_ast.NodeVisitor):
            def visit_FuncCall(v, n):
                ok[0] = False

            def visit_StructRef(v, n):
                ok[0] = False

            def visit_ArrayRef(v, n):
                ok[0] = False
        V().visit(cond)
        return ok[0]

    def const_diff(self, cond):
        if isinstance(cond, c_ast.BinaryOp) and cond.op in ('<', '<=', '>', '>=', '!='):
            a, _ = self.ev(cond.left)
            b, _ = self.ev(cond.right)
            if isinstance(a, Poly) and isinstance(b, Poly):
                return (a - b).is_const()
        return True

    def counts(self, cond):
        """does some conjunct of the condition bound a counter by a constant?"""
        if isinstance(cond, c_ast.BinaryOp) and cond.op == '&&':
            return self.counts(cond.left) or self.counts(cond.right)
        if isinstance(cond, c_ast.BinaryOp) and cond.op in ('<', '<=', '>', '>=', '!='):
            a, _ = self.ev(cond.left)
            b, _ = self.ev(cond.right)
            return isinstance(a, Poly) and isinstance(b, Poly) and a.is_const() and b.is_const()
        return False

    def try_unroll(self, cond, step, body):
        snap = (self.cells.copy(), {k: list(v) for k, v in self.log.items()}, len(self.havocs), dict(self.kills),
                len(self.cont), self.bottom, len(self.facts), self.loopn, self.seq)
        cont, ng = self.cont, len(self.guards)

        def rounds(n):
            """iterations n, n+1, ...: everything after a conditional break,
            continue or return runs under the condition that it was not taken"""
            while True:
                if n > self.unroll:
                    raise _NoUnroll()
                self.exec(body)
                n += 1
                self.kills.pop('cont', None)
                al = self.alive()
                if self.bottom or al is False:
                    return
                if al is not True:
                    outer = self.kills

                    def rest(n=n):
                        self.kills = {}
                        c = more()
                        if c is not False:
                            self.branch(c, lambda: rounds(n), None, body)
                    self._guarded_rest(al, rest, body, outer)
                    return
                c = more()
                if c is False:
                    return
                if c is not True:
                    self.branch(c, lambda: rounds(n), None, body)
                    return

        def more():
            if step is not None:
                self.ev(step)
            c = self.decide(self.cond(cond))
            if c is not True and c is not False and not self.counts(cond):
                raise _NoUnroll()
            return c
        try:
            rounds(0)
            self.kills.pop('brk', None)
            return True
        except _NoUnroll:
            self.cont = cont
            del self.guards[ng:]
        self.cells, self.log = snap[0], snap[1]
        del self.havocs[snap[2]:]
        self.kills = snap[3]
        del self.cont[snap[4]:]
        self.bottom = snap[5]
        del self.facts[snap[6]:]
        return False

    # ------------------------------------------------------------ names
    def root_of(self, name):
        fr = self.frames[-1]
        if name in fr.vars:
            return fr.vars[name]
        if name in fr.unit.enums:
            return None
        if name in fr.unit.globals:
            return name
        return name

    def type_of_name(self, name):
        fr = self.frames[-1]
        if name in fr.types:
            return fr.types[name]
        return fr.unit.globals.get(name)

    # ------------------------------------------------------------ lvalues
    def deref_path(self, ptr):
        """path designated by pointer value ptr (offset in elements included)"""
        cands = []
        for m, c in ptr.t.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = sym.atom_by_id(m[0][0])
                if a.kind in ('base', 'addr', 'ite') or (a.kind in ('ld', 'unk', 'call', 'out', 'in', 'lout', 'fn', 'str')):
                    cands.append(a)
        pri = {'base': 0, 'addr': 0, 'ite': 1, 'call': 2, 'out': 2, 'ld': 3, 'lout': 3, 'in': 3, 'fn': 3, 'str': 2, 'unk': 4}
        cands.sort(key=lambda a: pri[a.kind])
        if cands:
            a = cands[0]
            off = ptr - P(a)
            if a.kind == 'base':
                p = a.args[0]
                if p[1] and p[1][-1][0] == 'w':
                    sufs = p[1][-1][1]
                    if not off.is_const() or not 0 <= off.const() < len(sufs):
                        raise AnalysisError('structure viewed as an array with a variable or invalid index')
                    return (p[0], p[1][:-1] + sufs[int(off.const())])
                return (p[0], p[1] + (('i', off),))
            if a.kind == 'addr':
                p = a.args[0]
                if not off.t:
                    return p
                return (p[0], p[1] + (('i', off),))
            return (a, (('i', off),))
        return (atom('wild', ptr), (('i', ZERO),))

    def lval(self, n):
        """(path, type)"""
        if isinstance(n, c_ast.ID):
            return (self.root_of(n.name), ()), self.type_of_name(n.name)
        if isinstance(n, c_ast.StructRef):
            if n.type == '->':
                p, t = self.ev(n.name)
                path = self.deref_path(p)
                bt = t[1] if t and t[0] in ('ptr', 'arr') else None
            else:
                path, bt = self.lval(n.name)
            ft = None
            if bt and bt[0] == 'struct':
                for fn, ftt in self.frames[-1].unit.fields(bt):
                    if fn == n.field.name:
                        ft = ftt
            return (path[0], path[1] + (('f', n.field.name),)), ft
        if isinstance(n, c_ast.ArrayRef):
            p, t = self.ev(n.name)
            i, _ = self.ev(n.subscript)
            et = t[1] if t and t[0] in ('ptr', 'arr') else None
            return self.deref_path(p + i), et
        if isinstance(n, c_ast.UnaryOp) and n.op == '*':
            p, t = self.ev(n.expr)
            et = t[1] if t and t[0] in ('ptr', 'arr') else None
            return self.deref_path(p), et
        if isinstance(n, c_ast.Cast):
            path, t = self.lval(n.expr)
            return path, self.frames[-1].unit.type_of(n.to_type)
        if isinstance(n, c_ast.ExprList):
            for e in n.exprs[:-1]:
                self.ev(e)
            return self.lval(n.exprs[-1])
        if isinstance(n, c_ast.FuncCall):
            v, t = self.ev(n)
            # struct-returning call used as lvalue base
            self.tagn += 1
            path = ('$tmp%d' % self.tagn, ())
            if isinstance(v, SVal):
                for suf, x in v.items():
                    self.cells[(path[0], suf)] = x
            else:
                self.cells[path] = v
            return path, t
        if isinstance(n, c_ast.TernaryOp):
            v, t = self.ev(n)
            self.tagn += 1
            path = ('$tmp%d' % self.tagn, ())
            if isinstance(v, SVal):
                for suf, x in v.items():
                    self.cells[(path[0], suf)] = x
            else:
                self.cells[path] = v
            return path, t
        raise AnalysisError('lvalue %s at %s' % (type(n).__name__, coord_str(n)))

    def leaves(self, t, unit=None):
        unit = unit or self.frames[-1].unit
        if t[0] == 'struct':
            for f, ft in unit.fields(t):
                for suf, lt in self.leaves(ft, unit):
                    yield (('f', f),) + suf, lt
        elif t[0] == 'arr':
            if t[2] is None or t[2] > 64:
                yield (), t
                return
            for n in range(t[2]):
                for suf, lt in self.leaves(t[1], unit):
                    yield (('i', P(n)),) + suf, lt
        else:
            yield (), t

    def load_any(self, path, t):
        if t is not None and t[0] == 'struct':
            sv = SVal()
            for suf, lt in self.leaves(t):
                if lt[0] == 'arr':
                    continue
                sv[suf] = self.load((path[0], path[1] + suf), lt)
            return sv
        return self.load(path, t)

    def addr_of(self, path, t):
        # &a[n] -> base(a)+n
        if path[1] and path[1][-1][0] == 'i':
            off = path[1][-1][1]
            if isinstance(path[0], Atom) and len(path[1]) == 1:
                if path[0].kind == 'wild':
                    return path[0].args[0]
                return P(path[0]) + off
            return P(atom('base', (path[0], path[1][:-1]))) + off
        return P(atom('addr', path))

    # -------------------------------------------------------- expressions
    def conv(self, v, ft, tt):
        if isinstance(v, SVal) or tt is None or ft is None:
            return v
        if tt[0] == 'int' and ft[0] == 'real':
            if v.is_const():
                return P(int(v.const()))
            return P(atom('fn', 'int', v))
        return v

    def ev(self, n):
        """(value, type)"""
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise AnalysisError('expression %s at %s' % (type(n).__name__, coord_str(n)))
        return m(n)

    def e_Constant(self, n):
        if n.type == 'string':
            s = n.value
            try:
                s = eval(s)
            except Exception:
                s = s.strip('"')
            return P(atom('str', s)), ('ptr', CHAR)
        if n.type == 'char':
            return P(ord(eval(n.value))), CHAR
        if 'int' in n.type:
            x = n.value.rstrip('uUlL')
            return P(int(x, 8 if x[:1] == '0' and x[1:].isdigit() else 0)), INT
        v = n.value.rstrip('fFlL')
        return P(snap(Fraction(v)) if not v.lower().startswith('0x') else 0), DBL

    def e_ID(self, n):
        name = n.name
        fr = self.frames[-1]
        if name not in fr.vars:
            if name in fr.unit.enums:
                if name in self.prog.symbolic_enums:
                    return P(atom('sym', name)), INT
                return P(fr.unit.enums[name]), INT
            if name not in fr.unit.globals:
                if name in fr.unit.protos:
                    return P(atom('fnref', name)), ('ptr', fr.unit.protos[name])
                return P(atom('sym', name)), INT
        t = self.type_of_name(name)
        return self.load_any((self.root_of(name), ()), t), t

    def e_StructRef(self, n):
        p, t = self.lval(n)
        return self.load_any(p, t), t

    e_ArrayRef = e_StructRef

    def e_Cast(self, n):
        v, t = self.ev(n.expr)
        tt = self.frames[-1].unit.type_of(n.to_type)
        if (t and tt and t[0] == 'ptr' and tt[0] == 'ptr' and t[1] and tt[1] and t[1][0] == 'struct' and tt[1] == DBL
                and isinstance(v, Poly) and not v.is_const() and all(lt == DBL for _, lt in self.leaves(t[1]))):
            # a structure of reals viewed as an array of reals
            q = self.deref_path(v)
            return P(atom('base', (q[0], q[1] + (('w', tuple(suf for suf, _ in self.leaves(t[1]))),)))), tt
        return self.conv(v, t, tt), tt

    def e_ExprList(self, n):
        r = (ZERO, INT)
        for e in n.exprs:
            r = self.ev(e)
        return r

    def e_TernaryOp(self, n):
        c = self.decide(self.cond(n.cond))
        if c is True:
            return self.ev(n.iftrue)
        if c is False:
            return self.ev(n.iffalse)
        self.guards.append(c)
        a, ta = self.ev(n.iftrue)
        self.guards[-1] = c_not(c)
        b, tb = self.ev(n.iffalse)
        self.guards.pop()
        t = ta
        if ta and tb and ta[0] == 'int' and tb[0] == 'real':
            t = tb
        if isinstance(a, SVal):
            return SVal({k: ite(c, a[k], b[k]) for k in a}), ta
        return ite(c, a, b), t

    def e_Assignment(self, n):
        path, t = self.lval(n.lvalue)
        r, rt = self.ev(n.rvalue)
        if n.op != '=':
            old = self.load(path, t)
            r, rt = self.binop(n.op[:-1], old, t, r, rt, n)
        elif t is not None and t[0] == 'struct' and not isinstance(r, SVal):
            # struct assigned from opaque value
            sv = SVal()
            for suf, lt in self.leaves(t):
                if lt[0] != 'arr':
                    sv[suf] = P(atom('fn', 'field', r, suf))
            r = sv
        r = self.conv(r, rt, t)
        # lvalue path may have been computed before rvalue side effects: fine
        self.store(path, t, r, n)
        return r, t

    def e_UnaryOp(self, n):
        op = n.op
        if op == 'sizeof':
            u = self.frames[-1].unit
            if isinstance(n.expr, c_ast.Typename):
                t = u.type_of(n.expr)
            else:
                t = self.static_type(n.expr)
            sz = u.sizeof(t) if t else None
            return (P(sz) if sz is not None else P(atom('fn', 'sizeof', coord_str(n)))), LONG
        if op == '&':
            if isinstance(n.expr, c_ast.ID) and n.expr.name not in self.frames[-1].vars and \
                    n.expr.name in self.frames[-1].unit.protos and n.expr.name not in self.frames[-1].unit.globals:
                return P(atom('fnref', n.expr.name)), ('ptr', VOID)
            path, t = self.lval(n.expr)
            return self.addr_of(path, t), ('ptr', t)
        if op == '*':
            path, t = self.lval(n)
            if t is not None and t[0] == 'func':
                return self.ev(n.expr)
            return self.load_any(path, t), t
        if op in ('++', '--', 'p++', 'p--'):
            path, t = self.lval(n.expr)
            old = self.load(path, t)
            new = old + (1 if '+' in op else -1)
            self.store(path, t, new, n)
            return (old if op[0] == 'p' else new), t
        if op == '!':
            return self.b2i(c_not(self.cond(n.expr))), INT
        v, t = self.ev(n.expr)
        if op == '-':
            return -v, t
        if op == '+':
            return v, t
        if op == '~':
            return P(atom('fn', '~', v)), t
        raise AnalysisError('unary ' + op)

    def static_type(self, n):
        u = self.frames[-1].unit
        if isinstance(n, c_ast.ID):
            return self.type_of_name(n.name)
        if isinstance(n, c_ast.StructRef):
            bt = self.static_type(n.name)
            if bt and n.type == '->':
                bt = bt[1]
            if bt and bt[0] == 'struct':
                for f, ft in u.fields(bt):
                    if f == n.field.name:
                        return ft
            return None
        if isinstance(n, c_ast.ArrayRef):
            bt = self.static_type(n.name)
            return bt[1] if bt and bt[0] in ('ptr', 'arr') else None
        if isinstance(n, c_ast.UnaryOp) and n.op == '*':
            bt = self.static_type(n.expr)
            return bt[1] if bt and bt[0] in ('ptr', 'arr') else None
        if isinstance(n, c_ast.Constant) and n.type == 'string':
            return ('arr', CHAR, len(eval(n.value)) + 1)
        return None

    def b2i(self, c):
        return ite(c, ONE, ZERO)

    def arith_type(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a[0] in ('ptr', 'arr'):
            return ('ptr', a[1])
        if b[0] in ('ptr', 'arr'):
            return ('ptr', b[1])
        if a[0] == 'real' or b[0] == 'real':
            return DBL
        return LONG if (a[0] == 'int' and a[1] == 8) or (b[0] == 'int' and b[1] == 8) else INT

    def e_BinaryOp(self, n):
        if n.op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            return self.b2i(self.cond(n)), INT
        a, ta = self.ev(n.left)
        b, tb = self.ev(n.right)
        return self.binop(n.op, a, ta, b, tb, n)

    def binop(self, op, a, ta, b, tb, n):
        t = self.arith_type(ta, tb)
        if op == '+':
            return a + b, t
        if op == '-':
            if ta and tb and ta[0] in ('ptr', 'arr') and tb[0] in ('ptr', 'arr'):
                return a - b, LONG
            return a - b, t
        if op == '*':
            return a * b, t
        if op == '/':
            if t and t[0] == 'int':
                return idiv(a, b), t
            return div(a, b), t
        if op == '%':
            return imod(a, b), t
        if a.is_const() and b.is_const():
            x, y = int(a.const()), int(b.const())
            r = {'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y >= 0 else 0, '>>': x >> y if y >= 0 else 0}.get(op)
            if r is not None:
                return P(r), t
        return P(atom('fn', op, a, b)), t

    def cond(self, n):
        if isinstance(n, c_ast.BinaryOp):
            if n.op == '&&':
                a = self.cond(n.left)
                if a is False:
                    return False
                self.guards.append(a)
                b = self.cond(n.right)
                self.guards.pop()
                return c_and(a, b)
            if n.op == '||':
                a = self.cond(n.left)
                if a is True:
                    return True
                self.guards.append(c_not(a))
                b = self.cond(n.right)
                self.guards.pop()
                return c_or(a, b)
            if n.op in ('==', '!=', '<', '>', '<=', '>='):
                a, ta = self.ev(n.left)
                b, tb = self.ev(n.right)
                isint = not ((ta and ta[0] == 'real') or (tb and tb[0] == 'real'))
                d = a - b
                # compare through gated constants: push comparison into merges
                r = self.cmp(n.op, a, b, isint)
                return r
        if isinstance(n, c_ast.UnaryOp) and n.op == '!':
            return c_not(self.cond(n.expr))
        if isinstance(n, c_ast.ExprList) and len(n.exprs) == 1:
            return self.cond(n.exprs[0])
        v, t = self.ev(n)
        return c_not(self.cmp('==', v, ZERO, not (t and t[0] == 'real')))

    def cmp(self, op, a, b, isint):
        aa = a.single_atom()
        if aa is not None and aa.kind == 'ite' and b.is_const() and (aa.args[1].is_const() or aa.args[2].is_const()):
            c, x, y = aa.args
            cx = self.cmp(op, x, b, isint)
            cy = self.cmp(op, y, b, isint)
            return c_or(c_and(c, cx), c_and(c_not(c), cy))
        d = a - b
        if op == '==':
            return c_eq0(d, isint)
        if op == '!=':
            return c_not(c_eq0(d, isint))
        if op == '<':
            return c_lt0(d, isint)
        if op == '<=':
            return c_le0(d, isint)
        if op == '>':
            return c_lt0(-d, isint)
        return c_le0(-d, isint)

    # -------------------------------------------------------------- calls
    def e_FuncCall(self, n):
        self.stats['calls'] += 1
        fr = self.frames[-1]
        name = None
        fnval = None
        f = n.name
        while isinstance(f, c_ast.UnaryOp) and f.op == '*':
            f = f.expr
        if isinstance(f, c_ast.ID) and f.name not in fr.vars and f.name not in fr.unit.globals:
            name = f.name
        else:
            fnval, ft = self.ev(f)
            a = fnval.single_atom()
            if a is not None and a.kind == 'fnref':
                name = a.args[0]
        argn = n.args.exprs if n.args else []
        if name == 'va_arg' or name is None and fnval is None:
            return P(atom('unk', 'va')), None
        args = []
        types = []
        for x in argn:
            if isinstance(x, c_ast.Typename):
                args.append(ZERO)
                types.append(None)
                continue
            v, t = self.ev(x)
            args.append(v)
            types.append(t)
        if name in self.callbacks:
            r = self.callbacks[name](self, n, args, types)
            if r is not None:
                return r
        if name is None and '*' in self.callbacks:
            r = self.callbacks['*'](self, n, args, types, fnval)
            if r is not None:
                return r
        if name is not None:
            b = self.builtin(name, args, types, n)
            if b is not None:
                return b
            if name in NORETURN:
                self.emit_call(name, args, types, n, None)
                self.bottom = True
                return ZERO, INT
            if self.inline and name not in self.opaque and name not in WRITES and \
                    len(self.frames) < self.maxdepth and not any(q.name == name for q in self.frames):
                r = self.prog.find(name, None) if name not in fr.unit.funcs else (fr.unit, fr.unit.funcs[name])
                if r is not None:
                    return self.inline_call(r[0], r[1], args, types, n)
        return self.opaque_call(name, fnval, args, types, n)

    def builtin(self, name, a, t, n):
        if name == 'sqrt' or name == 'sqrtf':
            return sqrt(a[0]), DBL
        if name in ('fabs', 'fabsf'):
            return absv(a[0]), DBL
        if name in ('abs', 'labs'):
            return absv(a[0]), INT
        if name == 'pow':
            if a[1].is_const() and Fraction(a[1].const()).denominator == 1 and 0 <= a[1].const() <= 4:
                r = ONE
                for _ in range(int(a[1].const())):
                    r = r * a[0]
                return r, DBL
            if a[1].is_const() and a[1].const() == Fraction(1, 2):
                return sqrt(a[0]), DBL
            return P(atom('fn', 'pow', a[0], a[1])), DBL
        if name == 'fmax':
            return maxv(a[0], a[1]), DBL
        if name == 'fmin':
            return minv(a[0], a[1]), DBL
        if name in PURE or name in GETTERS and name not in self.callbacks:
            if any(isinstance(x, SVal) for x in a):
                return None
            pt = self.frames[-1].unit.protos.get(name)
            return P(atom('fn', name, *a)), (pt[1] if pt else DBL)
        return None

    def emit_call(self, name, args, types, n, fnval):
        ev = EvCall()
        ev.name, ev.args, ev.types, ev.fnval = name, tuple(tuple(sorted(a.items(), key=lambda z: str(z[0]))) if isinstance(a, SVal) else a for a in args), types, fnval
        ev.coord = coord_str(n)
        ev.seq = self.next()
        ev.res = None
        ev.fn = self.frames[-1].name
        ev.astargs = n.args.exprs if n.args else []
        ev.inval = None
        if name == 'fwrite' and len(args) > 2 and isinstance(args[0], Poly) and args[2] == ONE:
            a = args[0].single_atom()
            t = types[0] if types else None
            if a is not None and a.kind == 'base':
                a = atom('addr', (a.args[0][0], a.args[0][1] + (('i', ZERO),)))
            if a is not None and a.kind == 'addr' and t and t[0] == 'ptr' and t[1] and t[1][0] in ('int', 'real', 'ptr'):
                ev.inval = self.load(a.args[0], t[1])
        self.cont.append(ev)
        return ev

    def opaque_call(self, name, fnval, args, types, n):
        ev = self.emit_call(name, args, types, n, fnval)
        fr = self.frames[-1]
        pt = fr.unit.protos.get(name) if name else None
        rt = pt[1] if pt else INT
        ev.res = P(atom('call', name or 'ptr', ev.seq))
        if self.allocs is not None and name in ('malloc', 'calloc', 'calloc_1d_array', 'calloc_2d_array', 'calloc_3d_array'):
            root = '@%d' % ev.seq
            lv = {'calloc_2d_array': 2, 'calloc_3d_array': 3}.get(name, 1)
            self.allocs[root] = (lv, tuple(args[:lv]) if name != 'malloc' else (), ev.coord)
            ev.res = P(atom('base', (root, ())))
            self.add_fact(c_not(c_eq0(ev.res, True)))
            return ev.res, rt
        w = None
        if name in self.effects:
            w = self.effects[name]
        elif name in WRITES:
            w = WRITES[name]
        if w is None:
            w = range(len(args))
        for i in w:
            if i >= len(args) or isinstance(args[i], SVal):
                continue
            if name == 'fread' and i == 0 and len(args) > 2 and args[2] == ONE and self.input_word(args[0], types[0], ev):
                continue
            self.havoc_ptr(args[i], ev.seq, types[i] if i < len(types) else None, name)
        if rt and rt[0] == 'struct':
            sv = SVal()
            for suf, lt in self.leaves(rt):
                if lt[0] != 'arr':
                    sv[suf] = P(atom('fn', 'callfield', ev.res, suf))
            return sv, rt
        return ev.res, rt

    def input_word(self, v, t, ev):
        """a single word read from a file into one array element: an ordinary store of an input value"""
        p = None
        for a in v.atoms():
            if a.kind in ('addr', 'base') and v.t.get(((a.id, 1),)) == 1:
                off = v - P(a)
                if a.kind == 'addr':
                    p = a.args[0] if off == ZERO else None
                else:
                    p = (a.args[0][0], a.args[0][1] + (('i', off),))
                break
        if p is None or const_path(p):
            return False
        if t and t[0] == 'ptr' and t[1] and t[1][0] == 'arr':
            return False
        if not (t and t[0] == 'ptr' and t[1] and t[1][0] in ('int', 'real')):
            return False
        idx = tuple(x for k, x in p[1] if k == 'i')
        if self.written is not None:
            self.written.add(p)
        sk = skel(p)
        for cp in [cp for cp, _ in self.cells.under(p[0]) if len(cp[1]) == len(p[1]) and skel(cp) == sk]:
            self.add_entry(cp, self.cells.pop(cp), ())
        self.add_entry(p, P(atom('fn', 'input', ev.seq) if not idx else atom('fn', 'input', ev.seq, *idx)), tuple(self.guards))
        return True

    def havoc_ptr(self, v, seq, t, name):
        for m in v.t:
            for aid, e in m:
                a = sym.atom_by_id(aid)
                if a.kind == 'addr':
                    p = a.args[0]
                    gone = [k for k, _ in self.cells.under(p[0]) if k[1][:len(p[1])] == p[1]]
                    for k in gone:
                        if self.written is not None:
                            self.written.add(k)
                        del self.cells[k]
                    self.havocs.append((self.next(), skel(p), seq, tuple(self.guards)))
                    if not gone or p in gone:
                        if t and t[0] == 'ptr' and t[1] and t[1][0] in ('int', 'real', 'ptr'):
                            self.cells[p] = P(atom('ld', p, ('c', seq)))
                            if self.written is not None:
                                self.written.add(p)
                elif a.kind == 'base':
                    p = a.args[0]
                    for k in [k for k, _ in self.cells.under(p[0]) if k[1][:len(p[1])] == p[1] and len(k[1]) > len(p[1])]:
                        if self.written is not None:
                            self.written.add(k)
                        del self.cells[k]
                    self.havocs.append((self.next(), skel(p) + ('*',), seq, tuple(self.guards)))

    def inline_call(self, unit, fd, args, types, n):
        self.stats['inlined'] += 1
        fr = Frame()
        fr.unit, fr.name = unit, fd.decl.name
        self.tagn += 1
        fr.tag = '@%d' % self.tagn
        fr.vars, fr.types = {}, {}
        fr.retpath = '$ret' + fr.tag
        ft = unit.type_of(fd.decl.type)
        fr.rettype = ft[1]
        saved = self.kills
        params = []
        if fd.decl.type.args:
            params = [p for p in fd.decl.type.args.params if not isinstance(p, c_ast.EllipsisParam)]
        k = 0
        for p in params:
            pn = getattr(p, 'name', None)
            if pn is None:
                continue
            t = unit.type_of(p.type)
            if t[0] == 'arr':
                t = ('ptr', t[1])
            fr.vars[pn] = '%' + pn + fr.tag
            fr.types[pn] = t
            if k < len(args):
                v = args[k]
                path = ('%' + pn + fr.tag, ())
                if isinstance(v, SVal):
                    for suf, x in v.items():
                        self.cells[(path[0], suf)] = x
                else:
                    self.cells[path] = self.conv(v, types[k], t)
            k += 1
        self.frames.append(fr)
        self.kills = {}
        self.exec(fd.body)
        self.frames.pop()
        self.kills = saved
        rp = fr.retpath
        if fr.rettype and fr.rettype[0] == 'struct':
            sv = SVal()
            for suf, lt in self.leaves(fr.rettype, unit):
                if (rp, suf) in self.cells:
                    sv[suf] = self.cells[(rp, suf)]
                elif lt[0] != 'arr':
                    sv[suf] = P(atom('unk', 'ret', fr.name, suf))
            ret = sv
        else:
            ret = self.cells.get((rp, ()), P(atom('unk', 'ret', fr.name)))
        # drop dead locals of the callee
        tag = fr.tag
        for r in [r for r in self.cells.m if isinstance(r, str) and r.endswith(tag) and r[0] in '%$']:
            self.cells.drop(r)
        return ret, fr.rettype

    # ---------------------------------------------------------------- entry
    def run(self, fname, prefer=None, args=None):
        unit, fd = self.prog.need(fname, prefer)
        fr = Frame()
        fr.unit, fr.name, fr.tag = unit, fname, ''
        fr.vars, fr.types = {}, {}
        fr.retpath = '$ret'
        ft = unit.type_of(fd.decl.type)
        fr.rettype = ft[1]
        self.frames.append(fr)
        params = []
        if fd.decl.type.args:
            params = [p for p in fd.decl.type.args.params if not isinstance(p, c_ast.EllipsisParam)]
        k = 0
        self.params = []
        for p in params:
            pn = getattr(p, 'name', None)
            if pn is None:
                continue
            t = unit.type_of(p.type)
            if t[0] == 'arr':
                t = ('ptr', t[1])
            fr.vars[pn] = '%' + pn
            fr.types[pn] = t
            path = ('%' + pn, ())
            self.params.append(pn)
            if args is not None and k < len(args) and args[k] is not None:
                v = args[k]
                if isinstance(v, SVal):
                    for suf, x in v.items():
                        self.cells[('%' + pn, suf)] = x
                else:
                    self.cells[path] = P(v)
            elif t[0] == 'ptr':
                self.cells[path] = P(atom('base', ('#%d' % k, ())))
            elif t[0] == 'struct':
                for suf, lt in self.leaves(t):
                    self.cells[('%' + pn, suf)] = self.init_val(('#%d' % k, suf), lt)
            else:
                self.cells[path] = P(atom('sym', '#%d' % k))
            k += 1
        self.fd = fd
        self.unit = unit
        self.exec(fd.body)
        self.ret = self.cells.get(('$ret', ()))
        return self


def inner_lout(x, lid, seen=None):
    """does the value hide a result of a loop nested in loop `lid`?"""
    if seen is None:
        seen = set()
    if isinstance(x, sym.Poly):
        return any(inner_lout(a, lid, seen) for a in x.atoms())
    if isinstance(x, sym.Atom):
        if x.id in seen:
            return False
        seen.add(x.id)
        if x.kind == 'lout':
            return x.args[0] > lid
        return any(inner_lout(y, lid, seen) for y in x.args)
    if isinstance(x, (tuple, list, set, frozenset)):
        return any(inner_lout(y, lid, seen) for y in x)
    return False


def red(op, lv, lo, hi, g):
    """reduction atom, bound variable canonicalised; nested reductions of the
    same operator are flattened"""
    # flatten
    ga = g.single_atom() if op != 'sum' else None
    lvl = 1 + max([sym.atom_by_id(i).args[0] for i in g.deps if sym.atom_by_id(i).kind == 'bv'] or [0])
    bv = atom('bv', lvl)
    m = {lv: P(bv)}
    return P(atom('red', op, P(bv), subst(lo, {}), subst(hi, {}), subst(g, m)))


def split_linear(p, a):
    """g with p == a + g (through gates), or None"""
    co = p.t.get(((a.id, 1),))
    if co == 1:
        g = p - P(a)
        if a.id not in g.deps:
            return g
        return None
    s = p.single_atom()
    if s is not None and s.kind == 'ite':
        x = split_linear(s.args[1], a)
        y = split_linear(s.args[2], a)
        if x is not None and y is not None and a.id not in sym._deps_of(s.args[0]):
            return ite(s.args[0], x, y)
    # a gated atom plus rest
    if len(p.t) < 2:
        return None
    for m, c in p.t.items():
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = sym.atom_by_id(m[0][0])
            if at.kind == 'ite' and a.id in at.deps:
                rest = p - P(at)
                if a.id in rest.deps:
                    return None
                g = split_linear(P(at), a)
                return None if g is None else g + rest
    return None


NEGINF = P(atom('sym', '-inf'))
POSINF = P(atom('sym', '+inf'))


def split_minmax(p, a, op):
    s = p.single_atom()
    if s is None:
        return None
    if s.kind == op:
        xs = set(s.args[0])
        if P(a) in xs:
            xs.discard(P(a))
            f = maxv if op == 'max' else minv
            g = f(*xs)
            return g if a.id not in g.deps else None
        # nested: one member itself reduces a
        return None
    if s.kind == 'ite':
        c, x, y = s.args
        e = NEGINF if op == 'max' else POSINF
        gx = e if x == P(a) else split_minmax(x, a, op)
        gy = e if y == P(a) else split_minmax(y, a, op)
        if gx is None or gy is None or a.id in sym._deps_of(c):
            return None
        return ite(c, gx, gy)
    return None


# -------------------------------------------------------- linear reasoning
def prove_ge0(p, known):
    """p >= 0 from a conic combination of known non-negative polys: tries
    p = const>=0, then cancels non-constant terms with up to 3 known facts
    (positive rational multiples)."""
    if p.is_const():
        return p.const() >= 0
    # nghost etc. are known positive through facts supplied by the caller
    if callable(known):
        known = known()
    return _pg(p, known, 3)


def _pg(p, known, depth):
    if p.is_const():
        return p.const() >= 0
    if depth == 0:
        return False
    # pick a term to cancel: first non-constant monomial
    items = [m for m in p.t if m != ()]
    m = min(items)
    c = p.t[m]
    for f in known:
        cf = f.t.get(m)
        if cf is None or (cf > 0) != (c > 0):
            continue
        k = Fraction(c) / cf
        if _pg(p - f * P(sym._nrm(k)), known, depth - 1):
            return True
    return False


# ------------------------------------------------------------- traversal
def flatten(events, loops=(), guards=()):
    """yield (loops, guards, ev) for store/call/ret events in order"""
    for e in events:
        if e.k == 'loop':
            yield from flatten(e.body, loops + (e,), guards)
        elif e.k == 'if':
            yield from flatten(e.then, loops, guards + (e.cond,))
            yield from flatten(e.els, loops, guards + (c_not(e.cond),))
        else:
            yield loops, guards, e


def dump(events, ind=0, out=None):
    out = [] if out is None else out
    sp = '  ' * ind
    for e in events:
        if e.k == 'loop':
            out.append('%sfor %s in [%s, %s]%s%s  (%s)' % (sp, show(e.var) if e.var else '?', e.lo, e.hi, ' desc' if e.desc else '', '' if e.brk is False else ' brk', e.coord))
            dump(e.body, ind + 1, out)
        elif e.k == 'if':
            out.append('%sif %s' % (sp, show_cond(e.cond)))
            dump(e.then, ind + 1, out)
            if e.els:
                out.append(sp + 'else')
                dump(e.els, ind + 1, out)
        elif e.k == 'store':
            out.append('%s%s := %s   (%s)' % (sp, show_path(e.path), show(e.val), e.coord))
        elif e.k == 'call':
            out.append('%scall %s(%s)  (%s)' % (sp, e.name or show(e.fnval), ', '.join(show(a) if isinstance(a, Poly) else '{..}' for a in e.args), e.coord))
        elif e.k == 'ret':
            out.append('%sreturn %s' % (sp, show(e.val) if isinstance(e.val, Poly) else e.val))
    return out
