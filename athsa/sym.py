"""Hash-consed polynomial value domain used by the dataflow engine.

A value is a polynomial with rational coefficients over opaque *atoms*
(loads of memory locations, sqrt/inverse/max/min, gated merges, loop
coordinates ...).  Two program values are the same value number iff their
polynomials are identical.  No solver is involved; all decisions are
normal-form comparisons.
"""
from fractions import Fraction
import itertools

_atoms = {}
_alist = []


class Atom:
    __slots__ = ('id', 'kind', 'args', 'deps', '_s', 'poly', 'cm')

    def __repr__(self):
        return show_atom(self)


def _deps_of(x):
    if isinstance(x, Poly):
        return x.deps
    if isinstance(x, Atom):
        return x.deps
    if isinstance(x, (tuple, frozenset)):
        d = frozenset()
        for y in x:
            dd = _deps_of(y)
            if dd:
                d = d | dd
        return d
    return frozenset()


_ncond = [0]


def _cm_of(x):
    """bit mask of the condition atoms a value depends on"""
    if isinstance(x, (Poly, Atom)):
        return x.cm
    r = 0
    if isinstance(x, (tuple, frozenset)):
        for y in x:
            r |= _cm_of(y)
    return r


def atom(kind, *args):
    key = (kind, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(_alist)
        a.kind = kind
        a.args = args
        if kind in ('lv', 'in', 'bv'):
            d = frozenset((a.id,))
        else:
            d = frozenset()
        a.deps = d | _deps_of(args)
        a.cm = _cm_of(args)
        if kind in ('le0', 'lt0', 'eq0'):
            a.cm |= 1 << _ncond[0]
            _ncond[0] += 1
        a._s = None
        a.poly = None
        _atoms[key] = a
        _alist.append(a)
    return a


def atom_by_id(i):
    return _alist[i]


class Poly:
    __slots__ = ('t', '_h', '_deps', '_key', '_cm', '_at')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._deps = None
        self._key = None
        self._cm = None
        self._at = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.t.items()))
        return self._key

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    @property
    def cm(self):
        if self._cm is None:
            r = 0
            for m in self.t:
                for (aid, e) in m:
                    r |= _alist[aid].cm
            self._cm = r
        return self._cm

    @property
    def deps(self):
        if self._deps is None:
            d = frozenset()
            for m in self.t:
                for (aid, e) in m:
                    dd = _alist[aid].deps
                    if dd:
                        d = d | dd
            self._deps = d
        return self._deps

    # -- arithmetic
    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = n
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(b) == 1 and () in b:
            k = b[()]
            if k == 1:
                return self
            return Poly({m: _nrm(c * k) for m, c in a.items()})
        if len(a) == 1 and () in a:
            k = a[()]
            if k == 1:
                return o
            return Poly({m: _nrm(c * k) for m, c in b.items()})
        out = {}
        extra = None
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, special = _mmul(m1, m2)
                c = c1 * c2
                if special is not None:
                    p = special * c
                    extra = p if extra is None else extra + p
                    continue
                n = out.get(m, 0) + c
                if n == 0:
                    out.pop(m, None)
                else:
                    out[m] = _nrm(n)
        r = Poly(out)
        if extra is not None:
            r = r + extra
        return r
    __rmul__ = __mul__

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), 0)

    def constpart(self):
        return self.t.get((), 0)

    def single_atom(self):
        """the atom if the poly is exactly 1*atom^1"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return _alist[m[0][0]]
        return None

    def atoms(self):
        if self._at is not None:
            return self._at
        s = []
        seen = set()
        for m in self.t:
            for (aid, e) in m:
                if aid not in seen:
                    seen.add(aid)
                    s.append(_alist[aid])
        self._at = s
        return s

    def __repr__(self):
        return show(self)


def _nrm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _mmul(m1, m2):
    """multiply monomials.  Returns (mono, None) or (None, poly)"""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    fix = False
    for aid, e in m2:
        n = d.get(aid, 0) + e
        if n == 0:
            d.pop(aid, None)
        else:
            d[aid] = n
            if n >= 2 and _alist[aid].kind in ('sqrt', 'abs'):
                fix = True
    # inverse atoms cancel their denominators when it is a single atom
    if fix:
        res = ONE
        rest = {}
        for aid, n in d.items():
            a = _alist[aid]
            if a.kind == 'sqrt' and n >= 2:
                q, r = divmod(n, 2)
                for _ in range(q):
                    res = res * a.args[0]
                if r:
                    rest[aid] = r
            elif a.kind == 'abs' and n >= 2:
                q, r = divmod(n, 2)
                for _ in range(q):
                    res = res * a.args[0] * a.args[0]
                if r:
                    rest[aid] = r
            else:
                rest[aid] = n
        base = Poly({tuple(sorted(rest.items())): 1})
        return None, base * res
    return tuple(sorted(d.items())), None


ZERO = Poly({})
ONE = Poly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        if x.poly is None:
            x.poly = Poly({((x.id, 1),): 1})
        return x.poly
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        if x == 0:
            return ZERO
        return Poly({(): _nrm(x)})
    if isinstance(x, float):
        return P(Fraction(repr(x)))
    raise TypeError(x)


def S(name):
    return P(atom('sym', name))


def inv(p):
    """1/p"""
    p = P(p)
    if p.is_const():
        c = p.const()
        if c == 0:
            return P(atom('fn', 'inv0'))
        return P(_nrm(Fraction(1) / c))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        nm = tuple((aid, -e) for aid, e in m)
        # atoms that are 'inv' themselves turn back
        res = Poly({(): _nrm(Fraction(1) / c)})
        keep = []
        for aid, e in nm:
            a = _alist[aid]
            if a.kind == 'inv':
                q = a.args[0]
                # inv(q)^-k = q^k   (here e = -orig ; orig>0 -> e<0)
                if e < 0:
                    for _ in range(-e):
                        res = res * q
                    continue
            if a.kind == 'sqrt' and e <= -2:
                q, r = divmod(-e, 2)
                iq = inv(a.args[0])
                for _ in range(q):
                    res = res * iq
                if r:
                    keep.append((aid, -1))
                continue
            keep.append((aid, e))
        return res * Poly({tuple(sorted(keep)): 1})
    # normalise content: divide by leading coeff
    items = p.key()
    lead = items[0][1]
    # factor common monomial
    common = None
    for m, c in items:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {k: min(v, d[k]) for k, v in common.items()
                      if k in d and (v > 0) == (d[k] > 0)}
            if not common:
                break
    q = p
    pre = P(_nrm(Fraction(1) / lead))
    if common:
        cm = tuple(sorted((k, -v) for k, v in common.items() if v))
        if cm:
            q = q * Poly({cm: 1})
            pre = pre * Poly({cm: 1})
    q = q * P(_nrm(Fraction(1) / lead))
    if q.is_const() or len(q.t) == 1:
        return pre * inv(q)
    return pre * P(atom('inv', q))


def div(a, b):
    a = P(a)
    b = P(b)
    if not a.t:
        return ZERO
    r = a * inv(b)
    # cancel  inv(q)*q  when a is a multiple of b
    if not b.is_const() and len(b.t) > 1 and len(a.t) > 1:
        q = exact_quot(a, b)
        if q is not None:
            return q
    return r


def exact_quot(a, b):
    """a/b if a is a constant-or-monomial multiple of b"""
    if len(a.t) != len(b.t):
        return None
    ka, kb = a.key(), b.key()
    m0, c0 = ka[0]
    for mb, cb in kb:
        mm, sp = _mmul(m0, tuple((x, -e) for x, e in mb))
        if sp is not None:
            continue
        k = Poly({mm: _nrm(Fraction(c0) / cb)})
        if k * b == a:
            return k
    return None


def sqrt(p):
    p = P(p)
    if p.is_const():
        c = p.const()
        if c >= 0:
            from math import isqrt
            f = Fraction(c)
            n, d = isqrt(f.numerator), isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return P(_nrm(Fraction(n, d)))
    return P(atom('sqrt', p))


def absv(p):
    p = P(p)
    if p.is_const():
        return P(abs(p.const()))
    k = p.key()
    if k[0][1] < 0:
        p = -p
    a = p.single_atom()
    if a is not None and a.kind in ('sqrt', 'abs'):
        return p
    return P(atom('abs', p))


def _flat(op, xs):
    out = set()
    for x in xs:
        a = x.single_atom()
        if a is not None and a.kind == op:
            out |= set(a.args[0])
        else:
            out.add(x)
    cs = [x for x in out if x.is_const()]
    if len(cs) > 1:
        v = (max if op == 'max' else min)(c.const() for c in cs)
        out = {x for x in out if not x.is_const()} | {P(v)}
    return frozenset(out)


def maxv(*xs):
    f = _flat('max', [P(x) for x in xs])
    if len(f) == 1:
        return next(iter(f))
    return P(atom('max', f))


def minv(*xs):
    f = _flat('min', [P(x) for x in xs])
    if len(f) == 1:
        return next(iter(f))
    return P(atom('min', f))


# ---------------------------------------------------------------- conditions
# A condition is True | False | ('lit', atom, bool) | ('and', frozenset) |
# ('or', frozenset)
# literal atoms: ('le0', poly, isint)  poly<=0 ; ('lt0', poly) ; ('eq0', poly)

def _cneg(p):
    return p.key()[0][1] < 0


def _content(p):
    """make leading |coeff| 1 (positive scaling only)"""
    from math import gcd
    k = p.key()
    num = 0
    den = 1
    for m, c in k:
        f = Fraction(c)
        num = gcd(num, abs(f.numerator))
        den = den * f.denominator // gcd(den, f.denominator)
    s = Fraction(den, num)
    return p if s == 1 else p * P(_nrm(s))


def c_le0(p, isint=False):
    """p <= 0"""
    if p.is_const():
        return p.const() <= 0
    if isint:
        # keep integral; canonical polarity: leading non-constant coefficient>0
        k = [(m, c) for m, c in p.key() if m != ()]
        if k[0][1] < 0:
            # p<=0  <=> not(p>=1) <=> not(-p+1<=0)
            q = (-p) + 1
            return ('lit', atom('le0', q, True), False)
        return ('lit', atom('le0', p, True), True)
    p = _content(p)
    k = [(m, c) for m, c in p.key() if m != ()]
    if k[0][1] < 0:
        # p<=0 <=> not(-p<0)
        return ('lit', atom('lt0', -p), False)
    return ('lit', atom('le0', p, False), True)


def c_lt0(p, isint=False):
    if p.is_const():
        return p.const() < 0
    if isint:
        return c_le0(p + 1, True)
    p = _content(p)
    k = [(m, c) for m, c in p.key() if m != ()]
    if k[0][1] < 0:
        return ('lit', atom('le0', -p, False), False)
    return ('lit', atom('lt0', p), True)


def c_eq0(p, isint=False):
    if p.is_const():
        return p.const() == 0
    p = _content(p)
    if _cneg(p):
        p = -p
    # ite with constant arms: resolve
    a = p.single_atom()
    if a is not None and a.kind == 'ite':
        c, x, y = a.args
        if x.is_const() and y.is_const():
            r = False
            if x.const() == 0:
                r = c_or(r, c)
            if y.const() == 0:
                r = c_or(r, c_not(c))
            return r
    if a is not None and a.kind in ('base', 'addr', 'str', 'fnref'):
        if a.kind != 'base' or isinstance(a.args[0][0], str) and a.args[0][0].startswith('%'):
            return False
    return ('lit', atom('eq0', p), True)


def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'lit':
        return ('lit', c[1], not c[2])
    if c[0] == 'and':
        return c_or(*[c_not(x) for x in c[1]])
    return c_and(*[c_not(x) for x in c[1]])


def c_and(*cs):
    s = set()
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c[0] == 'and':
            s |= c[1]
        else:
            s.add(c)
    for x in s:
        if c_not(x) in s:
            return False
    # absorb or-terms
    drop = set()
    add = []
    for x in s:
        if x[0] == 'or':
            if any(y in s for y in x[1]):
                drop.add(x)
                continue
            rest = frozenset(y for y in x[1] if c_not(y) not in s)
            if len(rest) != len(x[1]):
                drop.add(x)
                add.append(c_or(*rest))
    if drop:
        s = s - drop
        return c_and(*s, *add)
    if not s:
        return True
    if len(s) == 1:
        return next(iter(s))
    return ('and', frozenset(s))


def c_or(*cs):
    s = set()
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c[0] == 'or':
            s |= c[1]
        else:
            s.add(c)
    for x in s:
        if c_not(x) in s:
            return True
    drop = set()
    add = []
    for x in s:
        if x[0] == 'and':
            if any(y in s for y in x[1]):
                drop.add(x)
                continue
            rest = frozenset(y for y in x[1] if c_not(y) not in s)
            if len(rest) != len(x[1]):
                drop.add(x)
                add.append(c_and(*rest))
    if drop:
        s = s - drop
        return c_or(*s, *add)
    if not s:
        return False
    if len(s) == 1:
        return next(iter(s))
    return ('or', frozenset(s))


def c_lits(c, out=None):
    if out is None:
        out = set()
    if c is True or c is False:
        return out
    if c[0] == 'lit':
        out.add(c[1])
    else:
        for x in c[1]:
            c_lits(x, out)
    return out


def c_eval(c, asg):
    """simplify cond under partial assignment {atom: bool}"""
    if c is True or c is False:
        return c
    if c[0] == 'lit':
        if c[1] in asg:
            return asg[c[1]] == c[2]
        return c
    xs = [c_eval(x, asg) for x in c[1]]
    return c_and(*xs) if c[0] == 'and' else c_or(*xs)


def c_equiv(a, b):
    if a == b:
        return True
    la = sorted(c_lits(a) | c_lits(b), key=lambda x: x.id)
    if len(la) > 12:
        return False
    for bits in itertools.product((True, False), repeat=len(la)):
        asg = dict(zip(la, bits))
        if not lits_consistent(asg):
            continue
        if c_eval(a, asg) != c_eval(b, asg):
            return False
    return True


def c_implies(a, b):
    return c_equiv(c_and(a, c_not(b)), False)


def lits_consistent(asg):
    """cheap theory filter: pairwise consistency of order literals over the
    same linear form"""
    byform = {}
    for a, v in asg.items():
        if a.kind in ('le0', 'lt0', 'eq0'):
            p = a.args[0]
            c = p.constpart()
            q = p - P(c)
            sgn = 1
            if not q.t:
                continue
            if _cneg(q):
                q = -q
                sgn = -1
            # q*sgn + c (op) 0
            q2 = _content(q)
            sc = Fraction(list(q2.key())[0][1]) / Fraction(list(q.key())[0][1])
            cc = Fraction(c) * sc * sgn      # sgn*(q2 + cc) op 0
            isint = a.kind == 'le0' and a.args[1]
            byform.setdefault(q2, []).append((a.kind, sgn, -cc, v, isint))
    for q, lst in byform.items():
        if len(lst) < 2:
            continue
        lo, los = None, False   # lower bound, strict
        hi, his = None, False
        ne = set()
        anyint = any(x[4] for x in lst)

        def setlo(x, s):
            nonlocal lo, los
            if lo is None or x > lo or (x == lo and s):
                lo, los = x, s

        def sethi(x, s):
            nonlocal hi, his
            if hi is None or x < hi or (x == hi and s):
                hi, his = x, s
        for kind, sgn, b, v, isint in lst:
            # q vs b
            if kind == 'eq0':
                if v:
                    setlo(b, False)
                    sethi(b, False)
                else:
                    ne.add(b)
            else:
                strict = kind == 'lt0'
                up = (sgn > 0) == v
                st = strict if v else not strict
                if isint and not v:
                    # not(q<=b) -> q>=b+1
                    if sgn > 0:
                        setlo(b + 1, False)
                    else:
                        sethi(b - 1, False)
                elif up:
                    sethi(b, st)
                else:
                    setlo(b, st)
        if lo is not None and hi is not None:
            if lo > hi or (lo == hi and (los or his or lo in ne)):
                return False
            if anyint and hi - lo <= 4:
                from math import ceil, floor
                l = floor(lo) + 1 if (los and lo == floor(lo)) else ceil(lo)
                h = ceil(hi) - 1 if (his and hi == ceil(hi)) else floor(hi)
                if all(x in ne for x in range(l, h + 1)):
                    return False
    return True


def ite(c, a, b):
    a = P(a)
    b = P(b)
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    # push facts into arms
    a = assume_in(a, c, True)
    b = assume_in(b, c, False)
    if a == b:
        return a
    # canonical polarity
    if c[0] == 'lit' and not c[2]:
        c = c_not(c)
        a, b = b, a
    if c[0] == 'lit':
        at = c[1]
        if at.kind in ('le0', 'lt0'):
            d = a - b
            p = at.args[0]
            # p<=0 ? a : b   with p == k*(a-b)  -> min ; p == -k(a-b) -> max
            if d.t and len(p.t) <= len(d.t):
                isint = at.kind == 'le0' and at.args[1]
                for pp in ([p] if not isint else [p, p - 1]):
                    k = _ratio(pp, d)
                    if k is not None:
                        return minv(a, b) if k > 0 else maxv(a, b)
            # abs
            if a == -b:
                k = _ratio(p, a)
                if k is not None:
                    # p<=0 ? a : -a , p = k a : k>0 -> a<=0?a:-a = -|a|
                    return -absv(a) if k > 0 else absv(a)
    return P(atom('ite', c, a, b))


def _ratio(p, d):
    if len(p.t) != len(d.t):
        return None
    k = None
    for m, c in p.t.items():
        if m not in d.t:
            return None
        r = Fraction(c) / d.t[m]
        if k is None:
            k = r
        elif k != r:
            return None
    return k


def assume_in(p, c, v):
    """simplify ite atoms of p whose condition is decided by literal/conj c"""
    if not any(_has_ite(a) for a in p.atoms()):
        return p
    asg = {}
    cc = c if v else c_not(c)
    if cc[0] == 'lit':
        asg[cc[1]] = cc[2]
    elif cc[0] == 'and':
        for x in cc[1]:
            if x[0] == 'lit':
                asg[x[1]] = x[2]
    if not asg:
        return p
    return resolve(p, asg)


_hasite = {}


def _has_ite(a):
    r = _hasite.get(a.id)
    if r is None:
        r = a.kind == 'ite'
        if not r:
            r = _any_ite(a.args)
        _hasite[a.id] = r
    return r


def _any_ite(x):
    if isinstance(x, Poly):
        return any(_has_ite(a) for a in x.atoms())
    if isinstance(x, Atom):
        return _has_ite(x)
    if isinstance(x, (tuple, frozenset)):
        return any(_any_ite(y) for y in x)
    return False


def ite_atoms(p, out=None):
    """all condition literals occurring in gated merges inside p"""
    if out is None:
        out = set()
    if isinstance(p, Poly):
        for a in p.atoms():
            ite_atoms(a, out)
    elif isinstance(p, Atom):
        if not _has_ite(p):
            return out
        if p.kind == 'ite':
            c_lits(p.args[0], out)
            ite_atoms(p.args[1], out)
            ite_atoms(p.args[2], out)
        else:
            for x in p.args:
                ite_atoms(x, out)
    elif isinstance(p, (tuple, frozenset)):
        for y in p:
            ite_atoms(y, out)
    return out


# ------------------------------------------------------------ rewriting
class Rewriter:
    """bottom-up rebuild of values through a hook  f(atom)->Poly|None"""

    def __init__(self, hook):
        self.hook = hook
        self.memo = {}

    def poly(self, p):
        if all(self.at(a) is a for a in p.atoms()):
            return p
        r = ZERO
        for m, c in p.t.items():
            term = P(c)
            for aid, e in m:
                v = self.at(_alist[aid])
                if isinstance(v, Atom):
                    v = P(v)
                if e < 0:
                    v = inv(v)
                    e = -e
                for _ in range(e):
                    term = term * v
            r = r + term
        return r

    def at(self, a):
        if a.id in self.memo:
            return self.memo[a.id]
        r = self.hook(a, self)
        if r is None:
            r = self.rebuild(a)
        self.memo[a.id] = r
        return r

    def gen(self, x):
        if isinstance(x, Poly):
            return self.poly(x)
        if isinstance(x, Atom):
            v = self.at(x)
            if isinstance(v, Poly):
                s = v.single_atom()
                return s if s is not None else v
            return v
        if isinstance(x, tuple):
            if x and x[0] == 'lit' and len(x) == 3:
                return self.cond(x)
            if x and x[0] in ('and', 'or') and len(x) == 2 and isinstance(x[1], frozenset):
                return self.cond(x)
            y = tuple(self.gen(z) for z in x)
            return x if all(u is v for u, v in zip(x, y)) else y
        if isinstance(x, frozenset):
            return frozenset(self.gen(z) for z in x)
        return x

    def cond(self, c):
        if c is True or c is False:
            return c
        if c[0] == 'lit':
            a = c[1]
            na = self.condatom(a)
            return na if c[2] else c_not(na)
        xs = [self.cond(x) for x in c[1]]
        return c_and(*xs) if c[0] == 'and' else c_or(*xs)

    def condatom(self, a):
        h = self.hook(a, self)
        if h is True or h is False:
            return h
        if h is a:
            return ('lit', a, True)
        if a.kind == 'le0':
            return c_le0(self.poly(a.args[0]), a.args[1])
        if a.kind == 'lt0':
            return c_lt0(self.poly(a.args[0]))
        if a.kind == 'eq0':
            return c_eq0(self.poly(a.args[0]))
        args = tuple(self.gen(x) for x in a.args)
        return ('lit', atom(a.kind, *args), True)

    def path(self, p):
        return self.gen(p)

    def rebuild(self, a):
        k = a.kind
        if k in ('sym', 'lv', 'in', 'bv', 'unk', 'str'):
            return a
        if k == 'ite':
            c = self.cond(a.args[0])
            x, y = self.poly(a.args[1]), self.poly(a.args[2])
            if c == a.args[0] and x is a.args[1] and y is a.args[2]:
                return a
            return ite(c, x, y)
        if k == 'inv':
            q = self.poly(a.args[0])
            return a if q is a.args[0] else inv(q)
        if k == 'sqrt':
            q = self.poly(a.args[0])
            return a if q is a.args[0] else sqrt(q)
        if k == 'abs':
            q = self.poly(a.args[0])
            return a if q is a.args[0] else absv(q)
        if k == 'max':
            return maxv(*[self.poly(x) for x in a.args[0]])
        if k == 'min':
            return minv(*[self.poly(x) for x in a.args[0]])
        if k == 'idiv':
            return idiv(self.poly(a.args[0]), self.poly(a.args[1]))
        if k == 'imod':
            return imod(self.poly(a.args[0]), self.poly(a.args[1]))
        args = tuple(self.gen(x) for x in a.args)
        if all(u is v for u, v in zip(args, a.args)):
            return a
        return P(atom(k, *args))


def subst(x, mapping):
    """mapping: {Atom: Poly}"""
    if not mapping:
        return x
    ids = frozenset(a.id for a in mapping)
    special = all(a.kind in ('lv', 'in', 'bv') for a in mapping)

    def hook(a, rw):
        if a in mapping:
            return P(mapping[a])
        if special and not (a.deps & ids):
            return a
        return None
    rw = Rewriter(hook)
    if isinstance(x, Poly):
        return rw.poly(x)
    if x is True or x is False:
        return x
    if isinstance(x, tuple) and x and x[0] in ('lit', 'and', 'or'):
        return rw.cond(x)
    return rw.gen(x)


def resolve(p, asg):
    """rebuild p under an assignment of condition atoms (literal splits)"""
    am = 0
    for a in asg:
        am |= a.cm & ~_cm_of(a.args)
    if not p.cm & am:
        return p

    def hook(a, rw):
        if a in asg:
            return asg[a]
        if not a.cm & am:
            return a
        if a.kind == 'ite':
            c = c_eval(a.args[0], asg)
            if c is True:
                return rw.poly(a.args[1])
            if c is False:
                return rw.poly(a.args[2])
        return None
    return Rewriter(hook).poly(p)


def idiv(a, b):
    a = P(a)
    b = P(b)
    if a.is_const() and b.is_const() and b.const() != 0:
        q = abs(int(a.const())) // abs(int(b.const()))
        return P(q if (a.const() < 0) == (b.const() < 0) else -q)
    if b.is_const() and b.const() != 0:
        k = b.const()
        if all(c % k == 0 for c in a.t.values()):
            return a * P(Fraction(1, k))
        # symbolic part exactly divisible is NOT split off (sign semantics)
    return P(atom('idiv', a, b))


def imod(a, b):
    a = P(a)
    b = P(b)
    if a.is_const() and b.is_const() and b.const() != 0:
        import math
        return P(int(math.fmod(int(a.const()), int(b.const()))))
    return P(atom('imod', a, b))


def equal_values(a, b, assume=None, maxlits=10, norm=None):
    """True iff the two gated values agree in every consistent valuation of
    their merge conditions; returns None when undecided (too many gates)."""
    if a == b:
        return True
    la = ite_atoms(a) | ite_atoms(b)
    if assume:
        la -= set(assume)
    la = sorted(la, key=lambda x: x.id)
    if len(la) > maxlits:
        return False if not norm and differ(a, b, assume) else None
    for bits in itertools.product((True, False), repeat=len(la)):
        asg = dict(assume or {})
        asg.update(zip(la, bits))
        if not lits_consistent(asg):
            continue
        x = resolve(a, asg)
        y = resolve(b, asg)
        if norm:
            x, y = norm(x, asg), norm(y, asg)
        if x != y:
            if ratnorm(x - y) != ZERO:
                return False
    return True


def ratnorm(p):
    """bring a value with inverse atoms over a common denominator and return
    the numerator polynomial (zero iff the rational function is zero)."""
    for _ in range(12):
        bad = None
        for m in p.t:
            for aid, e in m:
                a = _alist[aid]
                if a.kind == 'inv' and e > 0:
                    bad = a
                    break
                if e < 0:
                    bad = a
                    break
            if bad is not None:
                break
        if bad is None:
            return p
        if bad.kind == 'inv':
            q = bad.args[0]
            mx = max((e for m in p.t for aid, e in m if aid == bad.id), default=0)
            r = ZERO
            for m, c in p.t.items():
                d = dict(m)
                e = d.pop(bad.id, 0)
                term = Poly({tuple(sorted(d.items())): c})
                for _ in range(mx - e):
                    term = term * q
                r = r + term
            p = r
        else:
            mn = min(e for m in p.t for aid, e in m if aid == bad.id)
            p = p * Poly({((bad.id, -mn),): 1})
    return p


# ------------------------------------------------------------ identity testing
class _CantEval(Exception):
    pass


class Valuation:
    """a pseudo-random interpretation of the atoms of summarised values: reads are
    integers determined by what is read and where, uninterpreted functions are
    determined by their evaluated arguments, the arithmetic atoms mean what they say"""
    REFUSE = {'unk', 'lout', 'wild', 'in', 'mu', 'red', 'lkill', 'call'}

    def __init__(self, seed, assume=None, pos=None, boost=None):
        import mpmath
        self.boost = boost
        self.pos = pos
        self.mp = mpmath
        self.seed = seed
        self.memo = {}
        self.assume = assume or {}

    def h(self, *key):
        import hashlib
        return int.from_bytes(hashlib.sha256(repr((self.seed,) + key).encode()).digest()[:8], 'big')

    def num(self, key, kind):
        n = self.h(*key)
        v = self.mp.mpf(1 + n % 997) / (1 if kind in ('sym', 'lv', 'rs', 'ld', 'bv', 'base') else 1 + (n >> 20) % 13)
        if self.seed and (n >> 40) % 5 < 2 and not (self.pos and self.pos.search(repr(key))):
            v = -v
        if self.boost and self.boost.search(repr(key)):
            v *= 10 ** 12
        return v

    def canon(self, x):
        if isinstance(x, Poly):
            return self.mp.nstr(self.poly(x), 25)
        if isinstance(x, Atom):
            return ('a', self.mp.nstr(self.atom(x), 25))
        if isinstance(x, (tuple, list)):
            if len(x) == 3 and x[0] == 'lit' and isinstance(x[1], Atom):
                return ('c', self.cond(x))
            return tuple(self.canon(y) for y in x)
        if isinstance(x, (set, frozenset)):
            return tuple(sorted(repr(self.canon(y)) for y in x))
        if x is None or isinstance(x, (str, int, bool, Fraction)):
            return repr(x)
        raise _CantEval

    def cond(self, c):
        if c is True or c is False:
            return c
        if c[0] == 'lit':
            return self.lit(c[1]) == c[2]
        xs = (self.cond(x) for x in c[1])
        return all(xs) if c[0] == 'and' else any(xs)

    def lit(self, a):
        if a in self.assume:
            return self.assume[a]
        k = a.kind
        if k in ('le0', 'lt0', 'eq0'):
            v = self.poly(a.args[0])
            if abs(v) < self.mp.mpf(10) ** -25:
                return k != 'lt0'
            return False if k == 'eq0' else v < 0
        return self.atom(a) > 0

    def atom(self, a):
        v = self.memo.get(a.id)
        if v is None:
            v = self.memo[a.id] = self._atom(a)
        return v

    def _atom(self, a):
        k = a.kind
        if k in self.REFUSE:
            raise _CantEval
        if k == 'box':
            return self.poly(a.args[0])
        if k == 'ite':
            return self.poly(a.args[1] if self.cond(a.args[0]) else a.args[2])
        if k in ('le0', 'lt0', 'eq0'):
            return self.mp.mpf(1 if self.lit(a) else 0)
        if k == 'max':
            return max(self.poly(x) for x in a.args[0])
        if k == 'min':
            return min(self.poly(x) for x in a.args[0])
        if k == 'abs':
            return abs(self.poly(a.args[0]))
        if k == 'sqrt':
            v = self.poly(a.args[0])
            if v < 0:
                if v > -self.mp.mpf(10) ** -25:
                    return self.mp.mpf(0)
                raise _CantEval('root of a negative number')
            return self.mp.sqrt(v)
        if k == 'inv':
            v = self.poly(a.args[0])
            if abs(v) < self.mp.mpf(10) ** -20:
                raise _CantEval('division by zero')
            return 1 / v
        if k == 'fn' and a.args[0] == 'pow' and len(a.args) == 3:
            x, y = self.poly(a.args[1]), self.poly(a.args[2])
            if x > 0:
                return x ** y
        if k == 'fn' and a.args[0] in ('cos', 'sin', 'acos', 'exp', 'atan2', 'atan', 'cosh', 'sinh', 'tanh') and all(isinstance(x, Poly) for x in a.args[1:]):
            return getattr(self.mp, a.args[0])(*[self.poly(x) for x in a.args[1:]])
        return self.num((k, self.canon(a.args)), k)

    def poly(self, p):
        p = P(p)
        r = self.mp.mpf(0)
        for m, c in p.t.items():
            c = Fraction(c)
            t = self.mp.mpf(c.numerator) / c.denominator
            for aid, e in m:
                v = self.atom(_alist[aid])
                if e < 0 and abs(v) < self.mp.mpf(10) ** -20:
                    raise _CantEval('division by zero')
                t *= v ** e
            r += t
        return r


def differ(a, b, assume=None, tries=8):
    """True if an interpretation of the atoms is found under which the two values
    differ (they are then different functions of the state); False if none was found"""
    import mpmath
    with mpmath.workdps(60):
        for seed in range(tries):
            try:
                v = Valuation(seed, assume)
                x, y = v.poly(a), v.poly(b)
            except _CantEval:
                continue
            if abs(x - y) > mpmath.mpf(10) ** -14 * (1 + abs(x) + abs(y)):
                return True
    return False


def deps_kind(x, kinds, seen=None):
    """does the value contain an atom of one of the kinds (at any depth)?"""
    if seen is None:
        seen = set()
    if isinstance(x, Poly):
        return any(deps_kind(a, kinds, seen) for a in x.atoms())
    if isinstance(x, Atom):
        if x.id in seen:
            return False
        seen.add(x.id)
        return x.kind in kinds or any(deps_kind(y, kinds, seen) for y in x.args)
    if isinstance(x, (tuple, list, set, frozenset)):
        return any(deps_kind(y, kinds, seen) for y in x)
    return False


# ------------------------------------------------------------ printing
def show_path(p):
    root, els = p
    s = root if isinstance(root, str) else show(root) if isinstance(root, (Poly, Atom)) else str(root)
    for k, v in els:
        if k == 'f':
            s += '.' + v
        else:
            s += '[' + show(v) + ']'
    return s.replace('[0].', '->')


def show_cond(c):
    if c is True or c is False:
        return str(c)
    if c[0] == 'lit':
        return ('' if c[2] else '!') + '(' + show_atom(c[1]) + ')'
    j = ' && ' if c[0] == 'and' else ' || '
    return '(' + j.join(sorted(show_cond(x) for x in c[1])) + ')'


def show_atom(a):
    if a._s is None:
        k = a.kind
        if k in ('sym', 'lv', 'bv'):
            s = str(a.args[0])
        elif k in ('ld', 'base', 'addr'):
            s = ('' if k == 'ld' else '&') + show_path(a.args[0])
            if k == 'ld' and len(a.args) > 1 and a.args[1] != 0:
                s += '@' + str(a.args[1])
        elif k == 'ite':
            s = 'ite(%s ? %s : %s)' % (show_cond(a.args[0]), show(a.args[1]), show(a.args[2]))
        elif k in ('le0',):
            s = show(a.args[0]) + '<=0'
        elif k == 'lt0':
            s = show(a.args[0]) + '<0'
        elif k == 'eq0':
            s = show(a.args[0]) + '==0'
        elif k == 'str':
            s = repr(a.args[0])
        else:
            s = k + '(' + ','.join(_showg(x) for x in a.args) + ')'
        if len(s) > 4000:
            s = s[:3900] + '...#%d' % a.id
        a._s = s
    return a._s


def _showg(x):
    if isinstance(x, Poly):
        return show(x)
    if isinstance(x, Atom):
        return show_atom(x)
    if isinstance(x, frozenset):
        return '{' + ','.join(sorted(_showg(y) for y in x)) + '}'
    if isinstance(x, tuple):
        if len(x) == 2 and isinstance(x[1], tuple) and all(isinstance(e, tuple) and len(e) == 2 and e[0] in ('f', 'i') for e in x[1]):
            return show_path(x)
        if x and x[0] in ('lit', 'and', 'or'):
            return show_cond(x)
        return '(' + ','.join(_showg(y) for y in x) + ')'
    return str(x)


def show(p):
    if isinstance(p, Atom):
        return show_atom(p)
    if not p.t:
        return '0'
    out = []
    items = sorted(((tuple((show_atom(_alist[aid]), e) for aid, e in m), c)
                    for m, c in p.t.items()), key=lambda x: (x[0] == (), x[0]))
    for m, c in items:
        fs = [a if e == 1 else '%s^%d' % (a, e) for a, e in m]
        if not fs:
            s = str(c)
        elif c == 1:
            s = '*'.join(fs)
        elif c == -1:
            s = '-' + '*'.join(fs)
        else:
            s = str(c) + '*' + '*'.join(fs)
        out.append(s if not out or s.startswith('-') else '+' + s)
    return ''.join(out)
