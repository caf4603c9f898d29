"""helpers shared by the rule modules"""
from .sym import P, S, atom, c_le0, c_eq0, c_not, c_and, show, ZERO
from . import sym


def le(a, b):
    return c_le0(P(a) - P(b), True)


def eq(a, b):
    return c_eq0(P(a) - P(b), True)


def ne(a, b):
    return c_not(eq(a, b))


def path(root, *els):
    """path('#0', 'U', k, j, i, 'd'): strings are fields, others indices"""
    out = []
    for e in els:
        if isinstance(e, str):
            out.append(('f', e))
        else:
            out.append(('i', P(e)))
    return (root, tuple(out))


def ld(root, *els):
    return P(atom('ld', path(root, *els), 0))


def base(root, *els):
    return P(atom('base', path(root, *els)))


def gpath(*els):
    """field of the Grid passed as parameter 0"""
    return path('#0', 0, *els)


def g(*els):
    return ld('#0', 0, *els)


NG = S('nghost')
IS, IE, JS, JE, KS, KE = g('is'), g('ie'), g('js'), g('je'), g('ks'), g('ke')


def grid_facts(dims, root=('#0', 0)):
    """well-formedness of a Grid with `dims` active dimensions (established by
    the grid set-up): the active index range holds at least nghost cells,
    inactive directions hold a single plane."""
    def f(*e):
        return ld(*(root + e))
    out = [le(1, NG), le(2, NG)]
    for d, (s, e) in enumerate((('is', 'ie'), ('js', 'je'), ('ks', 'ke'))):
        S_, E_ = f(s), f(e)
        N = f('Nx', d)
        if d < dims:
            out += [le(NG, N), le(2, N), le(S_ + NG - 1, E_), le(S_ + 1, E_), le(NG, S_)]
            out += [c_le0(E_ - S_ + 1 - N, True), c_le0(N - (E_ - S_ + 1), True)]
        else:
            out += [eq(N, 1), eq(S_, E_), le(N, 1), eq(S_, 0), eq(E_, 0)]
    return [c for c in out if c is not True]


def with_facts(it, facts, fn):
    n = len(it.facts)
    for c in facts:
        it.add_fact(c)
    try:
        return fn()
    finally:
        del it.facts[n:]


def post(it, pth, t, facts):
    """final contents of a location, resolved under facts"""
    return with_facts(it, facts, lambda: settle(it, it.load(pth, t)))


def settle(it, v):
    """drop merge alternatives excluded by the current facts"""
    if not isinstance(v, sym.Poly):
        return v
    for _ in range(4):
        asg = {}
        for a in sym.ite_atoms(v):
            d = it.decide(('lit', a, True))
            if d is True or d is False:
                asg[a] = d
        if not asg:
            break
        v = sym.resolve(v, asg)
    return v


def cons_fields(cfg, sr=False):
    f = ['d', 'M1', 'M2', 'M3']
    if cfg['eos'] != 'isothermal':
        f.append('E')
    if cfg['gas'] == 'mhd':
        f += ['B1c', 'B2c', 'B3c']
    out = [(x,) for x in f]
    for n in range(cfg['nscalars']):
        out.append(('s', n))
    return out
