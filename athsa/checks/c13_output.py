"""Output files: what is written is what the name, header and labels announce."""
import itertools
import re
from ..config import Config
from ..front import Program
from ..interp import Interp, EvCall, SVal, flatten
from .. import sym
from ..sym import P, Poly, atom, show, show_cond, c_not, c_le0, c_eq0, subst, ONE, ZERO
from ..stream import strlit, pointee
from ..spec import *
from ..check import compare, has_opaque
from .c01_restart import facts, single, M, G

TEXT = {'fprintf': 1, 'fputs': 0}
FAIL = ('ath_error', 'ath_perr', 'exit', 'abort')


# ------------------------------------------------------------------ abstract run of a writer
def null_ok(it, name, args, types, n, tag):
    ev = it.emit_call(name, args, types, n, None)
    ev.res = P(atom('base', ('@%s%d' % (tag, ev.seq), ())))
    it.add_fact(c_not(c_eq0(ev.res, True)))
    return ev


def cb_fwrite(it, n, args, types):
    ev = it.emit_call('fwrite', args, types, n, None)
    ev.res = args[2]
    ev.row = None
    p = pointee(args[0])
    t = types[0]
    t = t[1] if t and t[0] in ('ptr', 'arr') else None
    if p is None or t is None or t[0] not in ('int', 'real'):
        return ev.res, ('int',)
    cnt = args[2]
    if not (p[1] and p[1][-1][0] == 'i'):
        ev.row = ('words', [it.load(p, t)] if cnt == ONE else None, t)
        return ev.res, ('int',)
    pre, off = p[1][:-1], p[1][-1][1]

    def at(x):
        return it.load((p[0], pre + (('i', off + x),)), t)
    if cnt.is_const():
        c = int(cnt.const())
        ev.row = ('words', [at(P(x)) for x in range(c)] if c <= 64 else None, t)
        return ev.res, ('int',)
    m = 3 if all(c % 3 == 0 for c in cnt.t.values()) else 1
    num = P(cnt) * P(sym.Fraction(1, m)) if m > 1 else cnt
    q = atom('lv', 'row#%d' % ev.seq)
    nf = len(it.facts)
    it.add_fact(c_le0(-P(q), True))
    it.add_fact(c_le0(P(q) - num + 1, True))
    try:
        vals = [settle(it, at(P(q) * m + c)) for c in range(m)]
    finally:
        del it.facts[nf:]
    ev.row = ('row', q, num, vals, t)
    return ev.res, ('int',)


def prim_cb(cfg):
    def cb(it, n, args, types):
        p = pointee(args[0])
        if p is None:
            return None
        pt = it.frames[-1].unit.protos.get('Cons_to_Prim')
        rt = pt[1]
        sv = SVal()
        for suf, lt in it.leaves(rt):
            sv[suf] = prim_val(cfg, p, suf, it, lt)
        return sv, rt
    return cb


def prim_val(cfg, p, suf, it=None, lt=('real',)):
    f = suf[0][1]
    if f in ('B1c', 'B2c', 'B3c') or (f == 'd' and not cfg.has('special-relativity')):
        q = (p[0], p[1] + suf)
        return it.load(q, lt) if it is not None else P(atom('ld', q, 0))
    return P(atom('fn', 'prim', *[x for x in suf[0][1:]], *[x for _, x in suf[1:]], P(atom('addr', p))))


def run_writer(cfg, fn, prefer, dims, mode, extra=None, general=False, more=(), cbs2=None, unroll=16):
    def cb_strcmp(it, n, args, types):
        a, b = (strlit(x) for x in args[:2])
        s = b if b is not None else a
        if s is None or mode is None:
            return None
        return P(0 if s == mode else 1), ('int',)

    def mk(name, tag):
        def cb(it, n, args, types):
            ev = null_ok(it, name, args, types, n, tag)
            return ev.res, ('ptr', ('int',))
        return cb
    v = dict(single(dims) or {})
    if not general:
        v[path('#1', 0, 'nlevel')] = P(-1)
        v[path('#1', 0, 'ndomain')] = P(-1)
    v.update(extra or {})
    cbs = {'fwrite': cb_fwrite, 'Cons_to_Prim': prim_cb(cfg), 'strcmp': cb_strcmp, 'fopen': mk('fopen', 'file'), 'ath_fname': mk('ath_fname', 'name')}
    cbs.update(cbs2 or {})
    noeff = ('ath_bswap', 'free', 'fclose', 'fprintf', 'fputs', 'fputc', 'fflush', 'free_1d_array', 'free_2d_array', 'free_3d_array')
    eff = {x: [] for x in noeff}
    eff['sprintf'] = eff['snprintf'] = []
    eff['MPI_Reduce'] = [1]
    it = Interp(Program(cfg), opaque=noeff + ('ath_big_endian', 'sprintf', 'snprintf', 'ath_perr'), assume=facts(dims) + list(more), values=v, unroll=unroll, effects=eff, callbacks=cbs)
    it.allocs = {}
    it.run(fn, prefer, args=[M, None])
    return it


# ------------------------------------------------------------------ linear streams
class Tok:
    def __init__(self, k, ev, **kw):
        self.k = k
        self.at = '%s:%s' % (ev.coord, getattr(ev, 'fn', '')) if ev is not None else ''
        self.__dict__.update(kw)

    def __repr__(self):
        if self.k == 'lit':
            return 'lit %r' % self.text
        if self.k == 'arg':
            return 'arg %s' % show(self.val)
        if self.k == 'for':
            return 'for %s [%s,%s] {%s}' % (self.var, show(self.lo) if self.lo is not None else '?', show(self.hi) if self.hi is not None else '?', self.sub)
        if self.k == 'row':
            return 'row %s x %s' % (show(self.num), [show(v) for v in self.vals])
        return '%s %s' % (self.k, getattr(self, 'vals', ''))


SPEC = re.compile(r'%[-+ #0]*(\*|\d+)?(\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?[diouxXeEfFgGcsp]|%%')


def fmt_tokens(e, fmt, args):
    out = []
    pos = 0
    args = list(args)
    for m in SPEC.finditer(fmt):
        if m.start() > pos:
            out.append(Tok('lit', e, text=fmt[pos:m.start()]))
        pos = m.end()
        if m.group() == '%%':
            out.append(Tok('lit', e, text='%'))
            continue
        v = args.pop(0) if args else None
        text = strlit(v) if m.group() == '%s' and v is not None else None
        if text is not None:
            out.append(Tok('lit', e, text=text))
            continue
        out.append(Tok('arg', e, val=v, spec=m.group(), var=False))
    if pos < len(fmt):
        out.append(Tok('lit', e, text=fmt[pos:]))
    return out


def quiet(evs):
    """no output written in this piece of the tree"""
    for lo, g, e in flatten(evs):
        if e.k == 'call' and e.name in ('fprintf', 'fputs', 'fputc', 'fwrite', 'fopen', 'ath_bswap', 'ath_fname'):
            return False
    return True


def fails(evs):
    return any(e.k == 'call' and e.name in FAIL for lo, g, e in flatten(evs))


class Lin:
    """linear stream of a writer for one truth assignment of its open conditions"""

    def __init__(self, it, choose):
        self.it, self.choose, self.asg = it, choose, {}
        self.bad = None

    def decide(self, c):
        return sym.c_eval(c, self.choose)

    def seq(self, evs):
        out = []
        for e in evs:
            if e.k == 'loop':
                s = self.seq(e.body)
                if s:
                    out.append(Tok('for', None, var=e.var, lo=e.lo, hi=e.hi, desc=e.desc, brk=e.brk, sub=s, lid=e.lid))
                    out[-1].at = e.coord
            elif e.k == 'if':
                if quiet(e.then) and quiet(e.els):
                    continue
                if fails(e.then) and quiet(e.then):
                    out += self.seq(e.els)
                    continue
                if fails(e.els) and quiet(e.els):
                    out += self.seq(e.then)
                    continue
                d = self.decide(e.cond)
                if d not in (True, False):
                    for a in sym.c_lits(e.cond):
                        self.asg.setdefault(a)
                    d = True
                    self.bad = True
                out += self.seq(e.then if d else e.els)
            elif e.k == 'call':
                out += self.call(e)
            elif e.k == 'store':
                out.append(Tok('store', e, path=e.path))
        return out

    def call(self, e):
        n = e.name
        if n in TEXT:
            f = strlit(e.args[TEXT[n]])
            if n == 'fputs':
                return [Tok('lit', e, text=f)] if f is not None else [Tok('arg', e, val=e.args[0], spec='%s', var=True)]
            if f is None:
                if len(e.args) == 2:
                    return [Tok('opaque', e)]
                return [Tok('arg', e, val=a, spec=None, var=True) for a in e.args[2:]]
            return fmt_tokens(e, f, e.args[2:])
        if n == 'fputc':
            a = e.args[0]
            return [Tok('lit', e, text=chr(int(a.const())))] if a.is_const() else [Tok('opaque', e)]
        if n == 'fwrite':
            if e.row is None or e.row[1] is None:
                return [Tok('opaque', e, buf=root_of(e.args[0]))]
            if e.row[0] == 'words':
                return [Tok('words', e, vals=e.row[1], t=e.row[2], size=e.args[1], cnt=e.args[2], buf=root_of(e.args[0]))]
            return [Tok('row', e, q=e.row[1], num=e.row[2], vals=e.row[3], t=e.row[4], size=e.args[1], cnt=e.args[2], buf=root_of(e.args[0]))]
        if n == 'ath_bswap':
            return [Tok('swap', e, buf=root_of(e.args[0]), size=e.args[1], cnt=e.args[2])]
        if n in ('fopen', 'fclose', 'ath_fname'):
            return [Tok(n, e, args=e.args, res=e.res)]
        if n in ('fseek', 'rewind', 'ftell', 'putc', 'putw', 'vfprintf', 'write'):
            return [Tok('opaque', e)]
        return []


def root_of(v):
    p = pointee(v)
    if p is None:
        return None
    return (p[0], p[1][:-1]) if p[1] and p[1][-1][0] == 'i' else p


def streams(it, limit=6):
    """(assignment, tokens) for every truth assignment of the open conditions that select output"""
    lits = {}

    def scan(evs):
        for e in evs:
            if e.k == 'loop':
                scan(e.body)
            elif e.k == 'if':
                if quiet(e.then) and quiet(e.els):
                    continue
                if not ((fails(e.then) and quiet(e.then)) or (fails(e.els) and quiet(e.els))):
                    for a in sym.c_lits(e.cond):
                        lits[a] = 1
                scan(e.then)
                scan(e.els)
    scan(it.events)
    lits = list(lits)
    if len(lits) > limit:
        return None
    out = []
    for vals in itertools.product((True, False), repeat=len(lits)):
        asg = dict(zip(lits, vals))
        if not sym.lits_consistent(asg):
            continue
        nf = len(it.facts)
        ok = True
        for a, v in asg.items():
            d = it.decide(('lit', a, v))
            if d is False:
                ok = False
                break
            it.add_fact(('lit', a, v))
        del it.facts[nf:]
        if not ok:
            continue
        L = Lin(it, asg)
        out.append((asg, L.seq(it.events)))
    return out


def show_asg(asg):
    return ' and '.join(show_cond(('lit', a, v)) for a, v in asg.items()) or 'always'


# ------------------------------------------------------------------ text with arguments
class Text:
    """concatenated text; argument n appears as \\x01n\\x02"""

    def __init__(self):
        self.s = ''
        self.args = []

    def add(self, t):
        if t.k == 'lit':
            self.s += t.text
        else:
            self.s += '\x01%d\x02' % len(self.args)
            self.args.append(t)

    def arg(self, m):
        return self.args[int(m)]


ARG = '\x01(\\d+)\x02'


def split_blocks(toks):
    """[(Text, [data tokens])]: runs of text and of data in order"""
    out = []
    cur = None
    for t in toks:
        if t.k in ('lit', 'arg'):
            if cur is None or cur[1]:
                cur = (Text(), [])
                out.append(cur)
            cur[0].add(t)
        elif t.k in ('fopen', 'fclose', 'ath_fname', 'store', 'swap'):
            continue
        elif t.k == 'for' and not has_data(t.sub):
            continue
        else:
            if cur is None:
                cur = (Text(), [])
                out.append(cur)
            cur[1].append(t)
    return out


def has_data(toks):
    return any(t.k in ('lit', 'arg', 'row', 'words', 'opaque') or (t.k == 'for' and has_data(t.sub)) for t in toks)


def unnest(t):
    """loops around, and tokens in, the innermost body that holds output"""
    loops = []
    cur = [t]
    while True:
        d = [x for x in cur if x.k in ('lit', 'arg', 'row', 'words', 'opaque') or (x.k == 'for' and has_data(x.sub))]
        if len(d) == 1 and d[0].k == 'for':
            loops.append(d[0])
            cur = d[0].sub
            continue
        return loops, d, cur


class Frame3:
    """index ranges and reference values of the grid being written"""

    def __init__(self, cfg, dims, mode, it):
        self.cfg, self.dims, self.mode, self.it = cfg, dims, mode, it
        gh = cfg.has('ghost')
        self.s = [ld('M', 0, *G, x) for x in ('is', 'js', 'ks')]
        self.e = [ld('M', 0, *G, x) for x in ('ie', 'je', 'ke')]
        self.lo = [self.s[d] - (NG if gh and d < dims else 0) for d in range(3)]
        self.hi = [self.e[d] + (NG if gh and d < dims else 0) for d in range(3)]
        self.ix = [P(atom('sym', 'cell_' + c)) for c in 'ijk']
        self.dx = [ld('M', 0, *G, 'dx%d' % (d + 1)) for d in range(3)]
        self.mn = [ld('M', 0, *G, 'MinX', d) for d in range(3)]

    def same(self, a, b):
        f = len(self.it.facts)
        r = sym.equal_values(a, b)
        if not r and isinstance(a, Poly) and isinstance(b, Poly):
            r = True if self.zero(a - b) else r
        return r

    def zero(self, d):
        return self.it.decide(c_eq0(d, True)) is True

    def n(self, d):
        return self.hi[d] - self.lo[d] + 1

    def cell(self, *f):
        i, j, k = self.ix
        return ld('M', 0, *G, 'U', k, j, i, *f)

    def prim(self, *f):
        i, j, k = self.ix
        p = path('M', 0, *G, 'U', k, j, i)
        return prim_val(self.cfg, p, tuple(('f', x) if isinstance(x, str) else ('i', P(x)) for x in f))

    def arr(self, name, *f):
        i, j, k = self.ix
        return ld('M', 0, *G, name, k, j, i, *f)

    def x(self, d):
        return self.mn[d] + (self.ix[d] - self.s[d] + P(sym.Fraction(1, 2))) * self.dx[d]

    def variables(self):
        """(dump name, field) of every evolved variable, in the order of the structure"""
        out = []
        if self.mode == 'prim':
            out += [('d', self.prim('d'))] + [('V%d' % c, self.prim('V%d' % c)) for c in (1, 2, 3)]
            if self.cfg['eos'] != 'isothermal':
                out.append(('P', self.prim('P')))
            if self.cfg['gas'] == 'mhd':
                out += [('B%dc' % c, self.prim('B%dc' % c)) for c in (1, 2, 3)]
            out += [('r%d' % n, self.prim('r', n)) for n in range(self.cfg['nscalars'])]
        else:
            for f in cons_fields(self.cfg):
                out.append((''.join(str(z) for z in f), self.cell(*f)))
        return out

    def canon(self, rec, rule, where, loops, what):
        """map the loop variables of a data block to cell indices; None unless the block runs over the whole grid in order"""
        mp = {}
        if len(loops) != 3:
            rec.undecided(rule, where, '%s: %d index loops' % (what, len(loops)))
            return None
        for d, (var, lo, hi, desc, irr) in zip((2, 1, 0), loops):
            if var is None or lo is None or irr:
                rec.undecided(rule, where, '%s: loop not understood' % what)
                return None
            n = hi - lo + 1
            r = self.same(n, self.n(d))
            if not r:
                if r is None or has_opaque(n):
                    rec.undecided(rule, where, '%s: extent %s' % (what, show(n)))
                else:
                    rec.bad(rule, where, '%s: %s cells are written along x%d, the grid announced has %s' % (what, show(n), d + 1, show(self.n(d))))
                return None
            if desc:
                rec.bad(rule, where, '%s: cells are written in descending order along x%d' % (what, d + 1))
                return None
            mp[var] = self.ix[d] - self.lo[d] + lo
        rec.ok(rule, where + ' ' + what)
        return mp

    def agree(self, rec, rule, where, what, got, want, key=None):
        fa = len(self.it.facts)
        for d in range(3):
            self.it.add_fact(c_le0(self.lo[d] - self.ix[d], True))
            self.it.add_fact(c_le0(self.ix[d] - self.hi[d], True))
        try:
            got = settle(self.it, got)
            if self.it.decide(c_eq0(got - want, True)) is True:
                got = want
        finally:
            del self.it.facts[fa:]
        # coordinates of directions without extent hold a single index
        if self.dims < 3:
            z = {self.ix[d].single_atom(): self.lo[d] for d in range(self.dims, 3)}
            z2 = {self.e[d].single_atom(): self.s[d] for d in range(self.dims, 3)}
            got, want = (subst(subst(v, z), z2) for v in (got, want))
        return compare(rec, rule, where, got, want, what, key)


def row_block(fr, rec, t, what):
    """values of a for/for/row block as functions of the cell"""
    loops, leaf, body = unnest(t)
    if len(leaf) != 1 or leaf[0].k not in ('row', 'words'):
        rec.undecided('content', t.at, '%s: data block not understood' % what)
        return None
    r = leaf[0]
    ls = [(l.var, l.lo, l.hi, l.desc, l.brk is not False) for l in loops]
    if r.k == 'row':
        ls.append((r.q, ZERO, r.num - 1, False, False))
    mp = fr.canon(rec, 'extent', r.at, ls, what)
    if mp is None:
        return None
    return r, [subst(v, mp) for v in r.vals], body


def byte_order(rec, toks, swapped, asg):
    """every row is byte-swapped exactly once, as a whole, before it is written (or never)"""
    def seq(toks, st):
        for t in toks:
            if t.k == 'for':
                seq(t.sub, st)
                seq(t.sub, dict(st)) if t.var is not None else None
            elif t.k == 'store':
                r = (t.path[0], t.path[1][:-1]) if t.path[1] and t.path[1][-1][0] == 'i' else t.path
                if r in st and st[r]:
                    rec.bad('bytes', t.at, 'a word is stored into the buffer after its byte swap')
                st[r] = None
            elif t.k == 'swap':
                if t.buf is None:
                    rec.undecided('bytes', t.at, 'byte swap of %s' % t.buf)
                elif st.get(t.buf):
                    rec.bad('bytes', t.at, 'the buffer is byte-swapped twice')
                st[t.buf] = t
            elif t.k in ('row', 'words'):
                s = st.get(t.buf)
                if not swapped:
                    if s:
                        rec.bad('bytes', s.at, 'the row is byte-swapped on a big-endian machine')
                    else:
                        rec.ok('bytes')
                elif s is None:
                    rec.bad('bytes', t.at, 'the row is written without the byte swap')
                else:
                    ok = sym.equal_values(s.cnt, t.cnt) and sym.equal_values(s.size, t.size)
                    rec.expect(bool(ok), 'bytes', t.at, 'byte swap of %s words of %s bytes, the row has %s words of %s bytes' % (
                        show(s.cnt), show(s.size), show(t.cnt), show(t.size)))
                st[t.buf] = None
    seq(toks, {})


VTK = {'cons': {'density': [('c', 'd')], 'momentum': [('c', 'M1'), ('c', 'M2'), ('c', 'M3')], 'total_energy': [('c', 'E')],
                'cell_centered_B': [('c', 'B1c'), ('c', 'B2c'), ('c', 'B3c')]},
       'prim': {'density': [('p', 'd')], 'velocity': [('p', 'V1'), ('p', 'V2'), ('p', 'V3')], 'pressure': [('p', 'P')],
                'cell_centered_B': [('c', 'B1c'), ('c', 'B2c'), ('c', 'B3c')]}}
COMMON = {'gravitational_potential': [('a', 'Phi')], 'particle_density': [('a', 'Coup', 'grid_d')],
          'particle_momentum': [('a', 'Coup', 'grid_v1'), ('a', 'Coup', 'grid_v2'), ('a', 'Coup', 'grid_v3')]}


def vtk_want(fr, label):
    m = re.fullmatch(r'(specific_)?scalar\[(\d+)\]', label)
    if m:
        n = int(m.group(2))
        return [fr.prim('r', n) if m.group(1) else fr.cell('s', n)]
    d = VTK[fr.mode].get(label) or COMMON.get(label)
    if d is None:
        return None
    f = {'c': fr.cell, 'p': fr.prim, 'a': fr.arr}
    return [f[x[0]](*x[1:]) for x in d]


def vtk_required(fr):
    cfg = fr.cfg
    out = ['density', 'momentum' if fr.mode == 'cons' else 'velocity']
    if cfg['eos'] != 'isothermal':
        out.append('total_energy' if fr.mode == 'cons' else 'pressure')
    if cfg['gas'] == 'mhd':
        out.append('cell_centered_B')
    if (cfg['gravity'] != 'none'):
        out.append('gravitational_potential')
    out += [('scalar[%d]' if fr.mode == 'cons' else 'specific_scalar[%d]') % n for n in range(cfg['nscalars'])]
    return out


def text_of(tx, s):
    """text with constant arguments filled in"""
    def f(m):
        v = tx.arg(m.group(1)).val
        return str(int(v.const())) if isinstance(v, Poly) and v.is_const() else m.group(0)
    return re.sub(ARG, f, s)


def numbers(fr, rec, tx, label, want, rule='header', nth=0):
    """the arguments that follow a keyword"""
    m = re.search(re.escape(label) + r'\s+((?:%s\s*)+)' % ARG.replace('(', '(?:'), text_of_none(tx.s))
    if not m:
        return None
    got = [tx.arg(x) for x in re.findall(ARG, m.group(1))][:len(want)]
    if len(got) < len(want):
        return None
    for d, (g_, w) in enumerate(zip(got, want)):
        fr.agree(rec, rule, g_.at, '%s, entry %d' % (label, d + 1), P(g_.val), P(w))
    return True


def text_of_none(s):
    return s


def vtk(rec, kw, dims, mode):
    cfg = Config(**kw)
    it = run_writer(cfg, 'dump_vtk', 'dump_vtk.c', dims, mode)
    rec.fn('dump_vtk')
    rec.add_stats(it)
    ss = streams(it)
    if ss is None:
        rec.undecided('content', 'src/dump_vtk.c:dump_vtk', 'too many open conditions')
        return
    fr = Frame3(cfg, dims, mode, it)
    for asg, toks in ss:
        big = [a for lo, g_, e in flatten(it.events) if e.k == 'call' and e.name == 'ath_big_endian' for a in [e.res]]
        sw = None
        for a in big:
            sw = sym.c_eval(c_eq0(a, True), asg) if sw is None else sw
        if sw in (True, False):
            byte_order(rec, toks, bool(sw), asg)
        else:
            rec.undecided('bytes', 'src/dump_vtk.c:dump_vtk', 'byte order test not recognised')
        if sw is False:
            continue
        seen = []
        tx0 = None
        for tx, data in split_blocks(toks):
            s = text_of(tx, tx.s)
            if tx0 is None:
                tx0 = tx
                h = 'src/dump_vtk.c:dump_vtk'
                for w in ('# vtk DataFile Version', 'BINARY\n', 'DATASET STRUCTURED_POINTS\n'):
                    if w not in s:
                        rec.bad('header', h, 'the line %r is missing' % w)
                    else:
                        rec.ok('header')
                wd = [fr.n(d) + 1 if d < dims else ONE for d in range(3)]
                pl = {'DIMENSIONS': wd, 'ORIGIN': [fr.mn[d] + (fr.lo[d] - fr.s[d]) * fr.dx[d] for d in range(3)], 'SPACING': fr.dx,
                      'CELL_DATA': [fr.n(0) * fr.n(1) * fr.n(2)]}
                for lb, w in pl.items():
                    numbers_c(fr, rec, tx, lb, w, h)
            m = re.findall(r'(SCALARS|VECTORS)\s+(\S+)\s+float', s)
            if not m or len(data) != 1:
                rec.undecided('content', data[0].at if data else h, 'block %r' % s[-60:])
                continue
            if len(m) > 1:
                rec.bad('content', data[0].at, 'no data follow the label %s' % m[0][1], key='content|nodata')
            kind, label = m[-1]
            seen.append(label)
            b = row_block(fr, rec, data[0], label)
            if b is None:
                continue
            r, vals, body = b
            want = vtk_want(fr, label)
            if want is None:
                rec.undecided('content', r.at, 'label %s' % label)
                continue
            if len(want) != (3 if kind == 'VECTORS' else 1) or len(vals) != len(want):
                rec.bad('content', r.at, '%s %s has %d component(s), the rows written have %d' % (kind, label, len(want), len(vals)))
                continue
            if r.size != P(4):
                rec.bad('content', r.at, '%s: words of %s bytes are written as float' % (label, show(r.size)))
                continue
            for c, (v, w) in enumerate(zip(vals, want)):
                fr.agree(rec, 'content', r.at, 'data of %s, component %d' % (label, c + 1), v, w)
        for lb in vtk_required(fr):
            rec.expect(seen.count(lb) == 1, 'complete', 'src/dump_vtk.c:dump_vtk', '%s appears %d times in the file' % (lb, seen.count(lb)), key='complete|' + lb)


def numbers_c(fr, rec, tx, label, want, where):
    """numeric entries after a keyword, constants included"""
    s = tx.s
    m = re.search(re.escape(label) + r'[ \t]+([^\n]*)\n', s)
    if not m:
        rec.bad('header', where, 'no %s entry in the header' % label)
        return
    got = re.findall(ARG + r'|(-?\d+(?:\.\d*)?)', m.group(1))
    if len(got) != len(want):
        rec.bad('header', where, '%s has %d entries, not %d' % (label, len(got), len(want)))
        return
    for d, ((a, lit), w) in enumerate(zip(got, want)):
        v = tx.arg(a).val if a else P(sym.Fraction(lit))
        at = tx.arg(a).at if a else where
        fr.agree(rec, 'header', at, '%s entry %d' % (label, d + 1), P(v), P(w))


# ------------------------------------------------------------------ tables
def tab_want(fr, label):
    i, j, k = fr.ix
    d = {'i-zone': i, 'j-zone': j, 'k-zone': k, 'x1': fr.x(0), 'x2': fr.x(1), 'x3': fr.x(2)}
    if label in d:
        return d[label]
    for nm, v in fr.variables():
        if label == nm or (fr.mode == 'prim' and re.fullmatch(r's\d+', label) and nm == 'r' + label[1:]):
            return v
    if label == 'Phi':
        return fr.arr('Phi')
    if label == 'dpar':
        return fr.arr('Coup', 'grid_d')
    m = re.fullmatch(r'([MV])([123])par', label)
    if m:
        v = fr.arr('Coup', 'grid_v' + m.group(2))
        if m.group(1) == 'M':
            return v
        d_ = fr.arr('Coup', 'grid_d')
        return sym.ite(c_le0(d_), ZERO, v * sym.inv(d_))
    return None


def tab_required(fr, par):
    out = [c + '-zone' for c in 'ijk'[:fr.dims]] + ['x%d' % (d + 1) for d in range(fr.dims)]
    out += [nm if not re.fullmatch(r'r\d+', nm) else 's' + nm[1:] for nm, v in fr.variables()]
    if (fr.cfg['gravity'] != 'none'):
        out.append('Phi')
    return out


def columns(rec, toks, where):
    """labels with their numbers (from the header) and the text and data tokens"""
    labels = []
    blocks = split_blocks(toks)
    if not blocks:
        rec.bad('columns', where, 'nothing is written')
        return None
    tx = blocks[0][0]
    for m in re.finditer(r'\[%s\]=([^\[\n]*)' % ARG, tx.s):
        a = tx.arg(m.group(1))
        labels.append((text_of(tx, m.group(2)).strip(), a))
    return labels, tx, blocks


def tab(rec, kw, dims, mode):
    cfg = Config(**kw)
    fn = 'dump_tab_' + mode
    where = 'src/dump_tab.c:' + fn
    it = run_writer(cfg, fn, 'dump_tab.c', dims, mode)
    rec.fn(fn)
    rec.add_stats(it)
    ss = streams(it)
    if ss is None:
        rec.undecided('content', where, 'too many open conditions')
        return
    fr = Frame3(cfg, dims, mode, it)
    for asg, toks in ss:
        c = columns(rec, toks, where)
        if c is None:
            continue
        labels, tx, blocks = c
        cond = '' if not asg else ' (if %s)' % show_asg(asg)
        if len(blocks[0][1]) != 1:
            rec.undecided('content', where, 'data block not understood')
            continue
        for d in range(dims):
            numbers_eq(fr, rec, tx, 'Nx%d' % (d + 1), fr.n(d), where)
            numbers_eq(fr, rec, tx, 'x%d-size' % (d + 1), fr.n(d) * fr.dx[d], where)
        loops, leaf, body = unnest(blocks[0][1][0])
        ls = [(l.var, l.lo, l.hi, l.desc, l.brk is not False) for l in loops]
        mp = fr.canon(rec, 'extent', blocks[0][1][0].at, ls, 'table rows')
        if mp is None:
            continue
        cols = []
        open_ = False
        nl = [t for t in leaf if t.k == 'lit' and '\n' in t.text]
        rec.expect(len(nl) == 1 and leaf[-1] is nl[0], 'columns', blocks[0][1][0].at, 'each row is one line')
        for t in leaf:
            if t.k == 'arg':
                cols.append((t, settle_asg(subst(P(t.val), mp), asg)))
            elif t.k != 'lit':
                open_ = True
        if open_:
            rec.undecided('columns', where, 'row not understood')
            continue
        if len(cols) != len(labels):
            rec.bad('columns', labels[-1][1].at if labels else where, 'the header names %d columns (%s), each row has %d%s' % (
                len(labels), ', '.join(l for l, a in labels), len(cols), cond), key='columns|count')
            continue
        rec.ok('columns', '%d columns' % len(cols))
        for n, ((lb, a), (t, v)) in enumerate(zip(labels, cols)):
            compare(rec, 'columns', a.at, settle_asg(P(a.val), asg), P(n + 1), 'number of column %s%s' % (lb, cond))
            w = tab_want(fr, lb)
            if w is None:
                rec.undecided('content', t.at, 'label %s' % lb)
                continue
            fr.agree(rec, 'content', t.at, 'column %s%s' % (lb, cond), v, settle_asg(w, asg))
        have = [l for l, a in labels]
        for lb in tab_required(fr, None):
            rec.expect(have.count(lb) == 1, 'complete', where, 'column %s appears %d times%s' % (lb, have.count(lb), cond), key='complete|' + lb)


def settle_asg(v, asg):
    m = {a: asg[a] for a in sym.ite_atoms(v) if a in asg}
    return sym.resolve(v, m) if m else v


def numbers_eq(fr, rec, tx, label, want, where):
    m = re.search(r'\b' + re.escape(label) + r'\s*=\s*' + ARG, tx.s)
    if not m:
        rec.bad('header', where, 'no %s entry in the header' % label)
        return
    a = tx.arg(m.group(1))
    fr.agree(rec, 'header', a.at, label, P(a.val), want)


# ------------------------------------------------------------------ binary dumps
def binary(rec, kw, dims, mode):
    cfg = Config(**kw)
    where = 'src/dump_binary.c:dump_binary'
    it = run_writer(cfg, 'dump_binary', 'dump_binary.c', dims, mode)
    rec.fn('dump_binary')
    rec.add_stats(it)
    ss = streams(it)
    if ss is None:
        rec.undecided('content', where, 'too many open conditions')
        return
    fr = Frame3(cfg, dims, mode, it)
    par = cfg['particles'] not in (None, 0, '', 'none')
    for asg, toks in ss:
        data = []
        for tx, d in split_blocks(toks):
            if tx.s:
                rec.undecided('header', where, 'text in the file')
            data += d
        words = []
        k = 0
        while k < len(data) and data[k].k == 'words':
            words += [(data[k], v) for v in data[k].vals]
            k += 1
        nvar = len(fr.variables())
        grav = 1 if (cfg['gravity'] != 'none') else 0
        rows = [t for t in data[k:]]
        npar = len(rows) - 3 - nvar - grav
        want = [(P({'cartesian': -1, 'cylindrical': -2}.get(cfg['coord'], -3)), 'coordinate system')]
        want += [(fr.n(d), 'cells along x%d' % (d + 1)) for d in range(3)]
        want += [(P(nvar), 'number of variables'), (P(cfg['nscalars']), 'number of scalars'), (P(grav), 'flag of the potential'),
                 (P(1 if npar == 4 else 0), 'flag of the binned particles')]
        want += [(ZERO if cfg['eos'] == 'isothermal' else P(atom('sym', 'Gamma_1')), 'gamma-1'), (P(atom('sym', 'Iso_csound')) if cfg['eos'] == 'isothermal' else ZERO, 'sound speed')]
        want += [(ld('M', 0, *G, 'time'), 'time'), (ld('M', 0, *G, 'dt'), 'time step')]
        if len(words) != len(want):
            rec.bad('header', where, 'the header has %d words, not %d' % (len(words), len(want)))
            continue
        for n, ((t, v), (w, what)) in enumerate(zip(words, want)):
            sz = 4 if n < 8 else 8
            if t.size != P(sz):
                rec.bad('header', t.at, '%s is written as a word of %s bytes' % (what, show(t.size)))
                continue
            v = settle_asg(v, asg)
            if what in ('gamma-1', 'sound speed') and not sym.equal_values(v, w):
                v2 = globals_of(v)
                compare(rec, 'header', t.at, v2, w, what)
                continue
            if what in ('time', 'time step') and sym.equal_values(v, ld('M', 0, 'time' if what == 'time' else 'dt')):
                rec.ok('header')
                continue
            fr.agree(rec, 'header', t.at, what + (' (if %s)' % show_asg(asg) if asg else ''), v, w)
        if npar not in (0, 4) or (npar and not par):
            rec.bad('complete', where, '%d data blocks follow the header, %d are announced' % (len(rows), 3 + nvar + grav), key='complete|blocks')
            continue
        exp = [('x1', 0, fr.x(0)), ('x2', 1, fr.x(1)), ('x3', 2, fr.x(2))]
        for t, (nm, d, w) in zip(rows[:3], exp):
            loops, leaf, body = unnest(t)
            if len(leaf) != 1 or leaf[0].k not in ('row', 'words') or loops:
                rec.undecided('content', t.at, 'coordinate block not understood')
                continue
            r = leaf[0]
            if r.k == 'words':
                if len(r.vals) == 1:
                    fr.agree(rec, 'content', r.at, 'coordinates ' + nm, r.vals[0], w)
                continue
            ok = fr.same(r.num, fr.n(d)) if len(r.vals) == 1 else None
            if not ok:
                (rec.bad if ok is False else rec.undecided)('extent', r.at, '%s coordinates %s are written for %s cells' % (show(r.num), nm, show(fr.n(d))))
                continue
            fr.agree(rec, 'content', r.at, 'coordinates ' + nm, subst(r.vals[0], {r.q: fr.ix[d] - fr.lo[d]}), w)
        vs = fr.variables()
        if grav:
            vs = vs + [('Phi', fr.arr('Phi'))]
        if npar:
            vs = vs + [('grid_' + f, fr.arr('Coup', 'grid_' + f)) for f in ('d', 'v1', 'v2', 'v3')]
        for t, (nm, w) in zip(rows[3:], vs):
            b = row_block(fr, rec, t, nm)
            if b is None:
                continue
            r, vals, body = b
            if len(vals) != 1:
                rec.undecided('content', r.at, nm)
                continue
            if r.size != P(8):
                rec.bad('content', r.at, '%s: words of %s bytes' % (nm, show(r.size)))
                continue
            fr.agree(rec, 'content', r.at, 'data of ' + nm, vals[0], w)


def globals_of(v):
    """global scalars as symbols"""
    mp = {}
    for a in v.atoms():
        if a.kind == 'ld' and not a.args[0][1]:
            mp[a] = P(atom('sym', a.args[0][0]))
    return subst(v, mp) if mp else v


# ------------------------------------------------------------------ history
def lin_red(v, depth=0):
    """sums with factors and terms that do not depend on the summation index taken out; sums over all processes are 'gsum'"""
    if not isinstance(v, Poly):
        return v
    if not any(a.kind in ('red', 'fn', 'ite') for a in v.atoms()):
        return v
    mp = {}
    for a in v.atoms():
        if a.kind == 'red' and a.args[0] == 'sum':
            mp[a] = one_red('sum', a)
        elif a.kind == 'fn' and a.args[0] == 'allsum':
            mp[a] = tag_sum(lin_red(a.args[1], depth + 1))
    return subst(v, mp) if mp else v


def tag_sum(v):
    mp = {}
    for a in v.atoms():
        if a.kind == 'fn' and a.args[0].startswith('S:'):
            mp[a] = P(atom('fn', 'G' + a.args[0], *a.args[1:]))
        elif a.kind == 'fn' and a.args[0].startswith('G'):
            mp[a] = P(atom('fn', 'G' + a.args[0], *a.args[1:]))
    return subst(v, mp) if mp else v


def one_red(op, a):
    bv, lo, hi, g_ = a.args[1:5]
    g_ = lin_red(g_)
    b = bv.single_atom()
    out = ZERO
    for m, c in g_.t.items():
        inn = P(1)
        outr = P(c)
        for aid, ex in m:
            at = sym.atom_by_id(aid)
            pw = Poly({((aid, ex),): 1})
            if b.id in P(at).deps:
                inn = inn * pw
            else:
                outr = outr * pw
        # nested sums of a single term: S:lo..hi
        out = out + outr * P(atom('fn', 'S:', bv, lo, hi, inn))
    return out


def nested(fr, g_):
    """sum over the active cells of g (a function of the cell symbols)"""
    from ..interp import red
    v = g_
    for d in range(3):
        lv = atom('lv', 'hist%d' % d)
        v = subst(v, {fr.ix[d].single_atom(): P(lv)})
        v = red('sum', lv, fr.s[d], fr.e[d], v)
    return v


def hist_want(fr, label):
    cfg = fr.cfg
    U = fr.cell
    H = P(sym.Fraction(1, 2))
    if re.fullmatch(r'x[123] Mom\.', label):
        return U('M' + label[1])
    if label == 'mass':
        return U('d')
    if label == 'total E':
        return U('E')
    if not cfg.has('special-relativity'):
        if re.fullmatch('x[123]-KE', label):
            return H * U('M' + label[1]) * U('M' + label[1]) * sym.inv(U('d'))
        if re.fullmatch('x[123]-ME', label):
            return H * U('B%sc' % label[1]) * U('B%sc' % label[1])
        if label == 'grav PE':
            return U('d') * fr.arr('Phi')
        m = re.fullmatch(r'scalar (\d+)', label)
        if m:
            return U('s', int(m.group(1)))
        if label == 'Ang.Mom.':
            return fr.x(0) * U('M2')
        return None
    W = fr.prim
    g = sym.div(U('d'), W('d'))
    g2i = sym.inv(g * g)
    if label == 'Gamma':
        return g * g
    if re.fullmatch('x[123]-KE', label):
        w = g * W('V' + label[1])
        return w * w
    if label == 'Press':
        return W('P')
    if cfg['gas'] != 'mhd':
        return None
    B = [U('B%dc' % c) for c in (1, 2, 3)]
    V = [W('V%d' % c) for c in (1, 2, 3)]
    vB = sum((a * b for a, b in zip(V, B)), ZERO)
    B2 = sum((b * b for b in B), ZERO)
    if label == 'x0-ME':
        return g * g * vB * vB
    if re.fullmatch('x[123]-ME', label):
        c = int(label[1]) - 1
        b = g * (B[c] * g2i + vB * V[c])
        return b * b
    if label == 'bsq':
        return B2 * g2i + vB * vB
    if label == 'T^00_EM':
        return B2 * (1 - H * g2i) - H * vB * vB
    return None


def hist_required(cfg):
    out = ['time', 'dt', 'mass'] + (['total E'] if cfg['eos'] != 'isothermal' else []) + ['x%d Mom.' % c for c in (1, 2, 3)]
    sr = cfg.has('special-relativity')
    out += ['x%d-KE' % c for c in (1, 2, 3)]
    if sr:
        out += ['Gamma', 'Press']
    if cfg['gas'] == 'mhd':
        out += ['x%d-ME' % c for c in (1, 2, 3)]
    if not sr:
        out += ['scalar %d' % n for n in range(cfg['nscalars'])]
        if cfg['gravity'] != 'none':
            out.append('grav PE')
        if cfg['coord'] == 'cylindrical':
            out.append('Ang.Mom.')
    return out


def cb_reduce(it, n, args, types):
    ev = it.emit_call('MPI_Reduce', args, types, n, None)
    ev.res = ZERO
    s, r, c = args[0], args[1], args[2]
    ps, pr = pointee(s), pointee(r)
    t = ('real',)
    if ps and pr and c.is_const() and c.const() <= 128 and ps[1] and pr[1] and ps[1][-1][0] == 'i' and pr[1][-1][0] == 'i':
        t = types[0][1]
        vs = [it.load((ps[0], ps[1][:-1] + (('i', ps[1][-1][1] + x),)), t) for x in range(int(c.const()))]
        for x, v in enumerate(vs):
            it.store((pr[0], pr[1][:-1] + (('i', pr[1][-1][1] + x),)), t, P(atom('fn', 'allsum', v)), n)
        return ZERO, ('int',)
    return None


def cb_rank(it, n, args, types):
    p = pointee(args[1])
    if p is None:
        return None
    it.store(p, ('int',), P(atom('fn', 'rank', args[0])), n)
    return ZERO, ('int',)


def history(rec, kw, dims, usr):
    cfg = Config(**kw)
    where = 'src/dump_history.c:dump_history'
    val = {path('usr_hst_cnt'): P(usr)}
    fa = []
    for d in range(3):
        N = ld('M', 0, 'Domain', 0, 0, 'Nx', d)
        fa += [le(2, N)] if d < dims else [eq(N, 1), le(N, 1)]
        fa.append(c_not(c_le0(ld('M', 0, *G, 'dx%d' % (d + 1)))))
    fa += [c_not(c_le0(ld('M', 0, 'Domain', 0, 0, 'MaxX', d) - ld('M', 0, 'Domain', 0, 0, 'MinX', d))) for d in range(3)]
    it = run_writer(cfg, 'dump_history', 'dump_history.c', dims, None, val, more=fa, cbs2={'MPI_Reduce': cb_reduce, 'MPI_Comm_rank': cb_rank}, unroll=64)
    rec.fn('dump_history')
    rec.add_stats(it)
    bounds(rec, it, 'dump_history', where)
    ss = streams(it)
    if ss is None:
        rec.undecided('content', where, 'too many open conditions')
        return
    fr = Frame3(cfg, dims, 'cons', it)
    fr.lo, fr.hi = fr.s, fr.e
    mpi = cfg.has('mpi')
    ex = [ld('M', 0, 'Domain', 0, 0, 'MaxX', d) - ld('M', 0, 'Domain', 0, 0, 'MinX', d) for d in range(3)]
    if cfg['coord'] == 'cylindrical':
        a, b = ld('M', 0, 'Domain', 0, 0, 'MaxX', 0), ld('M', 0, 'Domain', 0, 0, 'MinX', 0)
        ex[0] = P(sym.Fraction(1, 2)) * (a * a - b * b)
    vol = ex[0] * ex[1] * ex[2]
    dV = fr.dx[0] * fr.dx[1] * fr.dx[2] * (fr.x(0) if cfg['coord'] == 'cylindrical' else 1)
    rank = P(atom('fn', 'rank', ld('M', 0, 'Domain', 0, 0, 'Comm_Domain')))
    full = 0
    for asg, toks in ss:
        wr = [t for t in toks if t.k in ('lit', 'arg', 'opaque', 'for', 'words', 'row')]
        if not wr:
            continue
        if mpi:
            ok = None
            for a, v in asg.items():
                if 'rank' in show_cond(('lit', a, True)):
                    ok = (v is True and a.kind == 'eq0') or ok
            rk = [a for a in asg if any(x.kind == 'fn' and x.args[0] == 'rank' for x in deep_atoms(a))]
            if not rk:
                rec.bad('writer', wr[0].at, 'a history row is written by processes that do not hold the sums (if %s)' % show_asg(asg), key='writer')
                continue
            root = all(sym.c_eval(c_eq0(x, True), asg) is True for a in rk for x in [rank_val(a)] if x is not None)
            rec.expect(root, 'writer', wr[0].at, 'a history row is written by a process that is not rank 0 of the Domain (if %s)' % show_asg(asg), key='writer')
            if not root:
                continue
        first = sym.c_eval(c_eq0(ld('#1', 0, 'num'), True), asg)
        if first not in (True, False):
            rec.undecided('columns', where, 'header condition')
            continue
        txt = Text()
        bad = False
        for t in toks:
            if t.k in ('lit', 'arg'):
                txt.add(t)
            elif has_data([t]):
                bad = True
        if bad:
            rec.undecided('columns', where, 'row not understood')
            continue
        lines = txt.s.split('\n')
        if lines[-1] != '':
            rec.bad('columns', where, 'the row does not end the line')
            continue
        row = [l for l in lines[:-1] if not l.startswith('#')]
        head = [l for l in lines if l.startswith('#')]
        if len(row) != 1:
            rec.bad('columns', where, '%d rows are written per dump' % len(row))
            continue
        cols = [txt.arg(m) for m in re.findall(ARG, row[0])]
        if not first:
            rec.expect(not head, 'columns', where, 'the header is written again for later rows')
            if full and len(cols) != full:
                rec.bad('columns', where, 'rows of different length')
            continue
        labels = []
        for l in head:
            for m in re.finditer(r'\[%s\]=([^\[\n]*)' % ARG, l):
                labels.append((m.group(2), txt.arg(m.group(1))))
        full = len(cols)
        if len(labels) != len(cols):
            rec.bad('columns', labels[-1][1].at if labels else where, 'the header names %d columns, each row has %d' % (len(labels), len(cols)), key='columns|count')
            continue
        rec.ok('columns', '%d columns' % len(cols))
        have = []
        nu = 0
        for n, ((lb, a), t) in enumerate(zip(labels, cols)):
            compare(rec, 'columns', a.at, P(a.val), P(n + 1), 'number of column %s' % text_of(txt, lb).strip())
            m = re.fullmatch(r'\s*%s\s*' % ARG, lb)
            if m and usr:
                v = txt.arg(m.group(1)).val
                compare(rec, 'columns', t.at, P(v), user_label(it, nu), 'label of user column %d' % nu)
                nu += 1
                continue
            lb = text_of(txt, lb).strip()
            have.append(lb)
            if lb in ('time', 'dt'):
                compare(rec, 'content', t.at, P(t.val), ld('M', 0, lb), 'column ' + lb)
                continue
            w = hist_want(fr, lb)
            if w is None:
                rec.undecided('content', t.at, 'label %s' % lb)
                continue
            want = nested(fr, w * dV)
            if mpi:
                want = P(atom('fn', 'allsum', want))
            got = lin_red(settle(it, P(t.val)))
            want = sym.div(lin_red(want), vol)
            compare(rec, 'content', t.at, got, want, 'column %s' % lb, key='content|' + lb)
        if usr:
            rec.expect(nu == usr, 'columns', where, '%d user columns are written, %d are enrolled' % (nu, usr))
        for lb in hist_required(cfg):
            rec.expect(have.count(lb) == 1, 'complete', where, 'column %s appears %d times' % (lb, have.count(lb)), key='complete|' + lb)


def user_label(it, n):
    return base('usr_label', n)


def deep_atoms(a):
    from ..stream import deep
    return deep(a)


def rank_val(a):
    for x in deep_atoms(a):
        if x.kind == 'fn' and x.args[0] == 'rank':
            return P(x)
    return None


def bounds(rec, it, fn, where):
    """constant indices used on local arrays lie within the declared size"""
    unit, fd = it.prog.need(fn, None)
    sizes = {}
    from pycparser import c_ast

    class V(c_ast.NodeVisitor):
        def visit_Decl(self, n):
            if isinstance(n.type, c_ast.ArrayDecl):
                t = unit.type_of(n.type)
                if t[0] == 'arr' and t[2] is not None:
                    sizes['%' + n.name] = t[2]
    V().visit(fd.body)
    for r, sz in sizes.items():
        mx = None
        for k, _ in it.cells.under(r):
            if k[1] and k[1][0][0] == 'i' and k[1][0][1].is_const():
                x = int(k[1][0][1].const())
                mx = x if mx is None or x > mx else mx
        if mx is not None:
            rec.expect(mx < sz, 'bounds', where, 'element %d of %s[%d] is written' % (mx, r[1:], sz), key='bounds|' + r)


# ------------------------------------------------------------------ names of files
WRITERS = [('dump_binary', 'dump_binary.c', 'cons'), ('dump_tab_cons', 'dump_tab.c', 'cons'), ('dump_tab_prim', 'dump_tab.c', 'prim'),
           ('dump_vtk', 'dump_vtk.c', 'cons'), ('dump_vtk', 'dump_vtk.c', 'prim'), ('dump_history', 'dump_history.c', None),
           ('output_pdf', 'output_pdf.c', None), ('output_pgm', 'output_pgm.c', None), ('output_ppm', 'output_ppm.c', None),
           ('output_tab', 'output_tab.c', None), ('output_vtk', 'output_vtk.c', None)]


def nonnull(name):
    def cb(it, n, args, types):
        ev = null_ok(it, name, args, types, n, name)
        for a in args[2:]:
            it.havoc_ptr(a, ev.seq, None, name)
        pt = it.frames[-1].unit.protos.get(name)
        return ev.res, (pt[1] if pt else ('ptr', ('int',)))
    return cb


def names(rec, kw, fn, src, mode):
    cfg = Config(**kw)
    where = 'src/%s:%s' % (src, fn)
    cb2 = {x: nonnull(x) for x in ('OutData1', 'OutData2', 'OutData3')}
    cb2['MPI_Comm_rank'] = cb_rank
    it = run_writer(cfg, fn, src, 0, mode, {path('usr_hst_cnt'): ZERO}, general=True, cbs2=cb2)
    rec.fn(fn)
    rec.add_stats(it)
    found = 0
    spr = []
    for lo, g_, e in flatten(it.events):
        if e.k != 'call':
            continue
        if e.name in ('sprintf', 'snprintf'):
            spr.append((lo, g_, e))
        lv = [l.var for l in lo]
        if e.name in ('fprintf', 'fwrite') and len(lv) >= 2:
            labelled(rec, e, lv, where)
        if e.name != 'ath_fname':
            continue
        found += 1
        if len(lv) < 2 or None in lv[:2]:
            rec.undecided('name', e.coord, 'loop over levels and domains not recognised')
            continue
        nl, nd = P(lv[0]), P(lv[1])
        for what, val, x in (('directory', e.args[0], nl), ('level', e.args[2], nl), ('domain', e.args[3], nd)):
            one_name(rec, it, e, g_, spr, what, val, x, lv, fn)
        num = e.args[5]
        if e.args[4] != ZERO:
            compare(rec, 'name', '%s:%s' % (e.coord, fn), P(num), ld('#1', 0, 'num'), 'output number in the file name')
        if fn != 'dump_history':
            chosen(rec, it, e, g_, nl, nd, fn)
    if not found:
        rec.undecided('name', where, 'no file name is constructed')


def resolve_under(it, v, fs):
    nf = len(it.facts)
    for c in fs:
        it.add_fact(c)
    try:
        return settle(it, P(v))
    finally:
        del it.facts[nf:]


def first_round(it, v, fz, x):
    """a carried value that no round with number 0 changes is the value on entry to the loop"""
    for _ in range(6):
        a = v.single_atom()
        if a is None or a.kind != 'in' or a not in it.loopinfo:
            return v
        b, o, lid, k = it.loopinfo[a]
        if resolve_under(it, o, fz) == v or P(it.loopmeta[lid][0] or 0) == x and it.loopmeta[lid][1] == ZERO:
            v = resolve_under(it, b, fz)
            continue
        return v
    return v


def one_name(rec, it, e, g_, spr, what, val, x, lv, fn):
    at = '%s:%s' % (e.coord, fn)
    fz = [c_le0(x, True), c_le0(-x, True)]
    zero = first_round(it, resolve_under(it, val, fz), fz, x)
    pos = resolve_under(it, val, [c_le0(1 - x, True), c_not(c_le0(x, True)), c_le0(-x, True)])
    for v, case in ((zero, '0'), (pos, '> 0')):
        if sym.deps_kind(v, {'in', 'lout'}):
            rec.bad('name', at, 'the %s in the file name, for %s %s, is left over from another Domain: %s' % (
                what, 'level' if x == P(lv[0]) else 'domain', case, show(v)), key='name|%s|%s' % (fn, what))
            return
    if zero != ZERO:
        p = pointee(zero)
        rec.undecided('name', at, 'the %s for number 0 is %s' % (what, show(zero)))
        return
    if pos == ZERO:
        rec.bad('name', at, 'the file name does not carry the %s' % what, key='name|%s|%s' % (fn, what))
        return
    p = root_of(pos)
    c = [(lo, g2, s) for lo, g2, s in spr if root_of(s.args[0]) == p or pointee(s.args[0]) == p]
    if p is None or not c:
        rec.undecided('name', at, 'the text of the %s is not recognised' % what)
        return
    lo, g2, s = c[-1]
    k = 1 if s.name == 'sprintf' else 2
    f = strlit(s.args[k])
    ok = f is not None and len(s.args) == k + 2 and re.search('%[0-9.]*[di]', f)
    if not ok:
        rec.undecided('name', at, 'format of the %s' % what)
        return
    compare(rec, 'name', '%s:%s' % (s.coord, fn), P(s.args[k + 1]), x, 'number of the %s in the file name' % what)


def labelled(rec, e, lv, where):
    """level and domain printed in a header, and the Domain the data come from, are the current ones"""
    vals = []
    if e.name == 'fprintf':
        f = strlit(e.args[1])
        if f is not None:
            prev = ''
            for t in fmt_tokens(e, f, e.args[2:]):
                if t.k == 'lit':
                    prev = t.text
                    continue
                m = re.search(r'(level|domain)\s*=\s*$', prev)
                if m and isinstance(t.val, Poly):
                    compare(rec, 'header', t.at, t.val, P(lv[0 if m.group(1) == 'level' else 1]), '%s printed in the header' % m.group(1))
                prev = ''
        vals = [a for a in e.args[2:] if isinstance(a, Poly)]
    elif getattr(e, 'row', None):
        vals = [v for x in e.row if isinstance(x, list) for v in x]
    for v in vals:
        for a in deep_atoms(v):
            if a.kind != 'ld':
                continue
            p = a.args[0]
            if p[0] == 'M' and len(p[1]) > 3 and p[1][1] == ('f', 'Domain'):
                d = (p[1][2][1], p[1][3][1])
                if d[0].is_const() and d[1].is_const():
                    pass
                rec.expect(bool(sym.equal_values(d[0], P(lv[0])) and sym.equal_values(d[1], P(lv[1]))), 'source', '%s:%s' % (e.coord, e.fn),
                           'data of Domain[%s][%s] are written to the file of Domain[%s][%s]' % (show(d[0]), show(d[1]), lv[0], lv[1]), key='source')


def chosen(rec, it, e, g_, nl, nd, fn):
    """a Domain is written exactly if it is present and selected"""
    lev, dom = ld('#1', 0, 'nlevel'), ld('#1', 0, 'ndomain')
    sel = c_and(sym.c_or(eq(lev, -1), eq(lev, nl)), sym.c_or(eq(dom, -1), eq(dom, nd)))
    keep = [c for c in g_ if not any(a.kind == 'call' or (a.kind == 'fn' and a.args[0] == 'rank') for q in sym.c_lits(c) for a in deep_atoms(q))]
    gc = c_and(*keep) if keep else True
    at = '%s:%s' % (e.coord, fn)
    r = implies(gc, sel)
    if r is None:
        rec.undecided('select', at, 'selection condition')
        return
    rec.expect(r, 'select', at, 'a file is written for a Domain that was not selected: %s' % show_cond(gc), key='select|' + fn)
    # conditions on level and domain numbers must not exclude a selected Domain
    for c in keep:
        ls = sym.c_lits(c)
        names_ = {q for z in ls for a in deep_atoms(z) if a.kind == 'ld' for q in [str(a.args[0][0]) + '.' + '.'.join(str(v) for k, v in a.args[0][1] if k == 'f')]}
        if names_ and names_ <= {'#1.nlevel', '#1.ndomain'}:
            r = implies(sel, c)
            if r is None:
                rec.undecided('select', at, 'selection condition')
            else:
                rec.expect(r, 'select', at, 'a selected Domain is left out: %s' % show_cond(c), key='select|' + fn)


def implies(a, b):
    try:
        return bool(sym.c_implies(a, b))
    except Exception:
        return None


# ------------------------------------------------------------------ schedule
def schedule(rec, kw):
    """data_output: who is written when, numbering, and what a restart file records about it"""
    cfg = Config(**kw)
    fn = 'data_output'
    where = 'src/output.c:' + fn
    no = ('par_seti', 'par_setd', 'sprintf', 'snprintf', 'particle_to_grid')
    it = Interp(Program(cfg), opaque=no, effects={x: [] for x in no})
    it.run(fn, 'output.c', args=[M, None])
    rec.fn(fn)
    rec.add_stats(it)
    flag, time = P(atom('sym', '#1')), ld('M', 0, 'time')
    cnt = ld('out_count')
    seqn = 0
    nums, times, calls, incs, ts = [], [], [], [], []
    blk = {}
    order = []
    for lo, g_, e in flatten(it.events):
        seqn += 1
        n = P(lo[-1].var) if lo and lo[-1].var is not None else None
        if e.k == 'call':
            at = '%s:%s' % (e.coord, fn)
            if e.name in ('sprintf', 'snprintf'):
                k = 2 if e.name == 'sprintf' else 3
                if len(e.args) > k:
                    blk[root_of(e.args[0]) or pointee(e.args[0])] = (strlit(e.args[k - 1]), e.args[k])
            elif e.name in ('par_seti', 'par_setd'):
                b = blk.get(root_of(e.args[0]) or pointee(e.args[0]))
                order.append((e.name, strlit(e.args[1]), lo, g_, e, b, seqn, n))
            elif e.name is None and e.fnval is not None:
                order.append(('call', fpath(e.fnval), lo, g_, e, None, seqn, n))
        elif e.k == 'store':
            f = e.path[1][-1][1] if e.path[1] and e.path[1][-1][0] == 'f' else None
            if f in ('num', 't'):
                order.append(('store', f, lo, g_, e, None, seqn, n))

    def fields(n):
        if n is None:
            return lambda f: ld('rst_out', f)
        return lambda f: ld('OutArray', n, f)

    def due(n):
        return c_not(sym.c_lt0(time - fields(n)('t')))

    def written(n):
        return sym.c_or(c_not(c_eq0(flag, True)), due(n))
    on = c_not(c_eq0(ld('rst_flag'), True))
    seen = {}
    for what, key, lo, g_, e, b, sq, n in order:
        at = '%s:%s' % (e.coord, fn)
        gc = c_and(*g_) if g_ else True
        if lo and not whole(lo[-1], cnt):
            rec.bad('schedule', at, 'only the outputs [%s,%s] are considered' % (show(lo[-1].lo) if lo[-1].lo is not None else '?', show(lo[-1].hi) if lo[-1].hi is not None else '?'),
                    key='schedule|range')
            continue
        F = fields(n)
        if what == 'call' and key and key[1] and key[1][-1][1] in ('out_fun', 'res_fun'):
            f = key[1][-1][1]
            isrst = f == 'res_fun'
            want = c_and(on, written(None)) if isrst else written(n)
            equiv(rec, at, gc, want, 'condition for writing %s' % ('the restart file' if isrst else 'output n'))
            own = (key[0], key[1][:-1])
            ok = len(e.args) == 2 and pointee(e.args[1]) == own or (isrst and str(own[0]) == 'rst_out' and pointee_root(e.args[1]) == 'rst_out')
            rec.expect(bool(ok), 'schedule', at, 'the writer of an output is given the description of that output: %s' % show(e.args[-1]), key='schedule|own')
            seen['call', isrst] = sq
        elif what == 'store' and key == 'num':
            isrst = str(e.path[0]) == 'rst_out'
            seen['num', isrst] = sq
            d = P(e.val) - 1
            a = d.single_atom()
            rec.expect(a is not None and a.kind == 'ld' and a.args[0] == e.path, 'schedule', at, 'the output number is advanced by one: %s' % show(e.val), key='schedule|num')
            equiv(rec, at, gc, c_and(on, written(None)) if isrst else written(n), 'condition for advancing the number')
        elif what == 'store' and key == 't':
            isrst = str(e.path[0]) == 'rst_out'
            seen['t', isrst] = sq
            compare(rec, 'schedule', at, P(e.val), F('t') + F('dt'), 'next output time')
            equiv(rec, at, gc, c_and(on, due(None)) if isrst else due(n), 'condition for advancing the output time')
        elif what in ('par_seti', 'par_setd') and key in ('num', 'time'):
            isrst = n is None
            seen['par_' + key, isrst] = sq
            if b is None or b[0] != 'output%d':
                rec.undecided('schedule', at, 'block of the recorded %s' % key)
                continue
            compare(rec, 'schedule', at, P(b[1]), F('n'), 'block in which the %s is recorded' % key)
            v = e.args[3]
            W = written(n)
            if isrst:
                want = F('num') + 1 if key == 'num' else sym.ite(due(None), F('t') + F('dt'), F('t'))
            elif key == 'num':
                want = sym.ite(W, F('num') + 1, F('num'))
            else:
                want = sym.ite(due(n), F('t') + F('dt'), F('t'))
            asm = None
            if implies(gc, W):
                want = cond_value(want, W, True)
            elif implies(gc, c_not(W)):
                want = cond_value(want, W, False)
            r = same_under(gc, P(v), want)
            if r is None:
                rec.undecided('schedule', at, 'recorded %s' % key)
            else:
                rec.expect(r, 'schedule', at, 'the %s recorded for the restart is the next one: %s, not %s' % (key, show(P(v)), show(want)), key='schedule|par_' + key)
    for isrst in (False, True):
        who = 'the restart output' if isrst else 'the outputs'
        for k in ('call', 'num', 't', 'par_num', 'par_time'):
            if (k, isrst) not in seen:
                rec.undecided('schedule', where, '%s: no %s found' % (who, k))
        if all((k, isrst) in seen for k in ('call', 'num')):
            rec.expect(seen['call', isrst] < seen['num', isrst], 'schedule', where, 'the number of %s is advanced after it is written' % who, key='schedule|after')
        for k in ('par_num', 'par_time'):
            if (k, isrst) in seen and ('call', True) in seen:
                rec.expect(seen[k, isrst] < seen['call', True], 'schedule', where, 'the next number and time of %s are recorded before the restart file is written' % who, key='schedule|before')


def pointee_root(v):
    p = pointee(v)
    return str(p[0]) if p else None


def fpath(v):
    a = v.single_atom() if isinstance(v, Poly) else None
    if a is not None and a.kind in ('ld', 'base', 'addr'):
        return a.args[0]
    return None


def whole(l, cnt):
    return l.lo is not None and l.lo == ZERO and bool(sym.equal_values(l.hi, cnt - 1)) and l.brk is False


def cond_value(v, c, val):
    return sym.assume_in(v, c, val) if isinstance(v, Poly) else v


def same_under(gc, a, b):
    """equality of two values under a path condition, over the truth assignments of their conditions"""
    lits = {}
    for x in (a, b):
        for q in sym.ite_atoms(x):
            lits[q] = 1
    for q in (sym.c_lits(gc) if gc not in (True, False) else []):
        lits[q] = 1
    lits = list(lits)
    if len(lits) > 10:
        return None
    for vals in itertools.product((True, False), repeat=len(lits)):
        asg = dict(zip(lits, vals))
        if not sym.lits_consistent(asg):
            continue
        if gc is not True and sym.c_eval(gc, asg) is not True:
            continue
        r = sym.equal_values(sym.resolve(a, asg), sym.resolve(b, asg))
        if not r:
            return r
    return True


def equiv(rec, at, a, b, what):
    try:
        r = sym.c_equiv(a, b) if len(sym.c_lits(a) | sym.c_lits(b)) <= 12 else None
    except Exception:
        r = None
    if r is None:
        rec.undecided('schedule', at, what)
    else:
        rec.expect(bool(r), 'schedule', at, '%s: %s, not %s' % (what, show_cond(a), show_cond(b)), key='schedule|' + what)


BASE = [dict(gas='mhd', gravity='fft'), dict(gas='mhd', nscalars=2), dict(gas='hydro', nscalars=1), dict(gas='hydro', eos='isothermal'), dict(gas='mhd', eos='isothermal', ghost=1),
        dict(gas='mhd', ghost=1, nscalars=1), dict(gas='mhd', particles='feedback'), dict(gas='hydro', particles='passive', nscalars=1)]


def tasks(tier):
    out = []
    for kw in BASE:
        n = Config(**kw).name
        for d in (1, 2, 3):
            for mode in ('cons', 'prim'):
                for fn in ('vtk', 'tab', 'binary'):
                    out.append(('%s %dD %s %s' % (fn, d, mode, n), (fn, kw, d, mode)))
    for kw in HIST:
        n = Config(**kw).name
        for d in (1, 2, 3):
            out.append(('history %dD %s' % (d, n), ('history', kw, d, 0)))
        out.append(('history user columns %s' % n, ('history', kw, 3, 30)))
    for fn, src, mode in WRITERS:
        for kw in NAMES[1:] if fn == 'output_pdf' else NAMES:
            out.append(('name %s %s %s' % (fn, mode, Config(**kw).name), ('names', kw, fn, src, mode)))
    for kw in NAMES + [dict(gas='hydro', particles='passive')]:
        out.append(('schedule ' + Config(**kw).name, ('schedule', kw)))
    return out


NAMES = [dict(gas='mhd'), dict(gas='hydro', mpi=1, smr=1)]
HIST = [dict(gas='mhd', nscalars=2), dict(gas='hydro', eos='isothermal', nscalars=1), dict(gas='mhd', gravity='fft'), dict(gas='mhd', coord='cylindrical', gravity='fft'),
        dict(gas='hydro', special_relativity=1, integrator='vl', order='2p'), dict(gas='mhd', special_relativity=1, integrator='vl', order='2p', flux='hlle'),
        dict(gas='mhd', mpi=1), dict(gas='hydro', mpi=1, smr=1)]
RULE = ("Abstract interpretation of each writer (dump_vtk, dump_tab, dump_binary, dump_history) into the ordered list of texts and bytes it puts in the file, on "
        "every path and for symbolic grid sizes: each labelled block must hold exactly one value per active cell, in the order its header announces, equal to the "
        "quantity of the label; counts, extents and spacings of headers must follow from the same grid; every quantity the gas has must be present; history columns "
        "must be the volume average over all processes of their label. Every call of ath_fname must name the level and domain whose data follow and "
        "the selection of levels and domains must be the one asked for. The output loop (data_output, init_output) must write an output when, and only when, it is due.")
ASSUMPTIONS = ["formats print numbers faithfully; output precision is not part of the property", "memory and files can be obtained (failure paths must end the run)",
               "user-defined output functions and expressions do what their name says"]
FLOORS = {"bytes": 1700, "header": 1300, "extent": 600, "content": 1700, "complete": 900, "columns": 1300, "name": 80, "select": 38, "source": 550, "schedule": 60}
