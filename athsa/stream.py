"""File formats as structured record streams, read off the event tree of a function.

A function that writes (reads) a binary file is turned into a tree of loops, conditionals, text
lines and records; a writer and a reader are then aligned item by item.  Buffered output
(`buf[n++] = v; if (full) flush; ... flush`) is recognised and replaced by the records it stands for,
after checking the counter discipline.
"""
from .interp import flatten, EvCall, Interp, skel
from . import sym
from .sym import P, Poly, atom, Atom, subst, show, show_path, show_cond, ite, c_not, c_le0, ONE, ZERO

SETUP = ('calloc_1d_array', 'calloc_2d_array', 'calloc_3d_array', 'malloc', 'calloc', 'fopen', 'ath_fname', 'fwrite', 'fread', 'fgets')


def deep(v, seen=None):
    """all atoms occurring in a value"""
    out = {}

    def go(x):
        if isinstance(x, Poly):
            for a in x.atoms():
                go(a)
        elif isinstance(x, Atom):
            if x.id not in out:
                out[x.id] = x
                go(x.args)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
    go(v)
    return list(out.values())


def pointee(v):
    """path of the object a pointer value points to"""
    if not isinstance(v, Poly):
        return None
    for a in v.atoms():
        if a.kind in ('addr', 'base', 'call') and v.t.get(((a.id, 1),)) == 1:
            off = v - P(a)
            if a.kind == 'addr':
                return a.args[0] if off == ZERO else None
            if a.kind == 'base':
                return (a.args[0][0], a.args[0][1] + (('i', off),))
            return (a, (('i', off),))
    return None


def trim(p):
    """x[0] and x denote the same word when x is a one-element array"""
    return p


class Item:
    def __init__(self, kind, ev=None, **kw):
        self.kind = kind
        self.ev = ev
        self.at = ev.coord if ev is not None else ''
        self.sub = []
        self.__dict__.update(kw)

    def __repr__(self):
        return self.render()

    def render(self, ind=0):
        sp = '  ' * ind
        if self.kind == 'loop':
            r = '%sfor %s in [%s,%s]' % (sp, self.var, self.lo, self.hi)
        elif self.kind == 'if':
            r = '%sif %s' % (sp, show_cond(self.cond))
        elif self.kind == 'text':
            r = '%stext %r %s' % (sp, self.fmt, [show(a) for a in self.args])
        elif self.kind == 'line':
            r = '%sline %r' % (sp, self.expect)
        elif self.kind == 'rec':
            r = '%srec %s x%s %s' % (sp, self.size, self.count, show_path(self.loc) if self.loc else show(self.val))
        elif self.kind == 'push':
            r = '%spush %s[%s] %s' % (sp, self.buf, self.idx, show(self.val))
        else:
            r = '%s%s %s' % (sp, self.kind, getattr(self, 'name', ''))
        for s in self.sub:
            r += '\n' + s.render(ind + 1)
        if getattr(self, 'els', None):
            r += '\n' + sp + 'else'
            for s in self.els:
                r += '\n' + s.render(ind + 1)
        return r


def call_names(c, out=None):
    """names of the call results a condition depends on; None if it depends on anything else"""
    names = set()
    ok = True
    for a in cond_atoms(c):
        if a.kind == 'call':
            names.add(a.args[0])
        elif a.kind in ('sym', 'ld', 'in', 'lv', 'addr', 'base', 'fn', 'lout', 'unk'):
            ok = False
    return names if ok and names else None


def cond_atoms(c):
    out = []
    if isinstance(c, (Poly,)):
        return list(c.atoms())
    if isinstance(c, Atom):
        if c.kind in ('le0', 'lt0', 'eq0', 'ite', 'and', 'or'):
            return cond_atoms(c.args)
        return [c]
    if isinstance(c, (tuple, frozenset)):
        for x in c:
            out += cond_atoms(x)
    return out


def strcmps(c):
    """(buffer, text, n) of string comparisons in a condition"""
    out = []
    for a in cond_atoms(c):
        if a.kind == 'fn' and a.args[0] in ('strncmp', 'strcmp'):
            out.append(a)
    return out


def fail_call(evs):
    for lo, g, e in flatten(evs):
        if e.k == 'call' and e.name in ('ath_error', 'exit', 'abort'):
            return True
    return False


class Builder:
    def __init__(self, it, opaque=(), bufs=None):
        self.it = it
        self.opaque = opaque
        self.sprintf = {}
        self.lastline = None
        self.bufroots = set()
        for lo, g, e in flatten(it.events):
            if e.k == 'call' and e.name in ('fwrite', 'fread'):
                r = self.root(e.args[0])
                if r is not None:
                    self.bufroots.add(r)

    def root(self, v):
        """buffer identity of a pointer value"""
        if not isinstance(v, Poly):
            return None
        p = pointee(v)
        if p is None:
            return None
        if p[1] and p[1][-1][0] == 'i':
            return p[0] if isinstance(p[0], Atom) and len(p[1]) == 1 else (p[0], p[1][:-1])
        return p

    def store_root(self, path):
        if path[1] and path[1][-1][0] == 'i':
            b = (path[0], path[1][:-1])
            if isinstance(path[0], Atom) and not b[1]:
                return path[0]
            return b
        return None

    def conv(self, evs):
        out = []
        for e in evs:
            if e.k == 'loop':
                sub = self.conv(e.body)
                if sub:
                    it = Item('loop', e, var=e.var, lo=e.lo, hi=e.hi, desc=e.desc, brk=e.brk)
                    it.sub = sub
                    it.cond = e.cond
                    out.append(it)
            elif e.k == 'if':
                for a in strcmps(e.cond):
                    neg = fail_call(e.then)
                    pos = fail_call(e.els)
                    if (neg or pos) and self.lastline is not None and self.lastline.expect is None:
                        self.expect(a)
                th, el = self.conv(e.then), self.conv(e.els)
                if not th and not el:
                    continue
                names = call_names(e.cond)
                if (names and names <= set(SETUP)) or strcmps(e.cond):
                    if not (th and el):
                        out += th or el
                        continue
                it = Item('if', e, cond=e.cond, els=el)
                it.sub = th
                out.append(it)
            elif e.k == 'call':
                x = self.call(e)
                if x is not None:
                    out.append(x)
            elif e.k == 'store':
                r = self.store_root(e.path)
                if r is not None and r in self.bufroots:
                    out.append(Item('push', e, buf=r, idx=e.path[1][-1][1], val=e.val))
        return out

    def expect(self, a):
        buf, txt = a.args[1], a.args[2]
        n = a.args[3] if len(a.args) > 3 else None
        if isinstance(txt, Poly):
            s = txt.single_atom()
            if s is not None and s.kind == 'str':
                txt = s.args[0]
        if isinstance(txt, Poly) and self.root(txt) in self.sprintf:
            txt = self.sprintf[self.root(txt)]
        self.lastline.expect = (txt, n)

    def call(self, e):
        n = e.name
        if n in ('sprintf', 'snprintf'):
            k = 1 if n == 'sprintf' else 2
            self.sprintf[self.root(e.args[0])] = ('fmt', strlit(e.args[k]), e.args[k + 1:])
            return None
        if n == 'fprintf':
            return Item('text', e, fmt=strlit(e.args[1]), args=e.args[2:])
        if n == 'fputs':
            return Item('text', e, fmt=strlit(e.args[0]), args=())
        if n == 'fgets':
            self.lastline = Item('line', e, expect=None)
            return self.lastline
        if n in ('fwrite', 'fread'):
            sz, cnt = e.args[1], e.args[2]
            r = self.root(e.args[0])
            x = Item('rec', e, size=sz, count=cnt, loc=None, val=None, buf=r, write=(n == 'fwrite'))
            x.loc = pointee(e.args[0])
            x.val = getattr(e, 'inval', None)
            return x
        if n in self.opaque:
            return Item('opaque', e, name=n)
        if n in ('fseek', 'rewind', 'fscanf', 'fgetc', 'ungetc', 'fputc', 'ftell'):
            return Item('opaque', e, name=n)
        return None


def strlit(v):
    if isinstance(v, str):
        return v
    if isinstance(v, Poly):
        a = v.single_atom()
        if a is not None and a.kind == 'str':
            return a.args[0]
    return None


def walk(items):
    for x in items:
        yield x
        if x.sub:
            yield from walk(x.sub)
        if getattr(x, 'els', None):
            yield from walk(x.els)


def zeroish(v, depth=0):
    """v is 0, or a counter that was reset unless it was already <= 0"""
    if v == ZERO:
        return True
    a = v.single_atom() if isinstance(v, Poly) else None
    if a is not None and a.kind == 'min':
        xs = list(a.args[0]) if len(a.args) == 1 else list(a.args)
        return any(x == ZERO for x in xs) and all(x == ZERO or (x.single_atom() is not None and x.single_atom().kind == 'lout') for x in xs)
    if a is not None and a.kind == 'ite' and depth < 6:
        c, x, y = a.args
        for br, cc in ((x, c), (y, c_not(c))):
            if zeroish(br, depth + 1):
                continue
            b = br.single_atom()
            if b is not None and b.kind == 'lout' and cc == c_le0(br, True):
                continue
            return False
        return True
    return False


class Unbuffer:
    """replace push/flush by records, checking the counter discipline of each buffer"""

    def __init__(self, it, rec, rule, fname, sizes):
        self.it, self.rec, self.rule, self.fname, self.sizes = it, rec, rule, fname, sizes
        self.pending = {}          # buf -> dict(last push idx, element size unknown yet, recs list)
        self.bad = False

    def run(self, items):
        out = self.seq(items)
        for b, st in self.pending.items():
            self.viol(st['at'], 'buffered words are never written out')
        return out

    def viol(self, at, msg):
        self.bad = True
        self.rec.bad(self.rule, '%s:%s' % (at, self.fname), msg)

    def undec(self, at, msg):
        self.bad = True
        self.rec.undecided(self.rule, '%s:%s' % (at, self.fname), msg)

    def barrier(self, x):
        for b, st in list(self.pending.items()):
            self.viol(x.at, 'another item is written while words pushed at %s are still in the buffer' % st['at'])
            del self.pending[b]

    def seq(self, items, loops=(), gs=()):
        out = []
        for n, x in enumerate(items):
            if x.kind == 'push':
                st = self.pending.setdefault(x.buf, {'recs': [], 'm': 0, 'at': x.at, 'idx': None})
                if st.get('loop') is not None and st['loop'] != loops:
                    st['idx'] = None
                if st['idx'] is not None and x.idx != st['idx'] + 1:
                    if isinstance(x.idx - st['idx'], Poly) and (x.idx - st['idx']).is_const():
                        self.viol(x.at, 'word pushed at position %s after position %s' % (show(x.idx), show(st['idx'])))
                    else:
                        self.undec(x.at, 'position %s after %s' % (show(x.idx), show(st['idx'])))
                if st['idx'] is None:
                    st['first'] = x.idx
                    st['m'] = 0
                st['idx'] = x.idx
                st['m'] += 1
                st['loop'] = loops
                st['push'] = x
                r = Item('rec', x.ev, size=None, count=ONE, loc=None, val=x.val, buf=None, write=True)
                a = x.val.single_atom() if isinstance(x.val, Poly) else None
                if a is not None and a.kind == 'ld':
                    r.loc = a.args[0]
                st['recs'].append(r)
                out.append(r)
            elif x.kind == 'rec' and x.write and x.buf in self.pending:
                self.flush(x, loops, True, gs)
            elif x.kind == 'if' and not x.els and len(x.sub) == 1 and x.sub[0].kind == 'rec' and x.sub[0].write and x.sub[0].buf in self.pending:
                self.flush(x.sub[0], loops, x.cond, gs)
            elif x.kind == 'rec' and x.write and x.buf is not None and isinstance(x.buf, Atom):
                # flush of an empty buffer
                if x.count != ZERO:
                    self.undec(x.at, 'write of buffer %s not understood' % show(x.count))
            elif x.kind == 'loop':
                y = Item('loop', x.ev, var=x.var, lo=x.lo, hi=x.hi, desc=x.desc, brk=x.brk, cond=x.cond)
                before = {b: st['idx'] for b, st in self.pending.items()}
                if any(z.kind in ('text', 'opaque') for z in walk(x.sub)):
                    pass
                y.sub = self.seq(x.sub, loops + (x,))
                for b, st in self.pending.items():
                    st['closing'] = True
                out.append(y)
            elif x.kind == 'if':
                y = Item('if', x.ev, cond=x.cond, els=[])
                y.sub = self.seq(x.sub, loops, gs + (x.cond,))
                y.els = self.seq(x.els, loops, gs + (c_not(x.cond),))
                out.append(y)
            else:
                self.barrier(x)
                out.append(x)
        return out

    def flush(self, x, loops, cond, gs):
        st = self.pending[x.buf]
        inner = st['loop']
        it = self.it
        for r in st['recs']:
            if r.size is None:
                r.size = x.size
            elif r.size != x.size:
                self.viol(x.at, 'words of size %s written with size %s' % (r.size, x.size))
        idx = st['idx']
        ina = [a for a in idx.atoms() if a.kind == 'in']
        if loops == inner and cond is not True:
            # overflow flush inside the loop
            if x.count != idx + 1:
                d = x.count - idx - 1
                (self.viol if d.is_const() else self.undec)(x.at, 'flush writes %s words but %s are buffered' % (show(x.count), show(idx + 1)))
                return
            if len(ina) == 1 and ina[0] in it.loopinfo:
                b, o, lid, k = it.loopinfo[ina[0]]
                want = ite(cond, ZERO, P(ina[0]) + st['m'])
                for g in reversed(gs):
                    want = ite(g, want, P(ina[0]))
                ok = sym.equal_values(o, want)
                if not ok:
                    (self.viol if ok is False else self.undec)(x.at, 'after the flush the buffer counter is %s' % show(o))
                size = self.sizes.get(x.buf)
                if size is not None:
                    # largest index without a flush
                    nf = c_not(cond)
                    K = None
                    for q in range(0, 3):
                        pass
                    K = upper(nf, ina[0])
                    if K is None:
                        self.undec(x.at, 'flush condition %s' % show_cond(cond))
                    elif K + 2 * st['m'] - 1 > size - 1:
                        self.viol(x.at, 'the buffer holds %s words but up to %s may be stored before a flush' % (size, K + 2 * st['m']))
                self.chain(b, st, x)
                st['checked'] = True
            else:
                self.undec(x.at, 'buffer counter not recognised')
            return
        # closing flush
        cnt = x.count
        if cond is not True and cond != c_not(c_le0(cnt, True)):
            # guard other than count>0
            K = upper(c_not(cond), cnt.single_atom()) if cnt.single_atom() is not None else None
            (self.viol if K is not None and K > 0 else self.undec)(x.at, 'flush under condition %s' % show_cond(cond))
        a = cnt.single_atom()
        if len(ina) == 1:
            if not st.get('checked'):
                # no overflow flush: the loop could run past the buffer
                pass
            _, _, lid, k = it.loopinfo[ina[0]]
            if not (a is not None and a.kind == 'lout' and a.args[1] == k):
                if st['loop'] == loops and cnt == idx + 1:
                    pass
                else:
                    self.viol(x.at, 'closing flush writes %s words, the buffer holds %s' % (show(cnt), show_path(k)))
        elif not ina:
            pass
        self.rec.ok(self.rule)
        del self.pending[x.buf]

    def chain(self, b, st, x):
        """the counter is 0 when the outermost loop of the nest starts"""
        for _ in range(8):
            if b is None:
                self.undec(x.at, 'initial buffer counter unknown')
                return
            if zeroish(b):
                return
            a = b.single_atom()
            if a is not None and a.kind == 'in' and a in self.it.loopinfo:
                b = self.it.loopinfo[a][0]
                continue
            if a is not None and a.kind == 'ite':
                # reset under n>0 of an enclosing iteration
                xs = [y for y in a.args[1:] if not zeroish(y)]
                if len(xs) == 1 and xs[0].single_atom() is not None and xs[0].single_atom().kind == 'lout':
                    return
            break
        (self.viol if b.is_const() else self.undec)(x.at, 'buffer counter is %s when the loop starts' % show(b))


def upper(c, a):
    """K with c => a <= K (c a single integer literal), or None"""
    if not (isinstance(c, tuple) and c[0] == 'lit' and c[1].kind == 'le0'):
        return None
    p = c[1].args[0] if c[2] else -c[1].args[0] + 1
    d = p - P(a)
    return -d.const() if d.is_const() else None


class Mu:
    """canonical form of loop-carried values so that two functions can be compared"""

    def __init__(self, it):
        self.it = it
        self.memo = {}

    def __call__(self, v):
        return self.canon(v, ())

    def canon(self, v, stack):
        m = {}
        for a in deep(v):
            if a.kind == 'in':
                m[a] = P(self.inatom(a, stack))
            elif a.kind == 'lout':
                m[a] = P(self.loutatom(a, stack))
        return subst(v, m) if m else v

    def inatom(self, a, stack):
        if a in stack:
            return atom('mu', 'self', len(stack) - stack.index(a))
        if a not in self.it.loopinfo:
            return a
        b, o, lid, k = self.it.loopinfo[a]
        if b is None:
            return a
        if o == P(a):
            q = self.canon(b, stack).single_atom()
            if q is not None:
                return q
        return atom('mu', 'in', self.canon(b, stack), self.canon(o, stack + (a,)))

    def loutatom(self, a, stack):
        lid, k = a.args
        for x, (b, o, l2, k2) in self.it.loopinfo.items():
            if l2 == lid and k2 == k and b is not None:
                return atom('mu', 'out', self.canon(b, stack), self.canon(o, stack + (x,)))
        return a


def expand_text(items):
    """text items -> one item per line end (list of (string, args) lines, trailing partial kept)"""
    out = []
    part = None
    for x in items:
        if x.kind == 'text':
            if x.fmt is None:
                out.append(Item('opaque', x.ev, name='fprintf'))
                continue
            s = x.fmt
            na = 0
            cur = part[0] if part else ''
            args = part[1] if part else ()
            for ch in s:
                cur += ch
                if ch == '\n':
                    n = nargs(cur) - len(args)
                    out.append(Item('line', x.ev, expect=None, text=cur, args=args + tuple(x.args[na:na + n])))
                    na += n
                    cur, args = '', ()
            part = (cur, args + tuple(x.args[na:])) if cur else None
            if part:
                out.append(Item('partial', x.ev, text=cur))
                part = None
        else:
            if x.sub or getattr(x, 'els', None):
                y = Item(x.kind, x.ev)
                y.__dict__.update(x.__dict__)
                y.sub = expand_text(x.sub)
                if getattr(x, 'els', None):
                    y.els = expand_text(x.els)
                x = y
            out.append(x)
    return out


def nargs(fmt):
    return fmt.replace('%%', '').count('%')


def fold_label(fmt, args):
    """a printf format with constant arguments -> the text it prints"""
    try:
        vals = tuple(int(a.const()) if isinstance(a, Poly) else a for a in args)
        return fmt % vals if vals else fmt.replace('%%', '%')
    except Exception:
        return None


class Align:
    """item-by-item agreement of a written and a read stream"""

    def __init__(self, rec, wit, rit, wname, rname, rule='stream'):
        self.rec = rec
        self.wmu, self.rmu = Mu(wit), Mu(rit)
        self.rit = rit
        self.wname, self.rname = wname, rname
        self.rule = rule
        self.env = {}              # reader atom -> writer value
        self.recs = []             # aligned records (loops, reader loc, writer value)
        self.rloc = {}
        self.pairs = set()
        self.headers = {}

    def bad(self, x, y, msg):
        a = '%s:%s' % (x.at, self.wname) if x is not None else ''
        b = '%s:%s' % (y.at, self.rname) if y is not None else ''
        self.rec.bad(self.rule, (a + ' / ' + b).strip(' /'), msg)

    def undec(self, x, y, msg):
        self.rec.undecided(self.rule, (x or y).at + ':' + self.wname, msg)

    def r2w(self, v, lm):
        """reader value in terms of writer quantities"""
        v = self.rmu(v)
        for _ in range(4):
            m = {}
            for a in deep(v):
                if a in lm:
                    m[a] = lm[a]
                elif a in self.env:
                    m[a] = self.env[a]
                elif a.kind == 'fn' and a.args[0] == 'input' and a.args[1] in self.env:
                    w, vs = self.env[a.args[1]]
                    idx = a.args[2:]
                    mm = {}
                    for q, t in zip(vs, idx):
                        x = q.single_atom()
                        if x is not None:
                            mm[x] = t
                    m[a] = subst(w, mm)
            if not m:
                break
            n = subst(v, m)
            if n == v:
                break
            v = n
        return v

    def same(self, wv, rv, lm):
        a, b = self.wmu(wv), self.r2w(rv, lm)
        r = sym.equal_values(a, b)
        if r is False and any(x.kind in ('in', 'lout', 'mu', 'unk') for x in deep(a) + deep(b)):
            return None
        return r

    def seq(self, W, R, lm, loops=()):
        """True while alignment can go on"""
        i = j = 0
        while i < len(W) or j < len(R):
            x = W[i] if i < len(W) else None
            y = R[j] if j < len(R) else None
            if x is None or y is None:
                z = x or y
                self.bad(x, y, 'the %s has an extra item: %s' % ('writer' if x else 'reader', z.render().split('\n')[0].strip()))
                return False
            if not self.item(x, y, lm, loops):
                return False
            i += 1
            j += 1
        return True

    def item(self, x, y, lm, loops):
        if x.kind == 'opaque' or y.kind == 'opaque':
            if self.special(x, y):
                self.rec.ok(self.rule)
                return True
            self.undec(x, y, 'item not understood: %s / %s' % (x, y))
            return False
        if x.kind == 'line' and y.kind == 'line':
            if y.expect is not None:
                txt, n = y.expect
                if isinstance(txt, tuple) and txt and txt[0] == 'fmt':
                    txt = fold_label(txt[1], txt[2])
                w = fold_label(x.text, x.args)
                if not isinstance(txt, str) or w is None:
                    self.undec(x, y, 'label')
                else:
                    k = int(n.const()) if isinstance(n, Poly) and n.is_const() else None
                    t = txt[:k] if k is not None else txt
                    if w[:len(t)] != t or (k is not None and k > len(txt) and w != txt):
                        self.bad(x, y, 'the reader expects a line starting with %r, the writer writes %r' % (t, w))
                        return False
                    self.rec.ok(self.rule, 'label ' + t)
            else:
                self.rec.ok(self.rule)
            return True
        if x.kind == 'loop' and y.kind == 'loop':
            return self.loop(x, y, lm, loops)
        if x.kind == 'if' and y.kind == 'if':
            return self.cond(x, y, lm, loops)
        if x.kind == 'rec' and y.kind == 'rec':
            return self.record(x, y, lm, loops)
        self.bad(x, y, 'the writer has %s where the reader has %s' % (x.render().split('\n')[0].strip(), y.render().split('\n')[0].strip()))
        return False

    def special(self, x, y):
        """header <-> skip loop; opaque pairs enrolled by the caller"""
        if x.kind == 'opaque' and y.kind == 'opaque':
            return (x.name, y.name) in self.pairs
        if x.kind == 'opaque' and y.kind == 'loop':
            end = self.headers.get(x.name)
            if end and y.var is None and y.sub and all(z.kind == 'line' for z in y.sub):
                for a in strcmps(y.cond):
                    t = strlit(a.args[2]) if not isinstance(a.args[2], str) else a.args[2]
                    if t == end:
                        return True
        return False

    def cond(self, x, y, lm, loops):
        m = dict(lm)
        rc = self.cmap(y.cond, lm)
        wc = self.wcmap(x.cond)
        if wc == rc:
            return self.seq(x.sub, y.sub, lm, loops) and self.seq(x.els, y.els, lm, loops)
        if wc == c_not(rc):
            return self.seq(x.sub, y.els, lm, loops) and self.seq(x.els, y.sub, lm, loops)
        self.undec(x, y, 'conditions %s / %s' % (show_cond(wc)[:100], show_cond(rc)[:100]))
        return False

    def cmap(self, c, lm):
        return mapcond(c, lambda v: self.r2w(v, lm))

    def wcmap(self, c):
        return mapcond(c, self.wmu)

    def loop(self, x, y, lm, loops):
        if x.var is None or y.var is None or x.lo is None or y.lo is None:
            self.undec(x, y, 'loop bounds')
            return False
        # filtered list: the writer skips elements, the reader reads exactly their number
        if len(x.sub) == 1 and x.sub[0].kind == 'if' and not x.sub[0].els and not any(z.kind == 'if' for z in y.sub):
            from .interp import red
            c = x.sub[0].cond
            n = red('sum', x.var, x.lo, x.hi, ite(c, ONE, ZERO))
            trip = y.hi - y.lo + 1
            r = self.same(n, trip, lm)
            if r is False:
                self.bad(x, y, 'the writer writes the elements with %s, the reader reads %s of them' % (show_cond(c), show(self.r2w(trip, lm))))
                return False
            if r is None:
                self.undec(x, y, 'filtered loop')
                return False
            m = dict(lm)
            m[y.var] = P(x.var)
            return self.seq(x.sub[0].sub, y.sub, m, loops + ((x, y),))
        for a, b, w in ((x.lo, y.lo, 'first'), (x.hi, y.hi, 'last')):
            r = self.same(a, b, lm)
            if r is False:
                self.bad(x, y, 'the %s index written is %s, the %s index read is %s' % (w, show(a), w, show(self.r2w(b, lm))))
                return False
            if r is None:
                self.undec(x, y, 'loop bounds %s / %s' % (show(a), show(b)))
        if bool(x.desc) != bool(y.desc):
            self.bad(x, y, 'the loop directions differ')
            return False
        m = dict(lm)
        m[y.var] = P(x.var)
        self.rec.ok(self.rule)
        return self.seq(x.sub, y.sub, m, loops + ((x, y),))

    def record(self, x, y, lm, loops):
        if x.size is None or y.size is None:
            self.undec(x, y, 'size')
            return False
        if x.size != y.size:
            self.bad(x, y, 'the writer writes a word of %s bytes, the reader reads %s bytes' % (show(x.size), show(y.size)))
            return False
        r = self.same(x.count, y.count, lm)
        if not r:
            (self.bad if r is False else self.undec)(x, y, 'count written %s, count read %s' % (show(x.count), show(y.count)))
            return False
        # where the reader puts the word
        yl = y.loc
        seq = y.ev.seq
        if yl is not None and isinstance(yl[0], str) and yl[0].startswith('%') and x.count == ONE:
            yl = self.rloc.get(seq, yl)
        wv = x.val
        if wv is None and x.loc is not None:
            wv = P(atom('ld', x.loc, 0))
        wv = self.wmu(wv)
        if yl is None:
            self.undec(x, y, 'destination')
            return True
        want = P(atom('ld', yl, 0))
        local = isinstance(yl[0], str) and yl[0].startswith('%')
        # register what the reader's value stands for
        self.env[atom('ld', y.loc, ('c', seq))] = wv
        idx = tuple(v for k, v in (y.loc[1] if y.loc else ()) if k == 'i')
        vs = []
        for v in idx:
            vs.append(self.r2w(v, lm))
        self.env[seq] = (wv, vs)
        got = self.r2w(want, lm)
        self.recs.append((loops, x, y, yl, wv, got))
        if local:
            return True
        r = sym.equal_values(wv, got)
        if r:
            self.rec.ok(self.rule, show(got))
        elif self.derived(x, y, wv, got):
            self.rec.ok(self.rule, show(got))
        elif r is None:
            self.undec(x, y, 'written %s, read into %s' % (show(wv), show(got)))
        else:
            self.bad(x, y, 'the writer writes %s, the reader stores it into %s' % (show(wv), show(got)))
        return True

    def derived(self, x, y, wv, got):
        """the number of written list elements replaces the length of the list"""
        a = wv.single_atom()
        if a is not None and a.kind == 'red' and a.args[0] == 'sum' and a.args[2] == ZERO and a.args[3] == got - 1:
            g = a.args[4].single_atom()
            if g is not None and g.kind == 'ite' and g.args[1:] == (ONE, ZERO):
                return True
        return False


def mapcond(c, f):
    if isinstance(c, bool):
        return c
    if c[0] == 'lit':
        a = c[1]
        n = subst(P(a), {}) if False else None
        args = tuple(f(z) if isinstance(z, Poly) else z for z in a.args)
        if a.kind == 'le0':
            r = c_le0(args[0], args[1] if len(args) > 1 else False)
        elif a.kind == 'eq0':
            r = sym.c_eq0(args[0], args[1] if len(args) > 1 else False)
        else:
            r = ('lit', atom(a.kind, *args), True)
        return r if c[2] else c_not(r)
    if c[0] in ('and', 'or'):
        xs = c[1] if isinstance(c[1], (tuple, frozenset, list)) and len(c) == 2 else c[1:]
        g = sym.c_and if c[0] == 'and' else sym.c_or
        r = None
        for z in xs:
            q = mapcond(z, f)
            r = q if r is None else g(r, q)
        return r
    return c


def reader_targets(it):
    """input words read into a local first and then stored: seq -> final path"""
    out = {}
    for lo, g, e in flatten(it.events):
        if e.k == 'store' and isinstance(e.val, Poly):
            a = e.val.single_atom()
            if a is not None and a.kind == 'ld' and len(a.args) > 1 and isinstance(a.args[1], tuple) and a.args[1][0] == 'c':
                out.setdefault(a.args[1][1], e.path)
    return out
