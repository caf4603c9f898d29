"""Message-passing ghost-zone exchange: generic rule set.

The exchange routine is summarised (packing/unpacking helpers inlined) once per
neighbour scenario.  A message received from the left neighbour with tag T is
the message this same program sends to its right neighbour with tag T; the
payload word at offset o of the one is the payload word at offset o of the
other.  Every ghost location must then equal the neighbour's interior
location it overlaps.
"""
from .front import AnalysisError, DBL
from .interp import Interp, flatten, prove_ge0
from .spec import *
from . import sym
from .check import has_opaque
from .sym import P, S, atom, subst, c_and, c_not, show

EFFECTS = {None: [], 'MPI_Irecv': [], 'MPI_Isend': [], 'MPI_Wait': [], 'MPI_Waitall': [],
           'MPI_Waitany': [2], 'MPI_Recv': [], 'MPI_Send': []}
ROOT = ('#0', 0, 'Grid', 0)
SCEN = {'both': (True, True), 'left': (True, False), 'right': (False, True), 'none': (False, False)}


def gl(*e):
    return ld(*(ROOT + e))


def gp(*e):
    return path(*(ROOT + e))


ST = [gl('is'), gl('js'), gl('ks')]
EN = [gl('ie'), gl('je'), gl('ke')]


def ids(idfmt, d):
    return gl(idfmt % ('l', d + 1)), gl(idfmt % ('r', d + 1))


def nsubst(dims=3):
    """Nx[d] -> e-s+1; inactive directions hold plane 0 only"""
    out = {}
    for d in range(3):
        if d < dims:
            out[gl('Nx', d).single_atom()] = EN[d] - ST[d] + 1
        else:
            out[gl('Nx', d).single_atom()] = P(1)
            out[ST[d].single_atom()] = P(0)
            out[EN[d].single_atom()] = P(0)
    return out


def addr_key(v):
    """(path, const offset) of a pointer value"""
    off = P(0)
    hit = None
    for m, c in v.t.items():
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = sym.atom_by_id(m[0][0])
            if a.kind in ('base', 'addr') and hit is None:
                hit = a
                continue
        off = off + sym.Poly({m: c})
    if hit is None:
        return None
    return hit.args[0], off, hit.kind


class Scn:
    pass


def scenario(prog, fname, prefer, idfmt, d, dims, scen, extra=()):
    facts = grid_facts(dims, ROOT)
    for q in range(3):
        l, r = ids(idfmt, q)
        if q == d:
            hl, hr = SCEN[scen]
        else:
            hl = hr = False
        facts.append(le(0, l) if hl else le(l, -1))
        facts.append(le(0, r) if hr else le(r, -1))
    it = Interp(prog, effects=EFFECTS, assume=facts + list(extra))
    it.run(fname, prefer)
    s = Scn()
    s.it = it
    s.evs = list(flatten(it.events))
    s.d, s.dims, s.scen = d, dims, scen
    l, r = ids(idfmt, d)
    sides = {l: 'L', r: 'R'}
    s.sends, s.recvs, s.waits, s.bc = [], [], [], []
    s.fail = None
    for n, (loops, guards, e) in enumerate(s.evs):
        if e.k != 'call':
            continue
        if e.name in ('MPI_Isend', 'MPI_Irecv', 'MPI_Send', 'MPI_Recv'):
            if loops or guards:
                s.fail = '%s is conditional or in a loop at %s' % (e.name, e.coord)
                continue
            k = addr_key(e.args[0])
            side = sides.get(e.args[3])
            m = Scn()
            m.n, m.buf, m.cnt, m.typ, m.side, m.tag, m.comm = n, k, e.args[1], e.args[2], side, e.args[4], e.args[5]
            m.rq = addr_key(e.args[6]) if e.name[4] == 'I' else None
            m.ev = e
            m.partner = e.args[3]
            (s.sends if 'end' in e.name else s.recvs).append(m)
        elif e.name in ('MPI_Wait', 'MPI_Waitall', 'MPI_Waitany'):
            s.waits.append((n, e, loops, guards))
        elif e.name is None and e.fnval is not None:
            a = e.fnval.single_atom()
            if a is not None and a.args and isinstance(a.args[0], tuple) and a.args[0][1]:
                s.bc.append((n, a.args[0][1][-1][1], e))
    return s


def orders(s):
    """completion orders of the Waitany calls: list of (facts, {event index: request offset})"""
    wa = [(n, e) for n, e, l, g in s.waits if e.name == 'MPI_Waitany']
    if not wa:
        return [([], {})]
    vals = []
    for n, e in wa:
        k = addr_key(e.args[2])
        vals.append(P(atom('ld', k[0], ('c', e.seq))))
    # each Waitany completes one not yet completed request of its array
    out = []
    cnt = wa[0][1].args[0]
    if not cnt.is_const():
        return None
    import itertools
    m = int(cnt.const())
    for perm in itertools.permutations(range(m), len(wa)):
        f = [eq(v, x) for v, x in zip(vals, perm)]
        f += [ne(v, y) for v, x in zip(vals, perm) for y in range(m) if y != x]
        comp = {n: x for (n, e), x in zip(wa, perm)}
        out.append((f, comp))
    return out


def completed_before(s, comp, n, rq):
    """is request rq completed by a wait before event n?"""
    if rq is None:
        return True
    for w, e, loops, guards in s.waits:
        if w >= n:
            break
        if guards or loops:
            continue
        if e.name == 'MPI_Wait':
            k = addr_key(e.args[0])
            if k and k[0] == rq[0] and k[1] == rq[1]:
                return True
        elif e.name == 'MPI_Waitall':
            k = addr_key(e.args[1])
            if k and k[0] == rq[0]:
                x = rq[1] - k[1]
                if x.is_const() and e.args[0].is_const() and 0 <= x.const() < e.args[0].const():
                    return True
        elif e.name == 'MPI_Waitany':
            k = addr_key(e.args[1])
            if k and k[0] == rq[0] and w in comp and rq[1] - k[1] == P(comp[w]):
                return True
    return False


def buf_store(e, buf):
    """offset if store event e writes buffer buf=(path,off,kind)"""
    p = e.path
    b = buf[0]
    if p[0] == b[0] and len(p[1]) == len(b[1]) + 1 and p[1][:len(b[1])] == b[1]:
        return p[1][-1][1] - buf[1]
    return None


def buf_load(v, buf):
    """offset if value v is exactly a read of buffer buf"""
    a = v.single_atom()
    if a is None or v != P(a) or a.kind != 'ld':
        return None
    p = a.args[0]
    b = buf[0]
    if p[0] == b[0] and len(p[1]) == len(b[1]) + 1 and p[1][:len(b[1])] == b[1]:
        return p[1][-1][1] - buf[1]
    return None


def solve_loops(loops, have, target):
    """substitution of loop variables such that path have == target"""
    if have[0] != target[0] or len(have[1]) != len(target[1]):
        return None
    sub = {}
    lvs = {l.var for l in loops if l.var is not None}
    for (k1, v1), (k2, v2) in zip(have[1], target[1]):
        if k1 != k2:
            return None
        if k1 == 'f':
            if v1 != v2:
                return None
            continue
        v1 = subst(v1, sub)
        if v1 == v2:
            continue
        hit = None
        for a in v1.atoms():
            if a in lvs:
                hit = a
                break
        if hit is None:
            return None
        c = v1.t.get(((hit.id, 1),))
        if c not in (1, -1):
            return None
        rest = v1 - P(hit) * c
        if any(a in lvs for a in rest.atoms()):
            return None
        sub[hit] = (v2 - rest) * c
    return sub


def in_ranges(it, loops, sub, facts):
    """True/False/None: substituted loop variables lie inside the loop bounds"""
    def go():
        ok = True
        for l in loops:
            if l.var is None or l.lo is None:
                return None
            v = sub.get(l.var)
            if v is None:
                continue
            lo, hi = subst(l.lo, sub), subst(l.hi, sub)
            for q in (v - lo, hi - v):
                if not it.prove_ge0(q):
                    if it.prove_ge0(-q - 1):
                        return False
                    ok = None
        return ok
    return with_facts(it, facts, go)


def pack_stores(s, m):
    """stores into the send buffer of message m, before the send"""
    out = []
    for n, (loops, guards, e) in enumerate(s.evs):
        if e.k == 'store' and n < m.n:
            o = buf_store(e, m.buf)
            if o is not None:
                out.append((n, loops, guards, e, o))
    return out


def layout(s, m):
    """proves the packed words occupy [0,total) bijectively; returns (total, None) or (None, reason)"""
    st = pack_stores(s, m)
    groups = []
    for n, loops, guards, e, o in st:
        if guards:
            return None, 'conditional packing at ' + e.coord
        key = tuple(id(l) for l in loops)
        if groups and groups[-1][0] == key:
            groups[-1][2].append((e, o))
        else:
            groups.append((key, loops, [(e, o)]))
    pos = P(0)
    ns = nsubst(s.dims)
    for key, loops, items in groups:
        mct = len(items)
        lin = P(0)
        size = P(1)
        for l in loops:
            if l.var is None or l.lo is None:
                return None, 'loop without bounds at ' + l.coord
            n = subst(l.hi - l.lo + 1, ns)
            idx = P(l.var) - l.lo
            if l.desc:
                idx = l.hi - P(l.var)
            lin = lin * n + idx
            size = size * n
        offs = sorted(range(mct), key=lambda q: q)
        seen = set()
        for e, o in items:
            r = subst(o, ns) - subst(pos + lin * mct, ns)
            r = subst(r, ns)
            if not r.is_const():
                return None, 'packed offset at %s is not sequential' % e.coord
            seen.add(int(r.const()))
        if seen != set(range(mct)):
            return None, 'packed offsets at %s overlap or leave holes' % items[0][0].coord
        pos = subst(pos + size * mct, ns)
    return pos, None


def source_offset(s, m, target, facts):
    """offset(s) in the send buffer at which the contents of Grid location target travel"""
    res = []
    for n, loops, guards, e, o in pack_stores(s, m):
        a = e.val.single_atom()
        if a is None or e.val != P(a) or a.kind != 'ld':
            continue
        sub = solve_loops(loops, a.args[0], target)
        if sub is None:
            continue
        r = in_ranges(s.it, loops, sub, facts)
        if r is False:
            continue
        res.append((subst(o, sub), r, e))
    return res


def corner_refute(s, m, target, off, ext, ns):
    """evaluate at the corners of the ghost region: is the required location
    missing from the message, or at another offset?"""
    import itertools
    for pt in itertools.product(*[x[1] for x in ext]):
        asg = {a: v for (a, _), v in zip(ext, pt)}
        tg = (target[0], tuple((k, subst(v, asg) if k == 'i' else v) for k, v in target[1]))
        so = source_offset(s, m, tg, [le(3, NG)])
        if not so:
            return 'neighbour location %s is not in the message' % sym.show_path(tg)
        if all(r for o, r, e in so):
            o1, o2 = subst(subst(off, asg), ns), subst(so[-1][0], ns)
            if o1 != o2 and not has_opaque(o1 - o2):
                return 'location %s is packed at an offset that differs by %s' % (sym.show_path(tg), show(o1 - o2)[:200])
    return None


def sender_rename(d):
    """the sender's extent along d is its own"""
    return {ST[d].single_atom(): S('start_of_neighbour'), EN[d].single_atom(): S('end_of_neighbour')}


def check(rec, prog, fname, prefer, idfmt, d, dims, fields, bcfmt, has_bc=True):
    """fields: list of (name, pathfn(kji)->path, comp) comp = normal axis of a face field or None"""
    ns = nsubst(dims)
    sc = {k: scenario(prog, fname, prefer, idfmt, d, dims, k) for k in SCEN}
    for s in sc.values():
        rec.add_stats(s.it)
    where = '%s' % fname
    rec.fn(fname)
    # -- structure of messages, all scenarios -----------------------------
    ok = True
    for k, s in sc.items():
        if s.fail:
            rec.undecided('messages', where, s.fail)
            ok = False
            continue
        hl, hr = SCEN[k]
        want = ([('L')] if hl else []) + (['R'] if hr else [])
        for nm, lst in (('sent to', s.sends), ('received from', s.recvs)):
            for m in lst:
                if m.side is None:
                    rec.bad('partner', '%s:%s' % (m.ev.coord, fname), 'x%d message %s rank %s which is not the x%d neighbour (%dD, %s)' % (d + 1, nm, show(m.partner), d + 1, dims, k))
                    ok = False
            got = sorted(m.side for m in lst if m.side)
            if got != sorted(want) and ok:
                rec.bad('partner', where, 'x%d exchange with neighbours %s: messages %s %s (%dD)' % (d + 1, want, nm, got, dims))
                ok = False
            else:
                rec.ok('partner')
        # function that were inlined
        for loops, guards, e in s.evs:
            if e.k == 'store' and e.fn:
                rec.fn(e.fn)
    if not ok:
        return
    # -- matching ---------------------------------------------------------
    opp = {'L': 'R', 'R': 'L'}
    totals = {}
    for k, s in sc.items():
        for m in s.sends:
            tot, why = layout(s, m)
            if tot is None:
                rec.undecided('layout', '%s:%s' % (m.ev.coord, fname), why)
            else:
                cnt = subst(m.cnt, ns)
                if cnt == tot:
                    rec.ok('count', '%s sends %s words' % (m.ev.coord, show(cnt)[:80]))
                elif not has_opaque(cnt) and not s.it.prove_ge0(cnt - tot):
                    rec.bad('count', '%s:%s' % (m.ev.coord, fname), 'x%d (%dD, %s): %s words packed but %s sent' % (d + 1, dims, k, show(tot), show(cnt)))
                else:
                    rec.undecided('count', '%s:%s' % (m.ev.coord, fname), 'count %s total %s' % (show(cnt), show(tot)))
        for k2, s2 in sc.items():
            for m in s.recvs:
                for m2 in s2.sends:
                    if m2.side != opp[m.side]:
                        continue
                    w = '%s:%s' % (m.ev.coord, fname)
                    rec.expect(m.tag == m2.tag, 'tag', w, 'x%d receive from %s uses tag %s, matching send (%s) uses %s' % (d + 1, m.side, show(m.tag), m2.ev.coord, show(m2.tag)))
                    c1, c2 = subst(m.cnt, ns), subst(m2.cnt, ns)
                    if c1 == c2:
                        rec.ok('count')
                    elif has_opaque(c1 - c2) or s.it.prove_ge0(c1 - c2):
                        rec.undecided('count', w, 'receive posted for %s words, send carries %s' % (show(c1)[:200], show(c2)[:200]))
                    else:
                        rec.bad('count', w, 'x%d receive posted for %s words, matching send carries %s' % (d + 1, show(c1), show(c2)))
                    rec.expect(m.typ == m2.typ and m.comm == m2.comm, 'type', w, 'datatype/communicator mismatch')
        # distinct tags / buffers / requests
        for lst in (s.sends, s.recvs):
            for a in range(len(lst)):
                for b in range(a):
                    rec.expect(lst[a].buf is None or lst[b].buf is None or lst[a].buf[:2] != lst[b].buf[:2], 'buffers', '%s:%s' % (lst[a].ev.coord, fname), 'two messages share one buffer')
                    rec.expect(lst[a].rq is None or lst[b].rq is None or lst[a].rq[:2] != lst[b].rq[:2], 'buffers', '%s:%s' % (lst[a].ev.coord, fname), 'two messages share one request')
    # -- completion and data flow ----------------------------------------
    for k, s in sc.items():
        od = orders(s)
        if od is None:
            rec.undecided('completion', where, 'unbounded Waitany')
            continue
        for facts, comp in od:
            # reads of receive buffers after completion
            for n, (loops, guards, e) in enumerate(s.evs):
                if e.k != 'store':
                    continue
                for m in s.recvs:
                    if m.buf is None or buf_load_any(e.val, m.buf) is False:
                        continue
                    if excluded(s.it, facts, guards):
                        continue
                    rec.expect(n > m.n and completed_before(s, comp, n, m.rq), 'completion', '%s:%s' % (e.coord, fname),
                               'x%d receive buffer read before the receive from %s has completed (%s, order %s)' % (d + 1, m.side, k, sorted(comp.items())))
                for m in s.sends:
                    if m.buf is None or n < m.n or buf_store(e, m.buf) is None:
                        continue
                    rec.expect(completed_before(s, comp, n, m.rq), 'completion', '%s:%s' % (e.coord, fname),
                               'x%d send buffer overwritten while its send may be in progress (%s)' % (d + 1, k))
            for m in s.sends + s.recvs:
                rec.expect(completed_before(s, comp, 1 << 60, m.rq), 'completion', '%s:%s' % (m.ev.coord, fname),
                           'x%d request never completed (%s)' % (d + 1, k))
            dataflow(rec, sc, s, fname, d, dims, fields, facts, ns)
        # physical conditions
        if has_bc:
            hl, hr = SCEN[k]
            want = []
            for q in range(dims):
                for side, has in (('i', hl), ('o', hr)):
                    if q != d or not has:
                        want.append(bcfmt % (side, q + 1))
            got = [x[1] for x in s.bc]
            rec.expect(sorted(got) == sorted(want), 'bc-called', where, 'x%d %s %dD: boundary conditions applied %s, required %s' % (d + 1, k, dims, got, want))
            axes = [int(x.rstrip('_GBCFun')[-1]) for x in got]
            rec.expect(axes == sorted(axes), 'order', where, 'boundary directions are applied in order %s' % got)
            # messages between the lower and the higher directions
            for m in s.sends + s.recvs:
                for n, nm, e in s.bc:
                    q = int(nm[2]) - 1
                    if q < d and n > m.n and m in s.sends or q > d and n < last_unpack(s):
                        rec.bad('order', '%s:%s' % (e.coord, fname), '%s applied out of x1-x2-x3 order with respect to the x%d exchange' % (nm, d + 1))


def last_unpack(s):
    r = -1
    for n, (loops, guards, e) in enumerate(s.evs):
        if e.k == 'store' and any(m.buf and buf_load_any(e.val, m.buf) for m in s.recvs):
            r = n
    return r


def buf_load_any(v, buf):
    b = buf[0]
    for a in v.atoms():
        if a.kind == 'ld':
            p = a.args[0]
            if p[0] == b[0] and len(p[1]) == len(b[1]) + 1 and p[1][:len(b[1])] == b[1]:
                return True
    return False


def excluded(it, facts, guards):
    def go():
        return any(it.decide(c) is False for c in guards)
    return with_facts(it, facts, go)


def dataflow(rec, sc, s, fname, d, dims, fields, ofacts, ns):
    kji = [S('i'), S('j'), S('k')]
    g_ = S('g')
    hl, hr = SCEN[s.scen]
    for inner, has in ((True, hl), (False, hr)):
        if not has:
            continue
        side = 'L' if inner else 'R'
        m = [x for x in s.recvs if x.side == side][0]
        if m.buf is None:
            rec.undecided('ghost-value', fname, 'receive buffer not identified')
            continue
        for name, pf, comp in fields:
            gmax = NG
            if comp == d:
                gmax = NG - 1
                dst = ST[d] - g_ if inner else EN[d] + 1 + g_
                src = EN[d] + 1 - g_ if inner else ST[d] + g_
            else:
                dst = ST[d] - g_ if inner else EN[d] + g_
                src = EN[d] + 1 - g_ if inner else ST[d] + g_ - 1
            facts = [le(1, g_), le(g_, gmax)]
            ext = [(g_.single_atom(), (P(1), P(gmax)))]
            dc, scd = [None] * 3, [None] * 3
            for q in range(3):
                if q == d:
                    dc[q], scd[q] = dst, src
                elif q >= dims:
                    dc[q] = scd[q] = ST[q]
                else:
                    dc[q] = scd[q] = kji[q]
                    lo, hi = (ST[q] - NG, EN[q] + NG) if q < d else (ST[q], EN[q])
                    if comp == q and q < d:
                        lo = lo + 1
                    if comp == q and q > d:
                        hi = hi + 1
                    facts += [le(lo, kji[q]), le(kji[q], hi)]
                    ext.append((kji[q].single_atom(), (lo, hi)))
            tgt = pf(dc)
            got = post(s.it, tgt, DBL, facts + ofacts)
            w = '%s:%s' % (m.ev.coord.split(':')[0], fname)
            off = buf_load(got, m.buf)
            desc = 'x%d %s %dD ghost %s of %s side' % (d + 1, s.scen, dims, sym.show_path(tgt), side)
            if off is None:
                if got == P(atom('ld', tgt, 0)):
                    rec.bad('ghost-value', w, desc + ' is never filled from the message')
                elif any(buf_load(got, x.buf) is not None for x in s.recvs if x is not m):
                    rec.bad('ghost-value', w, desc + ' is filled from the other neighbour\'s message')
                else:
                    rec.undecided('ghost-value', w, desc + ' = ' + show(got)[:200])
                continue
            # the neighbour's send
            opp = 'R' if side == 'L' else 'L'
            for k2, s2 in sc.items():
                for m2 in s2.sends:
                    if m2.side != opp or m2.buf is None:
                        continue
                    so = source_offset(s2, m2, pf(scd), facts)
                    good = [x for x in so if x[1]]
                    if not good:
                        if so:
                            c = corner_refute(s2, m2, pf(scd), off, ext, ns)
                            if c:
                                rec.bad('ghost-value', '%s:%s' % (so[-1][2].coord, fname), desc + ': ' + c)
                            else:
                                rec.undecided('ghost-value', w, desc + ': packing range undecided')
                        else:
                            packs = pack_stores(s2, m2)
                            if packs and all(x[3].val.single_atom() is not None for x in packs) and not any(x[2] for x in packs):
                                rec.bad('ghost-value', '%s:%s' % (m2.ev.coord, fname), desc + ': neighbour location %s is not in the message it sends' % sym.show_path(pf(scd)))
                            else:
                                rec.undecided('ghost-value', w, desc + ': packing not understood')
                        continue
                    # normal extents of the two grids are independent
                    o1 = subst(off, ns)
                    o2 = subst(good[-1][0], ns)
                    if has_opaque(o1 - o2):
                        rec.undecided('ghost-value', w, desc + ': offsets not resolved')
                    elif o1 != o2:
                        a = show(o1 - o2)
                        rec.bad('ghost-value', '%s:%s' % (good[-1][2].coord, fname), desc + ': word read at offset differs by %s from where the neighbour packed %s' % (a[:300], sym.show_path(pf(scd))))
                    else:
                        # independence from the extents along d
                        if {ST[d].single_atom(), EN[d].single_atom()} & set(o1.atoms()):
                            rec.undecided('ghost-value', w, desc + ': offset depends on grid extent')
                        else:
                            rec.ok('ghost-value', desc)


# ------------------------------------------------------------ neighbour ranks
MY = [S('myL'), S('myM'), S('myN')]


def my_index(it, n, args, types):
    """stand-in for the grid-index lookup: yields symbolic block coordinates"""
    for v, s in zip(args[2:5], MY):
        k = addr_key(v)
        if k is None:
            return None
        it.store(k[0], ('int',), s, n)
    return P(0), ('int',)


def cases(v, gds=()):
    """split a value into guarded leaves at its top-level conditionals"""
    a = v.single_atom()
    if a is not None and a.kind == 'ite' and v == P(a):
        return cases(a.args[1], gds + (a.args[0],)) + cases(a.args[2], gds + (c_not(a.args[0]),))
    return [(gds, v)]


def gdata_index(v):
    """(n,m,l) indices if v is a Domain's GData[n][m][l].ID_Comm_Domain"""
    a = v.single_atom()
    if a is None or v != P(a) or a.kind != 'ld':
        return None
    els = a.args[0][1]
    if len(els) < 5 or els[-1] != ('f', 'ID_Comm_Domain') or els[-5] != ('f', 'GData'):
        return None
    return [els[-2][1], els[-3][1], els[-4][1]], (a.args[0][0], els[:-5])


def neighbours(rec, prog, fname, prefer, idfmt, wrap):
    """stores of neighbour ranks: wrap=False: block my-1/my+1 or none at the
    ends; wrap=True: last/first block"""
    it = Interp(prog, callbacks={'get_myGridIndex': my_index})
    it.run(fname, prefer)
    rec.fn(fname)
    rec.add_stats(it)
    seen = {}
    for loops, guards, e in flatten(it.events):
        if e.k != 'store' or not e.path[1] or e.path[1][-1][0] != 'f':
            continue
        for q in range(3):
            for side in 'lr':
                if e.path[1][-1][1] != idfmt % (side, q + 1):
                    continue
                for gds, v in cases(e.val):
                    w = '%s:%s' % (e.coord, fname)
                    g_all = [c for c in tuple(guards) + gds]

                    def prove(p):
                        n0 = len(it.facts)
                        for c in g_all:
                            if c in (True, False):
                                continue
                            for x in (c[1] if c[0] == 'and' else [c]):
                                it.facts.append(x)
                        try:
                            return it.prove_ge0(p)
                        finally:
                            del it.facts[n0:]
                    gi = gdata_index(v)
                    key = (side, q)
                    if gi is None:
                        if v == P(-1):
                            if wrap:
                                continue
                            # no neighbour: must be the end block
                            dom = domain_of(e.path)
                            ng = P(atom('ld', (dom[0], dom[1] + (('f', 'NGrid'), ('i', P(q)))), 0))
                            good = prove(-MY[q]) if side == 'l' else prove(MY[q] - ng + 1)
                            bad = prove(MY[q] - 1) if side == 'l' else prove(ng - 2 - MY[q])
                            if good:
                                rec.ok('neighbour-rank', '%s: no neighbour at the end of the domain' % e.coord)
                                seen.setdefault(key, set()).add('none')
                            elif bad:
                                rec.bad('neighbour-rank', w, 'x%d %s-neighbour dropped for a block that is not at the end of the domain' % (q + 1, side))
                            else:
                                rec.undecided('neighbour-rank', w, 'condition for "no neighbour" not recognised')
                        else:
                            rec.undecided('neighbour-rank', w, show(v)[:200])
                        continue
                    idx, dom = gi
                    ng = P(atom('ld', (dom[0], dom[1] + (('f', 'NGrid'), ('i', P(q)))), 0))
                    want = list(MY)
                    if wrap:
                        want[q] = ng - 1 if side == 'l' else P(0)
                    else:
                        want[q] = MY[q] - 1 if side == 'l' else MY[q] + 1
                    if [P(x) for x in idx] == want:
                        if not wrap:
                            inside = prove(MY[q] - 1) if side == 'l' else prove(ng - 2 - MY[q])
                            if not inside:
                                rec.bad('neighbour-rank', w, 'x%d %s-neighbour looked up outside the block array' % (q + 1, side))
                                continue
                        rec.ok('neighbour-rank', '%s: block %s' % (e.coord, [show(x) for x in want]))
                        seen.setdefault(key, set()).add('some')
                    elif any(has_opaque(P(x)) for x in idx):
                        rec.undecided('neighbour-rank', w, 'index not resolved')
                    else:
                        rec.bad('neighbour-rank', w, 'x%d %s-neighbour is block %s, required %s' % (q + 1, side, [show(P(x)) for x in idx], [show(x) for x in want]))
    return seen


def domain_of(pth):
    """path of the Domain containing ...Domain[..][..].Grid->field"""
    els = pth[1]
    for n in range(len(els) - 1, -1, -1):
        if els[n] == ('f', 'Grid'):
            return pth[0], els[:n]
    return pth[0], els


def poly_eval(p, asg):
    """numeric value of a polynomial over symbol atoms (max/ite resolved)"""
    r = sym.subst(p, {a: P(v) for a, v in asg.items()})
    return r


def bufsize(rec, prog, fname, initname, prefer, idfmt, d, dims, rootdom='#0'):
    """the allocated buffers hold at least the words exchanged along d"""
    N = [S('N1'), S('N2'), S('N3')]
    V = {path('#0', 0, 'NLevels'): P(1), path('#0', 0, 'DomainsPerLevel', 0): P(1)}
    D = ('#0', 0, 'Domain', 0, 0)
    for q in range(3):
        V[path(*(D + ('NGrid', q)))] = P(2 if q == d else 1)
    for l in range(2):
        c = [0, 0, 0]
        c[d] = l
        for q in range(3):
            V[path(*(D + ('GData', c[2], c[1], c[0], 'Nx', q)))] = N[q] if q < dims else P(1)
    facts = [le(2, NG)] + [le(NG, N[q]) for q in range(dims)] + [le(2, N[q]) for q in range(dims)]
    facts.append(ne(base(*(D + ('Grid',))), 0))
    it = Interp(prog, values=V, callbacks={'get_myGridIndex': my_index}, assume=facts)
    it.run(initname, prefer)
    rec.fn(initname)
    sizes = []
    for loops, guards, e in flatten(it.events):
        if e.k == 'call' and e.name == 'calloc_2d_array' and 'buf' not in e.name:
            sizes.append((e, guards))
    s = scenario(prog, fname, prefer, idfmt, d, dims, 'both')
    if not s.sends:
        rec.undecided('buffer-size', fname, 'no messages')
        return
    ns = nsubst(dims)
    back = {}
    for q in range(dims):
        back[EN[q].single_atom()] = ST[q] + N[q] - 1
    for m in s.sends + s.recvs:
        cnt = subst(subst(m.cnt, ns), back)
        root = m.buf[0][0]
        hit = False
        for e, gds in sizes:
            sz = e.args[1]
            hit = True
            w = '%s:%s' % (e.coord, initname)
            diff = sz - cnt
            v = nonneg(diff, N[:dims])
            if v is True:
                rec.ok('buffer-size', '%s holds %s' % (e.coord, show(cnt)[:80]))
            elif v is False:
                rec.bad('buffer-size', w, 'buffer of %s words, x%d %dD message of %s words' % (show(sz)[:200], d + 1, dims, show(cnt)[:200]))
            else:
                rec.undecided('buffer-size', w, 'size %s vs %s' % (show(sz)[:200], show(cnt)[:200]))
        if not hit:
            rec.undecided('buffer-size', initname, 'allocation not found')


def allpos(p):
    return all(a.kind == 'sym' for a in p.atoms()) and all(c >= 0 for c in p.t.values())


def simp_nonneg(p):
    """simplify conditionals and maxima of polynomials in non-negative symbols"""
    def hook(a, rw):
        if a.kind == 'le0' and a.args[0].t:
            q = rw.poly(a.args[0])
            if allpos(q) and q.t.get((), 0) > 0:
                return False
            if allpos(-q):
                return True
        if a.kind == 'max':
            xs = [rw.poly(x) for x in a.args[0]]
            for x in xs:
                if all(x is y or allpos(x - y) for y in xs):
                    return x
        return None
    return sym.Rewriter(hook).poly(p)


def nonneg(diff, Ns):
    """is diff >= 0 for all nghost>=2, N>=nghost?  Polynomial criterion: all
    coefficients non-negative after shifting to the corner of the domain;
    refuted by evaluation of the polynomial at grid points."""
    ng = NG.single_atom()
    if has_opaque(diff):
        return None
    shift = {ng: P(2) + S('b_')}
    for n, x in enumerate(Ns):
        shift[x.single_atom()] = P(2) + S('b_') + S('a%d_' % n)
    r = subst(diff, shift)
    for _ in range(4):
        r2 = simp_nonneg(r)
        if r2 == r:
            break
        r = r2
    if all(a.kind == 'sym' for a in r.atoms()) and all(c >= 0 for c in r.t.values()):
        return True
    import itertools
    for g_ in (2, 3, 4, 5):
        for ns in itertools.product((g_, g_ + 1, 8, 16, 64), repeat=len(Ns)):
            asg = {ng: P(g_)}
            for x, v in zip(Ns, ns):
                asg[x.single_atom()] = P(max(v, g_))
            r = subst(diff, asg)
            if r.is_const() and r.const() < 0:
                return False
    return None
