"""Typestate analysis of call sequences.

An abstract interpreter over the syntax tree of a driver routine: integer
variables with known values, addresses and function pointers are tracked,
unknown conditions are followed both ways, loops to a fixpoint.  Calls to
primitives and stores to watched places are handed to a typestate automaton;
other functions of the program that can reach a primitive are entered."""
from .front import AnalysisError
from pycparser import c_ast

NZ = ('nonzero',)
LIMIT = 400


class St:
    __slots__ = ('env', 'ts')

    def __init__(self, env, ts):
        self.env, self.ts = env, ts

    def copy(self):
        return St(dict(self.env), dict(self.ts))

    def key(self):
        return tuple(sorted(self.ts.items(), key=repr))


def join(states):
    """one state per typestate; variables keep the values they agree on"""
    out = {}
    for s in states:
        k = s.key()
        o = out.get(k)
        if o is None:
            out[k] = s
        elif o is not s:
            env = {v: x for v, x in o.env.items() if s.env.get(v) == x}
            out[k] = St(env, o.ts)
    return list(out.values())


class Out:
    def __init__(self, nxt=(), brk=(), cont=(), ret=(), goto=()):
        self.nxt, self.brk, self.cont, self.ret, self.goto = list(nxt), list(brk), list(cont), list(ret), list(goto)

    def take(self, o):
        self.brk += o.brk
        self.cont += o.cont
        self.ret += o.ret
        self.goto += o.goto


class Walker:
    def __init__(self, prog, auto, primitives, known=None, consts=None, opaque=(), untracked=()):
        """auto: object with call(ts, name, args, where) and store(ts, place, op, value, where);
        primitives: names handed to the automaton; known: place string -> value"""
        self.prog, self.auto, self.prim = prog, auto, set(primitives)
        self.known = known or {}
        self.reach = {}
        self.depth = 0
        self.stack = []
        self.visited = set()
        self.consts = consts or {}
        self.opaque, self.untracked = set(opaque), tuple(untracked)
        self.unit = None

    # ------------------------------------------------------------ which functions matter
    def matters(self, name, seen=None):
        if name in self.prim:
            return True
        if name in self.reach:
            return self.reach[name]
        self.reach[name] = False
        f = self.find(name)
        if not f:
            return False
        unit, fd = f
        r = False
        for n in calls_of(fd):
            if self.matters(n):
                r = True
        if not r and self.auto.watches(fd):
            r = True
        self.reach[name] = r
        return r

    def find(self, name):
        if name in self.opaque:
            return None
        return self.prog.find(name, self.unit.rel)

    def run(self, name, env, ts):
        unit, fd = self.prog.need(name, None)
        self.unit = unit
        st = St(dict(env), dict(ts))
        o = self.body(unit, fd, [st])
        return o

    def body(self, unit, fd, states):
        self.visited.add('%s: %s' % (unit.rel, fd.decl.name))
        saved, self.unit = getattr(self, 'unit', None), unit
        o = self.stmt(fd.body, states)
        self.unit = saved
        return join(o.nxt + o.ret)

    # ------------------------------------------------------------ statements
    def stmt(self, s, states):
        states = join(states)
        if s is None or not states:
            return Out(states)
        if isinstance(s, c_ast.Assignment) and s.op == '=' and logical(s.rvalue):
            return Out([self.ev(c_ast.Assignment('=', s.lvalue, c_ast.Constant('int', str(int(v)), s.coord), s.coord), x)[0] for st in states for v, x in self.cond(s.rvalue, st)])
        if isinstance(s, c_ast.Decl) and logical(s.init):
            return Out([self.set(x, self.name(s.name), int(v)) for st in states for v, x in self.cond(s.init, st)])
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            return m(s, states)
        return Out([self.ev(s, x)[0] for x in states])

    def s_Compound(self, s, states):
        out = Out()
        items = s.block_items or []
        labels = {x.name: i for i, x in enumerate(items) if isinstance(x, c_ast.Label)}
        cur = states
        pend = [(0, states)]
        done = 0
        while pend:
            i, cur = pend.pop()
            done += 1
            if done > 20:
                raise AnalysisError('too many jumps in ' + self.where(s))
            while i < len(items) and cur:
                o = self.stmt(items[i], cur)
                g = o.goto
                o.goto = []
                for lab, st in g:
                    if lab in labels:
                        pend.append((labels[lab], [st]))
                    else:
                        out.goto.append((lab, st))
                out.take(o)
                cur = join(o.nxt)
                i += 1
            out.nxt += cur
        return out

    def s_If(self, s, states):
        out = Out()
        for st in states:
            for v, x in self.cond(s.cond, st):
                o = self.stmt(s.iftrue if v else s.iffalse, [x])
                out.take(o)
                out.nxt += o.nxt
        return out

    def loop(self, s, states, cond, step, first):
        out = Out()
        seen = {}
        cur = states
        n = 0
        while cur:
            n += 1
            if n > LIMIT:
                raise AnalysisError('no fixpoint at ' + self.where(s))
            body = []
            for st in cur:
                if cond is None or first:
                    body.append(st)
                else:
                    for v, x in self.cond(cond, st):
                        (body if v else out.nxt).append(x)
            first = False
            fresh = []
            for st in join(body):
                k = st.key()
                o = seen.get(k)
                if o is not None:
                    env = {v: x for v, x in st.env.items() if o.get(v) == x}
                    if n > 60:
                        st = St({v: x for v, x in o.items() if st.env.get(v) == x}, st.ts)
                        if st.env == o:
                            continue
                    elif st.env == o:
                        continue
                seen[k] = dict(st.env)
                fresh.append(st)
            o = self.stmt(s.stmt, fresh)
            out.ret += o.ret
            out.goto += o.goto
            out.nxt += o.brk
            cur = join(o.nxt + o.cont)
            if step is not None:
                cur = join([self.ev(step, x)[0] for x in cur])
        return out

    def s_While(self, s, states):
        return self.loop(s, states, s.cond, None, False)

    def s_DoWhile(self, s, states):
        return self.loop(s, states, s.cond, None, True)

    def s_For(self, s, states):
        if s.init is not None:
            if isinstance(s.init, c_ast.DeclList):
                for d in s.init.decls:
                    states = self.stmt(d, states).nxt
            else:
                states = [self.ev(s.init, x)[0] for x in states]
        return self.loop(s, states, s.cond, s.next, False)

    def s_Switch(self, s, states):
        states = [self.ev(s.cond, x)[0] for x in states]
        out = Out()
        items = (s.stmt.block_items or []) if isinstance(s.stmt, c_ast.Compound) else [s.stmt]
        cur = []
        default = False
        for c in items:
            if isinstance(c, (c_ast.Case, c_ast.Default)):
                default |= isinstance(c, c_ast.Default)
                cur = join(cur + [x.copy() for x in states])
                for y in c.stmts or []:
                    o = self.stmt(y, cur)
                    out.take(o)
                    cur = join(o.nxt)
            else:
                o = self.stmt(c, cur)
                out.take(o)
                cur = join(o.nxt)
        out.nxt = cur + out.brk + ([] if default else [x.copy() for x in states])
        out.brk = []
        return out

    def s_Label(self, s, states):
        return self.stmt(s.stmt, states)

    def s_Goto(self, s, states):
        return Out(goto=[(s.name, x) for x in states])

    def s_Break(self, s, states):
        return Out(brk=states)

    def s_Continue(self, s, states):
        return Out(cont=states)

    def s_Return(self, s, states):
        r = []
        for x in states:
            if s.expr is not None:
                x, v = self.ev(s.expr, x)
                x = x.copy()
                x.env['$ret'] = v
            r.append(x)
        return Out(ret=r)

    def s_Decl(self, s, states):
        if s.init is None:
            for x in states:
                pass
            return Out([self.set(x, self.name(s.name), None) for x in states])
        r = []
        for x in states:
            x, v = self.ev(s.init, x) if not isinstance(s.init, c_ast.InitList) else (x, None)
            r.append(self.set(x, self.name(s.name), v))
        return Out(r)

    def s_DeclList(self, s, states):
        for d in s.decls:
            states = self.stmt(d, states).nxt
        return Out(states)

    def s_EmptyStatement(self, s, states):
        return Out(states)

    # ------------------------------------------------------------ conditions
    def cond(self, c, st):
        """[(truth, state)]"""
        if isinstance(c, c_ast.BinaryOp) and c.op in ('&&', '||'):
            out = []
            for v, x in self.cond(c.left, st):
                if v == (c.op == '||'):
                    out.append((v, x))
                else:
                    out += self.cond(c.right, x)
            return out
        if isinstance(c, c_ast.UnaryOp) and c.op == '!':
            return [(not v, x) for v, x in self.cond(c.expr, st)]
        a = b = None
        if isinstance(c, c_ast.BinaryOp) and c.op in ('<', '<=', '>', '>=', '==', '!='):
            a, b = self.ev(c.left, st)[1], self.ev(c.right, st)[1]
        st, v = self.ev(c, st)
        t = truth(v)
        if t is not None:
            return [(t, st)]
        t, f = st.copy(), st.copy()
        if a is not None and b is not None:
            op = c.op
            if op[0] == '>':
                a, b, op = b, a, op.replace('>', '<')
            t.ts = self.auto.test(t.ts, op, a, b, True)
            f.ts = self.auto.test(f.ts, op, a, b, False)
        # remember what an unknown plain variable turned out to be
        e, pos = c, True
        if isinstance(c, c_ast.BinaryOp) and c.op in ('==', '!='):
            p = self.place(c.left, st)[1]
            x = self.ev(c.right, st)[1]
            if p and isinstance(x, int):
                (t if c.op == '==' else f).env[p] = x
                if x == 0:
                    (f if c.op == '==' else t).env[p] = NZ
        elif isinstance(c, c_ast.ID):
            p = self.place(c, st)[1]
            if p:
                t.env[p] = NZ
                f.env[p] = 0
        return [(True, t), (False, f)]

    # ------------------------------------------------------------ expressions
    def where(self, n):
        c = getattr(n, 'coord', None)
        return '%s:%s' % (self.unit.rel, c.line if c else '?')

    def name(self, n):
        if self.stack and n in self.stack[-1][0]:
            return n + '@%d' % len(self.stack)
        return n

    def set(self, st, place, v):
        st = st.copy()
        if place is None or root(place) in self.untracked:
            return st
        for k in [k for k in st.env if k != place and k.startswith(place) and k[len(place):len(place) + 1] in '.[-']:
            del st.env[k]
        if v is None:
            st.env.pop(place, None)
        else:
            st.env[place] = v
        return st

    def place(self, e, st):
        """(state, place string or None)"""
        if isinstance(e, c_ast.ID):
            return st, self.name(e.name)
        if isinstance(e, c_ast.StructRef):
            if e.type == '.':
                st, p = self.place(e.name, st)
                return st, (p + '.' + e.field.name if p else None)
            st, v = self.ev(e.name, st)
            if isinstance(v, tuple) and v[0] == '&':
                return st, v[1] + '.' + e.field.name
            return st, None
        if isinstance(e, c_ast.ArrayRef):
            st, v = self.ev(e.name, st)
            st, i = self.ev(e.subscript, st)
            if isinstance(v, tuple) and v[0] == '&' and isinstance(i, int):
                if v[1].endswith('[0]') and i == 0:
                    return st, v[1]
                return st, v[1] + '[%d]' % i if not v[1].endswith(']@') else None
            st2, p = self.place(e.name, st)
            if p and isinstance(i, int):
                return st2, '%s[%d]' % (p, i)
            return st, None
        if isinstance(e, c_ast.UnaryOp) and e.op == '*':
            st, v = self.ev(e.expr, st)
            if isinstance(v, tuple) and v[0] == '&':
                return st, v[1]
            return st, None
        if isinstance(e, c_ast.Cast):
            return self.place(e.expr, st)
        return st, None

    def ev(self, e, st):
        """(state, value): int, ('&', place), ('fn', name), NZ or None"""
        if e is None:
            return st, None
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e, st)
        for _, c in e.children():
            if not isinstance(c, (c_ast.Typename, c_ast.TypeDecl, c_ast.PtrDecl)):
                st, _v = self.ev(c, st)
        return st, None

    def e_Constant(self, e, st):
        if e.type in ('int', 'long int', 'unsigned int', 'long', 'unsigned long'):
            x = e.value.rstrip('uUlL')
            return st, int(x, 8 if x[:1] == '0' and x[1:].isdigit() else 0)
        if e.type == 'string':
            return st, ('str', e.value)
        return st, ('num', e.value)

    def e_ID(self, e, st):
        n = self.name(e.name)
        if n in st.env:
            return st, st.env[n]
        if n in self.known:
            return st, self.known[n]
        if n in self.consts:
            return st, self.consts[n]
        if '@' not in n:
            if e.name in self.prim or self.find(e.name):
                return st, ('fn', e.name)
        return st, ('val', n)

    def load(self, p, st):
        if p is None:
            return None
        if p in st.env:
            return st.env[p]
        if p in self.known:
            return self.known[p]
        return ('val', p)

    def e_StructRef(self, e, st):
        st, p = self.place(e, st)
        return st, self.load(p, st)

    e_ArrayRef = e_StructRef

    def e_Cast(self, e, st):
        return self.ev(e.expr, st)

    def e_ExprList(self, e, st):
        v = None
        for x in e.exprs:
            st, v = self.ev(x, st)
        return st, v

    def e_TernaryOp(self, e, st):
        r = self.cond(e.cond, st)
        if len(r) == 1:
            return self.ev(e.iftrue if r[0][0] else e.iffalse, r[0][1])
        a = self.ev(e.iftrue, r[0][1])
        b = self.ev(e.iffalse, r[1][1])
        if a[0].key() != b[0].key():
            raise AnalysisError('conditional expression with different effects at ' + self.where(e))
        s = join([a[0], b[0]])[0]
        return s, a[1] if a[1] == b[1] else None

    def e_UnaryOp(self, e, st):
        if e.op == '&':
            st, p = self.place(e.expr, st)
            return st, ('&', p) if p else None
        if e.op == '*':
            st, v = self.ev(e.expr, st)
            if isinstance(v, tuple) and v[0] == 'fn':
                return st, v
            if isinstance(v, tuple) and v[0] == '&':
                return st, self.load(v[1], st)
            return st, None
        if e.op == 'sizeof':
            return st, None
        if e.op in ('++', 'p++', '--', 'p--'):
            st, p = self.place(e.expr, st)
            v = self.load(p, st)
            d = 1 if '+' in e.op else -1
            return self.assign(st, p, '+=', d, v + d if isinstance(v, int) else None, e)
        st, v = self.ev(e.expr, st)
        if e.op == '-' and isinstance(v, int):
            return st, -v
        if e.op == '!':
            t = truth(v)
            return st, None if t is None else int(not t)
        return st, v if e.op == '+' else None

    def e_BinaryOp(self, e, st):
        if e.op in ('&&', '||'):
            r = self.cond(e, st)
            vs = {v for v, _ in r}
            s = join([x for _, x in r])
            if len(s) != 1:
                raise AnalysisError('condition with different effects at ' + self.where(e))
            return s[0], int(vs.pop()) if len(vs) == 1 else None
        st, a = self.ev(e.left, st)
        st, b = self.ev(e.right, st)
        if e.op in ('==', '!='):
            if isinstance(a, tuple) and a[0] in ('&', 'fn', 'nonzero') and b == 0 or isinstance(b, tuple) and b[0] in ('&', 'fn', 'nonzero') and a == 0:
                return st, int(e.op == '!=')
        if e.op == '+' and isinstance(b, tuple) and isinstance(a, int):
            a, b = b, a
        if e.op == '+' and isinstance(b, int) and isinstance(a, tuple) and a[0] in ('&', 'val') and (a[0] == '&' or a[1].endswith(']')):
            # element of an array
            if a[0] == '&' and a[1].endswith('[0]'):
                return st, ('&', a[1][:-3] + '[%d]' % b)
            if a[0] == 'val' and a[1].startswith('Mesh.Domain['):
                return st, ('&', a[1] + '[%d]' % b)
        if isinstance(a, int) and isinstance(b, int):
            try:
                return st, int(eval({'/': 'a//b', '%': 'a%b'}.get(e.op, 'a %s b' % e.op), {'a': a, 'b': b}))
            except Exception:
                return st, None
        if isinstance(a, tuple) and isinstance(b, (tuple, int)) and e.op in '+-*/' and a[0] in ('val', 'op', 'num') and (isinstance(b, int) or b[0] in ('val', 'op', 'num')):
            return st, ('op', e.op, a, b)
        return st, None

    def assign(self, st, p, op, v, full, e):
        """full: resulting value"""
        old = self.load(p, st)
        st = self.set(st, p, full)
        if p is not None:
            ts = self.auto.store(dict(st.ts), p, op, v, self.where(e), self)
            if ts is not None:
                st = St(st.env, ts)
        return st, full

    def e_Assignment(self, e, st):
        st, v = self.ev(e.rvalue, st)
        st, p = self.place(e.lvalue, st)
        if e.op == '=':
            return self.assign(st, p, '=', v, v, e)
        old = self.load(p, st)
        full = None
        if isinstance(old, int) and isinstance(v, int):
            full = {'+=': old + v, '-=': old - v, '*=': old * v}.get(e.op)
        return self.assign(st, p, e.op, v, full, e)

    def e_FuncCall(self, e, st):
        args = []
        for a in (e.args.exprs if e.args else []):
            st, v = self.ev(a, st)
            args.append(v)
        if isinstance(e.name, c_ast.ID) and not (self.name(e.name.name) in st.env):
            name = e.name.name
        else:
            st, f = self.ev(e.name, st)
            if isinstance(f, tuple) and f[0] == 'fn':
                name = f[1]
            elif isinstance(f, tuple) and f[0] == 'val':
                name = f[1].split('@')[0]
            else:
                name = None
        if name in ('exit', 'ath_error', 'abort', 'MPI_Abort'):
            return self.dead(st, name), None
        if name in self.prim:
            ts, r = self.auto.call(dict(st.ts), name, args, self.where(e), self)
            st = St(dict(st.env), ts)
            if name in getattr(self.auto, 'inside', ()):
                # the routine is a primitive that contains others
                unit, fd = self.find(name)
                st, r = self.enter(unit, fd, args, st)
                st = St(st.env, self.auto.call(dict(st.ts), name + '.', args, self.where(e), self)[0])
            return st, r
        if name and self.matters(name) and self.depth < 12:
            unit, fd = self.find(name)
            return self.enter(unit, fd, args, st)
        # an unknown routine may write through the addresses it is given
        st = st.copy()
        for a in args:
            if isinstance(a, tuple) and a[0] == '&':
                st.env.pop(a[1], None)
        return st, None

    def dead(self, st, name):
        st = st.copy()
        st.ts['dead'] = 1
        return st

    def enter(self, unit, fd, args, st):
        loc = set(locals_of(fd))
        self.depth += 1
        self.stack.append((loc,))
        st = st.copy()
        ps = fd.decl.type.args.params if fd.decl.type.args else []
        for p, v in zip(ps, args):
            if p.name and v is not None:
                st.env[self.name(p.name)] = v
        outs = self.body(unit, fd, [st])
        tag = '@%d' % len(self.stack)
        self.stack.pop()
        self.depth -= 1
        res = []
        for o in outs:
            r = o.env.pop('$ret', None)
            o.env = {k: v for k, v in o.env.items() if not root(k).endswith(tag)}
            res.append((o, r))
        if not res:
            s = st.copy()
            s.ts['dead'] = 1
            return s, None
        ks = {o.key() for o, _ in res}
        if len(ks) > 1:
            # several outcomes of a call inside an expression: keep the worst, judged by the automaton
            o = self.auto.meet([o for o, _ in res])
            return o, None
        o = join([x for x, _ in res])[0]
        rs = [r for _, r in res]
        return o, rs[0] if all(x == rs[0] for x in rs) else None


def root(k):
    i = 0
    while i < len(k) and k[i] not in '.[-':
        i += 1
    return k[:i]


def logical(e):
    return isinstance(e, c_ast.BinaryOp) and e.op in ('&&', '||', '<', '<=', '>', '>=', '==', '!=') or isinstance(e, c_ast.UnaryOp) and e.op == '!'


def truth(v):
    if isinstance(v, int):
        return v != 0
    if isinstance(v, tuple) and v[0] in ('&', 'fn', 'nonzero', 'str'):
        return True
    return None


class _Names(c_ast.NodeVisitor):
    def __init__(self):
        self.calls, self.decls = [], []

    def visit_FuncCall(self, n):
        if isinstance(n.name, c_ast.ID):
            self.calls.append(n.name.name)
        else:
            self.visit(n.name)
        if n.args:
            self.visit(n.args)

    def visit_ID(self, n):
        pass

    def visit_Decl(self, n):
        if n.name:
            self.decls.append(n.name)
        self.generic_visit(n)


def calls_of(fd):
    v = _Names()
    v.visit(fd.body)
    return v.calls


def locals_of(fd):
    v = _Names()
    v.visit(fd.decl)
    v.visit(fd.body)
    return v.decls
