"""Front end: preprocess (clang -E, generated defs.h through a VFS overlay,
stub system headers) and parse /repo sources with pycparser; build type and
symbol tables."""
import json
import os
import re
import subprocess
import sys
import tempfile
import threading
from pycparser import c_parser, c_ast
from .config import SRC, REPO

HERE = os.path.dirname(os.path.abspath(__file__))
FAKE = HERE + '/fake'


class AnalysisError(Exception):
    """the analysis itself cannot run (vanished anchor, parse failure ...)"""


_tmp = None
_lock = threading.Lock()


def tmpdir():
    global _tmp
    if _tmp is None or not os.path.isdir(_tmp.name):
        _tmp = tempfile.TemporaryDirectory(prefix='athsa.')
    return _tmp.name


_fnindex = None
KEYW = {'if', 'for', 'while', 'switch', 'return', 'sizeof', 'else', 'do', 'defined'}


def fn_index():
    """function name -> list of files that (textually) seem to define it"""
    global _fnindex
    if _fnindex is None:
        idx, alias = {}, []
        for d, _, fs in os.walk(SRC):
            for f in fs:
                if not f.endswith('.c'):
                    continue
                full = os.path.join(d, f)
                if full == SRC + '/problem.c':
                    continue
                rel = os.path.relpath(full, SRC)
                txt = open(full, errors='replace').read()
                txt = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), txt, flags=re.S)
                for m in re.finditer(r'^[A-Za-z_][^\n;#{}=]*?\b([A-Za-z_]\w*)\s*\(', txt, re.M):
                    n = m.group(1)
                    if n not in KEYW:
                        idx.setdefault(n, [])
                        if rel not in idx[n]:
                            idx[n].append(rel)
                for m in re.finditer(r'^#\s*define\s+([A-Za-z_]\w*)[ \t]+([A-Za-z_]\w*)[ \t]*$', txt, re.M):
                    alias.append(m.groups())
        for a, b in alias:      # functions defined under a macro name
            for rel in idx.get(a, ()):
                if rel not in idx.setdefault(b, []):
                    idx[b].append(rel)
        _fnindex = idx
    return _fnindex


class Program:
    """lazily parsed program under one configuration"""

    def __init__(self, cfg, symbolic_enums=('nghost',), extra_files=()):
        self.cfg = cfg
        self.symbolic_enums = set(symbolic_enums)
        self.units = {}
        self.dir = tempfile.mkdtemp(dir=tmpdir())
        self.extra = {}
        with open(self.dir + '/defs.h', 'w') as f:
            f.write(cfg.defs_h())
        open(self.dir + '/config.h', 'w').close()
        prob = SRC + '/prob/' + cfg['problem'] + '.c'
        roots = [{'name': SRC + '/defs.h', 'type': 'file', 'external-contents': self.dir + '/defs.h'},
                 {'name': SRC + '/config.h', 'type': 'file', 'external-contents': self.dir + '/config.h'}]
        json.dump({'version': 0, 'roots': roots}, open(self.dir + '/vfs.yaml', 'w'))
        self.missing = set()

    def preprocess(self, path):
        r = subprocess.run(['clang', '-E', '-nostdinc', '-I', FAKE, '-ivfsoverlay',
                            self.dir + '/vfs.yaml', '-D__STDC__=1', '-D__attribute__(x)=', '-D__attribute(x)=', '-I', SRC,
                            '-D__inline=', '-Dinline=', '-w', path],
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError('preprocess %s: %s' % (path, r.stderr[:800]))
        return r.stdout

    def unit(self, rel):
        if rel not in self.units:
            path = rel if rel.startswith('/') else SRC + '/' + rel
            if not os.path.exists(path):
                raise AnalysisError('missing source file ' + rel)
            self.units[rel] = Unit(self, rel, self.preprocess(path))
        return self.units[rel]

    def find(self, fname, prefer=None):
        """(unit, FuncDef) of function fname, or None"""
        if prefer:
            u = self.unit(prefer)
            if fname in u.funcs:
                return u, u.funcs[fname]
        if fname in self.missing:
            return None
        for u in self.units.values():
            if fname in u.funcs and not u.funcs_static.get(fname):
                return u, u.funcs[fname]
        for rel in fn_index().get(fname, ()):
            if rel.startswith('prob/') and rel != 'prob/' + self.cfg['problem'] + '.c':
                continue
            if rel in self.units:
                continue
            u = self.unit(rel)
            if fname in u.funcs and not u.funcs_static.get(fname):
                return u, u.funcs[fname]
        self.missing.add(fname)
        return None

    def need(self, fname, prefer=None):
        r = self.find(fname, prefer)
        if r is None:
            for rel in fn_index().get(fname, ()):
                if rel.startswith('prob/') and rel != 'prob/' + self.cfg['problem'] + '.c':
                    continue
                u = self.unit(rel)
                if fname in u.funcs:
                    return u, u.funcs[fname]
        if r is None:
            raise AnalysisError('function %s not found in configuration %s' % (fname, self.cfg.name))
        return r


# --------------------------------------------------------------- types
INT = ('int', 4)
CHAR = ('int', 1)
LONG = ('int', 8)
DBL = ('real', 8)
FLT = ('real', 4)
VOID = ('void',)


class Unit:
    def __init__(self, prog, rel, text):
        self.prog = prog
        self.rel = rel
        self.text = text
        parser = c_parser.CParser()
        try:
            self.ast = parser.parse(text, rel)
        except Exception as e:
            raise AnalysisError('parse %s [%s]: %s' % (rel, prog.cfg.name, e))
        self.typedefs = {}
        self.structs = {}
        self.enums = {}
        self.funcs = {}
        self.funcs_static = {}
        self.globals = {}
        self.statics = {}
        self.ginit = {}
        self.protos = {}
        self._anon = 0
        for ext in self.ast.ext:
            if isinstance(ext, c_ast.Typedef):
                self.typedefs[ext.name] = self.type_of(ext.type)
            elif isinstance(ext, c_ast.Decl):
                t = self.type_of(ext.type)
                if ext.name:
                    if t[0] == 'func':
                        self.protos[ext.name] = t
                    else:
                        self.globals[ext.name] = t
                        if 'static' in ext.storage:
                            self.statics[ext.name] = True
                        if ext.init is not None:
                            self.ginit[ext.name] = ext.init
            elif isinstance(ext, c_ast.FuncDef):
                n = ext.decl.name
                self.funcs[n] = ext
                self.funcs_static[n] = 'static' in ext.decl.storage
                self.protos[n] = self.type_of(ext.decl.type)

    def type_of(self, n):
        if isinstance(n, c_ast.TypeDecl):
            return self.type_of(n.type)
        if isinstance(n, c_ast.Typename):
            return self.type_of(n.type)
        if isinstance(n, c_ast.IdentifierType):
            names = [x for x in n.names if x not in ('const', 'volatile', 'signed', 'register')]
            if not names:
                return INT
            if len(names) == 1 and names[0] in self.typedefs:
                return self.typedefs[names[0]]
            s = ' '.join(sorted(names))
            if 'double' in names:
                return DBL
            if 'float' in names:
                return FLT
            if 'void' in names:
                return VOID
            if 'char' in names:
                return CHAR
            if 'short' in names:
                return ('int', 2)
            if 'long' in names:
                return LONG
            if names[0] in self.typedefs:
                return self.typedefs[names[0]]
            return INT
        if isinstance(n, c_ast.PtrDecl):
            return ('ptr', self.type_of(n.type))
        if isinstance(n, c_ast.ArrayDecl):
            dim = None
            if n.dim is not None:
                dim = self.const_eval(n.dim)
            return ('arr', self.type_of(n.type), dim)
        if isinstance(n, (c_ast.Struct, c_ast.Union)):
            name = n.name
            if name is None:
                self._anon += 1
                name = '$anon%d' % self._anon
            if n.decls is not None:
                self.structs[name] = [(d.name, self.type_of(d.type)) for d in n.decls]
            return ('struct', name)
        if isinstance(n, c_ast.Enum):
            if n.values is not None:
                v = 0
                for e in n.values.enumerators:
                    if e.value is not None:
                        v = self.const_eval(e.value)
                    self.enums[e.name] = v
                    v = (v or 0) + 1
            return INT
        if isinstance(n, c_ast.FuncDecl):
            ps = []
            if n.args:
                for p in n.args.params:
                    if isinstance(p, c_ast.EllipsisParam):
                        continue
                    ps.append((getattr(p, 'name', None), self.type_of(p.type)))
            return ('func', self.type_of(n.type), tuple(t for _, t in ps))
        raise AnalysisError('type %r' % n)

    def const_eval(self, n):
        if isinstance(n, c_ast.Constant):
            if n.type in ('int', 'long int', 'unsigned int', 'long unsigned int'):
                return int(n.value.rstrip('uUlL'), 0)
            if n.type == 'char':
                return ord(eval(n.value))
            return None
        if isinstance(n, c_ast.ID):
            return self.enums.get(n.name)
        if isinstance(n, c_ast.UnaryOp):
            v = self.const_eval(n.expr) if n.op != 'sizeof' else None
            if v is None:
                return None
            return {'-': -v, '+': v, '~': ~v, '!': int(not v)}.get(n.op)
        if isinstance(n, c_ast.BinaryOp):
            a, b = self.const_eval(n.left), self.const_eval(n.right)
            if a is None or b is None:
                return None
            try:
                return {'+': a + b, '-': a - b, '*': a * b, '<<': a << b if b >= 0 else None,
                        '/': (a // b if b else None), '|': a | b}.get(n.op)
            except Exception:
                return None
        return None

    def fields(self, t):
        if t[0] != 'struct' or t[1] not in self.structs:
            raise AnalysisError('no struct %r in %s' % (t, self.rel))
        return self.structs[t[1]]

    def sizeof(self, t):
        if t[0] in ('int', 'real'):
            return t[1]
        if t[0] in ('ptr', 'func'):
            return 8
        if t[0] == 'arr':
            return None if t[2] is None else self.sizeof(t[1]) * t[2]
        if t[0] == 'struct':
            off = 0
            al = 1
            for n, ft in self.fields(t):
                a = self.align(ft)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(ft)
            return (off + al - 1) // al * al
        return 1

    def align(self, t):
        if t[0] == 'arr':
            return self.align(t[1])
        if t[0] == 'struct':
            return max([self.align(ft) for _, ft in self.fields(t)] or [1])
        return self.sizeof(t)
