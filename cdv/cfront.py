"""Front end of the contract verifier: obtains, on every run, the typed AST of
the real translation unit under /repo (clang -ast-dump=json) and turns it into
light Node objects.  Nothing is written by hand: the verified text is what
clang parsed from /repo's working tree with the build's own defines.

Dropped by the extraction: comments, attributes, and (because the build's
`assert` expands to abort()) the code after a failed assertion.
"""
import json, os, re, subprocess, hashlib, sys, glob

REPO = os.environ.get('CDV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get('CDV_CACHE', os.path.join(VERIF, '.cache'))
DEFS = ['-DUSE_SCOTCH', '-DUSE_VTK', '-Dkiss_fft_scalar=double']
CLANG = '/usr/bin/clang' if os.path.exists('/usr/bin/clang') else 'clang'


class Unsupported(Exception):
    """The verifier cannot handle a construct: undecided, never a violation."""


# ---------------------------------------------------------------- include dir
def _template(path, out):
    txt = open(path).read()
    rep = {'@DEF_POSIX@': '#define MMG_POSIX', '@DEF_GNU@': '#define MMG_GNU',
           '@DEF_MMG5_INT@': '#define MMG5_int int32_t',
           '@DEF_MMG5_INTMAX@': '#define MMG5_INTMAX INT_MAX',
           '@DEF_MMG5_PRId@': '#define MMG5_PRId PRId32',
           '@DEF_MMG_SWPBIN@': '#define MMG5_SWAPBIN(x) MMG5_swapbin(x)',
           '@DEF_MMG_ABS@': '#define MMG5_abs(x) abs(x)',
           '@CMAKE_RELEASE_VERSION@': '5.8.0', '@CMAKE_RELEASE_VERSION_MAJOR@': '5',
           '@CMAKE_RELEASE_VERSION_MINOR@': '8', '@CMAKE_RELEASE_VERSION_PATCH@': '0',
           '@CMAKE_RELEASE_DATE@': 'n/a'}
    for k, v in rep.items():
        txt = txt.replace(k, v)
    txt = re.sub(r'#cmakedefine\s+USE_POINTMAP.*', '/* #undef USE_POINTMAP */', txt)
    txt = re.sub(r'#cmakedefine01\s+MMG_DYN_LIB', '#define MMG_DYN_LIB 0', txt)
    _write(out, txt)


def _write(path, txt):
    if os.path.exists(path) and not os.path.islink(path) and open(path).read() == txt:
        return
    tmp = path + '.%d.tmp' % os.getpid()
    open(tmp, 'w').write(txt)
    os.replace(tmp, path)


_inc = None


def include_dir():
    """mmg/{common,mmg2d,mmg3d,mmgs} include tree made of links to /repo/src and
    of the two headers the build generates from their .in templates."""
    global _inc
    if _inc:
        return _inc
    base = os.path.join(CACHE, 'include')
    for sub in ('common', 'mmg2d', 'mmg3d', 'mmgs'):
        d = os.path.join(base, 'mmg', sub)
        os.makedirs(d, exist_ok=True)
        for h in glob.glob(os.path.join(SRC, sub, '*.h')):
            l = os.path.join(d, os.path.basename(h))
            if os.path.islink(l) and os.readlink(l) == h:
                continue
            tmp = l + '.%d.tmp' % os.getpid()
            os.symlink(h, tmp)
            os.replace(tmp, l)
    d = os.path.join(base, 'mmg', 'common')
    _template(os.path.join(SRC, 'common/mmgcmakedefines.h.in'), os.path.join(d, 'mmgcmakedefines.h'))
    _template(os.path.join(SRC, 'common/mmgversion.h.in'), os.path.join(d, 'mmgversion.h'))
    _write(os.path.join(d, 'git_log_mmg.h'),
           '#ifndef _GIT_LOG_MMG_H\n#define _GIT_LOG_MMG_H\n#define MMG_GIT_BRANCH "x"\n'
           '#define MMG_GIT_COMMIT "x"\n#define MMG_GIT_DATE "x"\n#endif\n')
    os.makedirs(os.path.join(base, 'gen'), exist_ok=True)
    for h in ('mmgcmakedefines.h', 'mmgversion.h', 'git_log_mmg.h'):
        l = os.path.join(base, 'gen', h)
        if not os.path.islink(l):
            try:
                os.symlink(os.path.join(d, h), l)
            except FileExistsError:
                pass
    _inc = base
    return base


def cflags():
    b = include_dir()
    return DEFS + ['-I' + b, '-I' + os.path.join(b, 'gen')] + \
        ['-I' + os.path.join(SRC, s) for s in ('common', 'mmg3d', 'mmg2d', 'mmgs')] + \
        ['-I/usr/include/scotch', '-std=gnu99']


# ---------------------------------------------------------------- C types
class CT:
    pass


class TInt(CT):
    def __init__(s, w, signed): s.w, s.signed = w, signed
    def __repr__(s): return ('i' if s.signed else 'u') + str(s.w)


class TFlt(CT):
    def __init__(s, w): s.w = w
    def __repr__(s): return 'f%d' % s.w


class TPtr(CT):
    def __init__(s, to): s.to = to
    def __repr__(s): return 'ptr(%r)' % s.to


class TArr(CT):
    def __init__(s, of, n): s.of, s.n = of, n
    def __repr__(s): return '%r[%s]' % (s.of, s.n)


class TRec(CT):
    def __init__(s, name): s.name = name
    def __repr__(s): return s.name


class TVoid(CT):
    def __repr__(s): return 'void'


class TFun(CT):
    def __init__(s, ret): s.ret = ret
    def __repr__(s): return 'fun'


class TOpaque(CT):
    def __init__(s, n): s.n = n
    def __repr__(s): return 'opaque(%s)' % s.n


VOID = TVoid()
I32 = TInt(32, True)
BASIC = {'void': VOID, '_Bool': TInt(8, False), 'char': TInt(8, True), 'signed char': TInt(8, True),
         'unsigned char': TInt(8, False), 'short': TInt(16, True), 'unsigned short': TInt(16, False),
         'int': I32, 'unsigned int': TInt(32, False), 'long': TInt(64, True),
         'unsigned long': TInt(64, False), 'long long': TInt(64, True),
         'unsigned long long': TInt(64, False), 'float': TFlt(32), 'double': TFlt(64),
         'long double': TFlt(64), '__int128': TInt(128, True), 'unsigned __int128': TInt(128, False)}


class Node:
    __slots__ = ('k', 'inner', 'ty', 'line', 'name', 'op', 'val', 'ref', 'a', 'id')

    def __init__(s):
        s.a = {}

    def __repr__(s):
        return '<%s %s %s>' % (s.k, s.name or s.op or s.val or '', s.line)

    def walk(s):
        yield s
        for c in s.inner:
            if c is not None:
                yield from c.walk()


class TU:
    def __init__(self, path):
        self.path = path
        self.typedefs = {}
        self.records = {}      # name -> [(field,CT)]
        self.rec_by_id = {}
        self.funs = {}         # name -> json
        self.protos = {}       # declared only: name -> type
        self.fun_nodes = {}
        self.gvars = {}        # name -> json
        self.enums = {}
        self.field_owner = {}
        self._tc = {}
        self._load()

    def _load(self):
        cmd = [CLANG] + cflags() + ['-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', self.path]
        p = subprocess.run(cmd, capture_output=True)
        if p.returncode != 0:
            raise Unsupported('clang failed on %s: %s' % (self.path, p.stderr.decode()[-800:]))
        root = json.loads(p.stdout)
        self._line = 0
        for x in root['inner']:
            k = x.get('kind')
            if k == 'TypedefDecl':
                t = x['type']
                q = t.get('desugaredQualType', t['qualType'])
                self.typedefs[x['name']] = t['qualType']
                # typedef of an anonymous/tagged record
                for y in x.get('inner', []):
                    o = y.get('ownedTagDecl')
                    if o and o['id'] in self.rec_by_id:
                        self.records.setdefault(x['name'], self.rec_by_id[o['id']])
            elif k == 'RecordDecl':
                self._record(x, x.get('name'))
            elif k == 'FunctionDecl':
                if any(y.get('kind') == 'CompoundStmt' for y in x.get('inner', [])):
                    self.funs[x['name']] = x
                else: self.protos[x['name']] = x['type']['qualType']
            elif k == 'VarDecl':
                if x['name'] not in self.gvars or x.get('inner'):
                    self.gvars[x['name']] = x
            elif k == 'EnumDecl':
                v = -1
                for y in x.get('inner', []):
                    if y.get('kind') == 'EnumConstantDecl':
                        v += 1
                        for z in y.get('inner', []):
                            if z.get('kind') == 'ConstantExpr' and 'value' in z:
                                v = int(z['value'])
                        self.enums[y['name']] = v

    def _record(self, x, name):
        fields = []
        for y in x.get('inner', []):
            if y.get('kind') == 'RecordDecl':
                self._record(y, y.get('name'))
            if y.get('kind') == 'FieldDecl':
                t = y['type']
                fields.append((y.get('name', ''), t.get('desugaredQualType', t['qualType'])))
        if fields:
            self.rec_by_id[x['id']] = fields
            if name:
                self.records[name] = fields
        return fields

    # -------------------------------------------------------------- types
    def ptype(self, s):
        if s in self._tc:
            return self._tc[s]
        r = self._ptype(s)
        self._tc[s] = r
        return r

    def _ptype(self, s):
        s0 = s
        s = re.sub(r'\b(const|volatile|restrict|__restrict|register)\b', ' ', s)
        s = re.sub(r'\s+', ' ', s).strip()
        s = s.replace('struct ', '').replace('union ', '')
        if s.startswith('enum '):
            return TInt(32, False)
        m = re.search(r'\(\s*\*+\s*\)', s)
        if m and s[:m.start()].count('(') == s[:m.start()].count(')'):
            rest = s[:m.start()].strip() + s[m.end():]
            if s[m.end():].lstrip().startswith('('):
                return TPtr(TFun(None))
            return TPtr(self.ptype(rest.strip()))
        if s.endswith(')'):
            i = s.index('(')
            return TFun(self.ptype(s[:i].strip()))
        if s.endswith(']'):
            i = s.index('[')
            j = s.index(']', i)
            n = s[i + 1:j].strip()
            return TArr(self.ptype(s[:i].strip() + s[j + 1:]), int(n) if n.isdigit() else None)
        if s.endswith('*'):
            return TPtr(self.ptype(s[:-1].strip()))
        if s in BASIC:
            return BASIC[s]
        if s in self.records:
            return TRec(s)
        if s in self.typedefs and self.typedefs[s] != s0:
            q = self.typedefs[s]
            if re.sub(r'^(struct|enum|union) ', '', q) != s:
                return self.ptype(q)
        return TOpaque(s)

    def fields(self, rec):
        return [(n, self.ptype(t)) for n, t in self.records[rec]]

    def field_type(self, rec, f):
        for n, t in self.records[rec]:
            if n == f:
                return self.ptype(t)
        raise Unsupported('no field %s in %s' % (f, rec))

    def sizeof(self, t):
        return self._layout(t)[0]

    def _layout(self, t):
        if isinstance(t, TInt):
            return t.w // 8, t.w // 8
        if isinstance(t, TFlt):
            return t.w // 8, t.w // 8
        if isinstance(t, (TPtr,)):
            return 8, 8
        if isinstance(t, TArr):
            s, a = self._layout(t.of)
            return s * (t.n or 0), a
        if isinstance(t, TRec):
            off, al = 0, 1
            for _, ft in self.fields(t.name):
                s, a = self._layout(ft)
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return (off + al - 1) // al * al, al
        if isinstance(t, TVoid):
            return 1, 1
        if isinstance(t, TOpaque) and t.n == 'complex':
            return 16, 8
        raise Unsupported('sizeof %r' % t)

    # -------------------------------------------------------------- nodes
    def _conv(self, j):
        if not j or not j.get('kind'):
            return None
        n = Node()
        n.k = j['kind']
        n.id = j.get('id')
        r = j.get('range', {}).get('begin', {})
        r = r.get('expansionLoc', r)
        if 'line' in r:
            self._line = r['line']
        elif 'line' in j.get('loc', {}):
            self._line = j['loc']['line']
        n.line = self._line
        t = j.get('type')
        n.ty = self.ptype(t.get('desugaredQualType', t['qualType'])) if t else None
        n.name = j.get('name')
        n.op = j.get('opcode')
        n.val = j.get('value')
        rd = j.get('referencedDecl')
        n.ref = (rd['kind'], rd['name'], rd['id']) if rd else None
        if n.k == 'MemberExpr':
            n.a['arrow'] = j.get('isArrow', False)
        if n.k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            n.a['cast'] = j.get('castKind')
        if n.k == 'UnaryExprOrTypeTraitExpr':
            n.a['trait'] = j.get('name')
            at = j.get('argType')
            n.a['argty'] = self.ptype(at.get('desugaredQualType', at['qualType'])) if at else None
        if n.k == 'UnaryOperator':
            n.a['postfix'] = j.get('isPostfix', False)
        if n.k == 'VarDecl':
            n.a['static'] = j.get('storageClass') == 'static'
            n.a['init'] = 'init' in j
            n.a['const'] = 'const' in (t or {}).get('qualType', '')
        if n.k == 'CompoundAssignOperator':
            ct = j.get('computeResultType')
            n.a['cty'] = self.ptype(ct.get('desugaredQualType', ct['qualType'])) if ct else n.ty
            ct = j.get('computeLHSType')
            n.a['clty'] = self.ptype(ct.get('desugaredQualType', ct['qualType'])) if ct else n.ty
        if n.k == 'IfStmt':
            n.a['else'] = j.get('hasElse', False)
        if n.k in ('GotoStmt',):
            n.a['target'] = j.get('targetLabelDeclId')
        if n.k in ('LabelStmt',):
            n.a['decl'] = j.get('declId')
        inner = j.get('inner', []) or []
        if n.k in ('ForStmt',):
            n.inner = [self._conv(x) for x in inner]
        else:
            n.inner = [self._conv(x) for x in inner
                       if not (x.get('kind') or '').endswith(('Comment', 'Attr'))]
        if n.k == 'InitListExpr' and 'array_filler' in j:
            n.a['filler'] = True
            n.inner = [self._conv(x) for x in j['array_filler'] if x.get('kind') != 'ImplicitValueInitExpr']
        return n

    def fun(self, name):
        if name in self.fun_nodes:
            return self.fun_nodes[name]
        if name not in self.funs:
            return None
        n = self._conv(self.funs[name])
        self.fun_nodes[name] = n
        return n

    def gvar(self, name):
        if name not in self.gvars:
            return None
        x = self.gvars[name]
        if not isinstance(x, Node):
            x = self.gvars[name] = self._conv(x)
        return x


class Program:
    """Set of TUs loaded on demand; all record layouts are shared."""

    def __init__(self, libs=('common', 'mmg3d')):
        self.libs = libs
        self.tus = {}
        self.index = None

    def tu(self, rel):
        if rel not in self.tus:
            self.tus[rel] = TU(os.path.join(SRC, rel))
        return self.tus[rel]

    def _build_index(self):
        self.index = {}
        rx = re.compile(r'^(?:[A-Za-z_][A-Za-z0-9_ \t\*]*?\b)??([A-Za-z_][A-Za-z0-9_]*)[ \t]*\(', re.M)
        rx2 = re.compile(r'^\s*FORTRAN_(?:NAME|VARIADIC)\s*\(\s*([A-Z0-9_]+)', re.M)
        for lib in self.libs:
            for f in sorted(glob.glob(os.path.join(SRC, lib, '*.c'))):
                txt = open(f, errors='replace').read()
                for m in rx.finditer(txt):
                    # definition: the matching ')' is followed by '{'
                    i, d = m.end(), 1
                    while i < len(txt) and d:
                        c = txt[i]
                        d += (c == '(') - (c == ')')
                        i += 1
                    if re.match(r'\s*(/\*.*?\*/\s*|//[^\n]*\n\s*)*\{', txt[i:i + 400], re.S):
                        self.index.setdefault(m.group(1), []).append(os.path.relpath(f, SRC))
                for m in rx2.finditer(txt):
                    self.index.setdefault(m.group(1), []).append(os.path.relpath(f, SRC))

    def find(self, name, prefer=None):
        """-> (TU, Node) of the definition of name, or None."""
        if prefer is not None and name in prefer.funs:
            return prefer, prefer.fun(name)
        for t in self.tus.values():
            if name in t.funs:
                return t, t.fun(name)
        if self.index is None:
            self._build_index()
        for rel in self.index.get(name, []):
            t = self.tu(rel)
            if name in t.funs:
                return t, t.fun(name)
        return None


if __name__ == '__main__':
    P = Program()
    t, n = P.find(sys.argv[1])
    def show(n, d=0):
        if n is None:
            print('  ' * d + 'None'); return
        print('  ' * d + n.k, n.name or '', n.op or '', n.val or '', n.ref[1] if n.ref else '', n.ty, n.line, n.a or '')
        for c in n.inner: show(c, d + 1)
    show(n)
