"""Symbolic executor / verification-condition generator over the clang AST of
the real translation units.  Memory is a set of blocks (base id); every scalar
cell family (base, key) has a persistent update chain; loops are unrolled while
their guard is concrete and otherwise summarised by an inductively verified
parallel-map invariant, a user invariant, or a havoc of everything they modify.
"""
from fractions import Fraction
from .cfront import *
from . import term as tm
from .term import T, BV, add, sub, mul, eq, le, lt, ite, and_, or_, not_, truth, implies, is_c, toreal

MAXUNROLL = 600


# =================================================================== pointers
class Ptr:
    """base block, off = element index in the block, path = sub-object path inside
    a record element ('' = whole), idx = index inside an array sub-object."""
    __slots__ = ('base', 'off', 'path', 'idx', 'ty')

    def __init__(s, base, off, path, idx, ty):
        s.base, s.off, s.path, s.idx, s.ty = base, off, path, idx, ty

    def __repr__(s): return 'Ptr(%s,%s,%s,%s:%r)' % (s.base, tm.show(s.off, 3), s.path, s.idx, s.ty)

    def same(s, o):
        return s.base == o.base and s.path == o.path and _sameidx(s.idx, o.idx) and _sameidx(s.off, o.off)


def _sameidx(a, b):
    if a is None or b is None: return a is b
    return a is b or (is_c(a) and is_c(b) and a == b)


class PV:
    """guarded union of pointers: [(cond, Ptr)], conditions exclusive and exhaustive"""
    __slots__ = ('alts',)
    def __init__(s, alts): s.alts = alts
    def __repr__(s): return 'PV' + repr(s.alts)


class FnVal:
    def __init__(s, name): s.name = name
    def __repr__(s): return 'fn:' + s.name


class StrVal:
    def __init__(s, v): s.v = v
    def __repr__(s): return 'str:' + s.v


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


def null(ty=None): return Ptr(0, 0, '', None, ty)


def alts(p):
    if isinstance(p, Ptr): return [(True, p)]
    if isinstance(p, PV): return p.alts
    if is_c(p) and p == 0: return [(True, null())]
    if isinstance(p, (StrVal, FnVal)): return [(True, Ptr(-999999, 0, '', None, None))]
    raise Unsupported('not a pointer: %r' % (p,))


def mkpv(lst):
    """merge alternatives of the same object"""
    out = []
    for c, p in lst:
        c = truth(c)
        if c is False: continue
        for i, (c2, p2) in enumerate(out):
            if p2.base == p.base and p2.path == p.path and (p2.idx is None) == (p.idx is None):
                if p.base == 0:
                    out[i] = (or_(c2, c), p2)
                else:
                    out[i] = (or_(c2, c), Ptr(p.base, ite(c, p.off, p2.off), p.path,
                              None if p.idx is None else ite(c, p.idx, p2.idx), p2.ty or p.ty))
                break
        else:
            out.append((c, p))
    if len(out) == 1: return out[0][1]
    return PV(out)


def is_ptr(v): return isinstance(v, (Ptr, PV, FnVal, StrVal))


def nonnull(p):
    return or_(*[c for c, q in alts(p) if q.base != 0])


def ptr_eq(p, q):
    if isinstance(p, FnVal) and isinstance(q, FnVal): return p.name == q.name
    if isinstance(p, StrVal) or isinstance(q, StrVal):
        if isinstance(p, StrVal) and isinstance(q, StrVal): return p is q
        return False
    r = []
    for c1, a in alts(p):
        for c2, b in alts(q):
            if a.base != b.base: continue
            if a.base == 0: r.append(and_(c1, c2)); continue
            if a.path != b.path: continue
            e = eq(a.off, b.off)
            if a.idx is not None and b.idx is not None: e = and_(e, eq(a.idx, b.idx))
            r.append(and_(c1, c2, e))
    return or_(*r)


def vite(c, x, y):
    c = truth(c)
    if is_c(c): return x if c else y
    if x is y: return x
    if x is UNDEF: return y
    if y is UNDEF: return x
    if isinstance(x, FnVal) and isinstance(y, FnVal) and x.name == y.name: return x
    if is_ptr(x) or is_ptr(y):
        if isinstance(x, (StrVal, FnVal)) or isinstance(y, (StrVal, FnVal)):
            return PV([(c, a) for _, a in alts(x)] + [(not_(c), a) for _, a in alts(y)])
        return mkpv([(and_(c, k), p) for k, p in alts(x)] + [(and_(not_(c), k), p) for k, p in alts(y)])
    return ite(c, x, y)


# =================================================================== chains
class Chain:
    __slots__ = ('kind', 'prev', 'd', 'memo', 'epoch')

    def __init__(s, kind, prev, d):
        s.kind, s.prev, s.d, s.memo, s.epoch = kind, prev, d, {}, Chain.EPOCH


Chain.EPOCH = 0


def _ok(o): return o.id if isinstance(o, T) else ('c', o)


def read(ch, o):
    k = _ok(o)
    if k in ch.memo: return ch.memo[k]
    # walk down collecting conditional layers
    pend = []
    c = ch
    while True:
        if k in c.memo:
            v = c.memo[k]; break
        if c.kind == 'init':
            v = c.d(o); break
        if c.kind == 'store':
            e = eq(o, c.d[0])
            if e is True: v = c.d[1]; break
            if e is not False: pend.append((e, c.d[1], c))
            c = c.prev; continue
        if c.kind == 'map':
            s, cond, val = c.d
            e = tm.subst(cond, {s.id: o}) if not is_c(cond) else cond
            if e is True: v = vsubst(val, {s.id: o}); break
            if e is not False: pend.append((e, vsubst(val, {s.id: o}), c))
            c = c.prev; continue
        if c.kind == 'ite':
            cond, a, b = c.d
            v = vite(cond, read(a, o), read(b, o)); break
        raise AssertionError(c.kind)
    c.memo[k] = v
    for e, x, cc in reversed(pend):
        v = vite(e, x, v)
        cc.memo[k] = v
    ch.memo[k] = v
    return v


def vsubst(v, m):
    if isinstance(v, T): return tm.subst(v, m)
    if isinstance(v, Ptr):
        if isinstance(v.off, T) or isinstance(v.idx, T):
            return Ptr(v.base, tm.subst(v.off, m), v.path, None if v.idx is None else tm.subst(v.idx, m), v.ty)
        return v
    if isinstance(v, PV):
        return mkpv([(tm.subst(c, m) if isinstance(c, T) else c, vsubst(p, m)) for c, p in v.alts])
    return v


# =================================================================== state
class St:
    __slots__ = ('env', 'heap', 'pc', 'asm', 'ghost', 'dead', 'frames')

    def __init__(s):
        s.env, s.heap, s.pc, s.asm, s.ghost, s.dead = {}, {}, [], [], {}, False

    def clone(s):
        r = St()
        r.env, r.heap, r.pc, r.asm, r.ghost, r.dead = dict(s.env), dict(s.heap), list(s.pc), list(s.asm), dict(s.ghost), s.dead
        return r

    def become(s, o):
        s.env, s.heap, s.pc, s.asm, s.ghost, s.dead = o.env, o.heap, o.pc, o.asm, o.ghost, o.dead

    def add(s, c):
        c = truth(c)
        if c is True: return True
        if c is False:
            s.dead = True
            return False
        s.pc.append(c)
        return True


class Block:
    def __init__(s, base, name, ty, size=None, init=None, const=None, nullable=None):
        s.base, s.name, s.ty, s.size, s.init, s.const = base, name, ty, size, init, const
        s.local = False


class Obl:
    def __init__(s, name, hyps, goal, line=None, kind='ensures', fn=None):
        s.name, s.hyps, s.goal, s.line, s.kind, s.fn = name, hyps, goal, line, kind, fn
        s.status, s.backend, s.time, s.model = None, None, 0.0, None


class AbortPath(Exception):
    pass


NOOPS = {'fprintf', 'printf', 'fflush', 'perror', 'puts', 'putchar', 'fputs', 'vfprintf', 'free_', 'fputc', 'chrono',
         'printim', 'MMG5_excfun', 'snprintf', 'setbuf', 'signal'}


class Exec:
    def __init__(s, prog, policy=None, inline_depth=12):
        s.prog = prog
        s.policy = policy or {}
        s.blocks = {}
        s.nextbase = 1
        s.nextlocal = -1
        s.init_memo = {}
        s.obls = []
        s.assumed = set()
        s.inlined = set()
        s.depth = 0
        s.maxdepth = inline_depth
        s.iter_ctx = []
        s.retstack = []
        s.fnstack = []
        s.gbase = {}
        s.safety = set()            # 'bounds','null','assert','div'
        s.size_of = {}
        s.autoshape = True
        s.nonnull_fields = None
        s.default = 'inline'
        s.loopstats = {'unrolled': 0, 'summarised': 0, 'havoc': 0, 'invariant': 0}
        s.on_branch = None
        s.solver_decide = None
        s.strict_loops = False
        s.loop_specs = {}
        s.any_loop_spec = None
        s.reads_log = None
        s.exempt_alloc_fail = False
        s.writes_log = None
        s.alias = {}
        s.max_outcomes = 4000
        s.merge_returns = True
        s.loop_decide = False

    # ------------------------------------------------------------ symbols
    def fresh(s, name, so):
        if s.iter_ctx:
            tm._fresh[0] += 1
            return tm.app('%s!%d' % (name, tm._fresh[0]), so, *s.iter_ctx)
        return tm.fresh(name, so)

    def storesort(s, ty):
        if isinstance(ty, TInt): return ty.w if ty.w <= 16 else 'I'
        if isinstance(ty, TFlt): return 'R'
        raise Unsupported('storesort %r' % ty)

    def fresh_of(s, name, ty):
        if isinstance(ty, TPtr):
            return s.opaque_ptr(name, ty)
        return s.load_conv(s.fresh(name, s.storesort(ty)), ty)

    def opaque_ptr(s, name, ty):
        b = s.new_block(name, ty.to, None)
        c = s.fresh('isnull_' + name, 'B')
        return PV([(not_(c), Ptr(b, 0, '', None, ty.to)), (c, null(ty.to))])

    def load_conv(s, v, ty):
        """storage value -> C value"""
        if isinstance(ty, TInt) and ty.w <= 16 and not is_ptr(v):
            if isinstance(v, BV) or (isinstance(v, T) and isinstance(v.sort, int)):
                return tm.s2i(v) if ty.signed else tm.bv2i(v)
        return v

    def store_conv(s, v, ty):
        if v is UNDEF or is_ptr(v): return v
        if isinstance(ty, TPtr):
            return null(ty.to) if is_c(v) and v == 0 else v
        if isinstance(ty, TInt):
            if ty.w <= 16: return tm.i2bv(v, ty.w)
            return s.toI(v)
        if isinstance(ty, TFlt): return toreal(v) if not isinstance(v, Fraction) else v
        return v

    def toI(s, v):
        if isinstance(v, bool): return int(v)
        if isinstance(v, T) and v.sort == 'B': return ite(v, 1, 0)
        if isinstance(v, T) and v.sort == 'R': return tm.toint_trunc(v)
        if isinstance(v, Fraction): return int(v)
        return v

    # ------------------------------------------------------------ blocks
    def new_block(s, name, ty, size, init=None, local=False):
        if local:
            b = s.nextlocal; s.nextlocal -= 1
        else:
            b = s.nextbase; s.nextbase += 1
        n = 1
        fl = ty
        if isinstance(ty, TArr):
            while isinstance(fl, TArr):
                n *= (fl.n or 1); fl = fl.of
            if size is not None: size = mul(size, n)
        bl = Block(b, name, fl, size, init)
        bl.local = local
        s.blocks[b] = bl
        return b

    def flat(s, ty, pre=''):
        """flattened scalar cells of a type: [(key, scalar type)]"""
        k = (repr(ty), pre)
        r = s.size_of.get(k)
        if r is None:
            r = s.size_of[k] = list(s._flat(ty, pre))
        return r

    def _flat(s, ty, pre):
        if isinstance(ty, TRec):
            for f, ft in s.anytu.fields(ty.name):
                yield from s._flat(ft, pre + '.' + f if pre else f)
        elif isinstance(ty, TArr):
            for i in range(ty.n or 0):
                yield from s._flat(ty.of, '%s[%d]' % (pre, i))
        else:
            yield pre, ty

    @property
    def anytu(s):
        if s.fnstack: return s.fnstack[-1][0]
        for t in s.prog.tus.values(): return t

    def celltype(s, base, key):
        ty = s.blocks[base].ty
        if not key: return ty
        import re as _re
        for part in key.split('.'):
            m = _re.match(r'([^\[]*)((?:\[\d+\])*)$', part)
            if m.group(1): ty = s.anytu.field_type(ty.name, m.group(1))
            for _ in range(m.group(2).count('[')): ty = ty.of
        return ty

    def chain(s, st, base, key):
        c = st.heap.get((base, key))
        if c is None:
            c = s.init_chain(base, key)
            st.heap[(base, key)] = c
        return c

    def init_chain(s, base, key):
        c = s.init_memo.get((base, key))
        if c is None:
            c = s.init_memo[(base, key)] = Chain('init', None, s.init_fn(base, key))
        return c

    def init_fn(s, base, key):
        bl = s.blocks[base]
        ty = s.celltype(base, key)
        if bl.init == 'zero':
            z = null(ty.to) if isinstance(ty, TPtr) else s.store_conv(0, ty)
            return lambda o: z
        if bl.const is not None:
            tab = bl.const

            def rd(o):
                if is_c(o):
                    if 0 <= o < len(tab): return tab[o]
                    raise Unsupported('const table index %d out of range in %s' % (o, bl.name))
                v = tab[-1]
                for i in range(len(tab) - 2, -1, -1): v = vite(eq(o, i), tab[i], v)
                return v
            return rd
        nm = 'H_%s%s' % (bl.name, '.' + key if key else '')
        if isinstance(ty, TPtr):
            if bl.local: return lambda o: UNDEF
            return lambda o: s.init_ptr(base, key, o, ty, nm)
        if isinstance(ty, (TRec, TArr, TFun, TOpaque, TVoid)):
            if isinstance(ty, TOpaque) or isinstance(ty, TVoid):
                return lambda o: UNDEF
            raise Unsupported('cell %s of type %r' % (nm, ty))
        so = s.storesort(ty)
        if bl.local and bl.init is None:
            nm = '%s@%d' % (nm, base)
        return lambda o: s.init_scalar(nm, so, o, bl, ty)

    def init_scalar(s, nm, so, o, bl, ty):
        if bl.size is not None and is_c(bl.size) and bl.size == 1 and is_c(o) and o == 0:
            return tm.sym(nm, so)
        return tm.app(nm, so, o)

    def init_ptr(s, base, key, o, ty, nm):
        if not s.autoshape: raise Unsupported('opaque pointer %s[%s]' % (nm, o))
        # one symbolic element only: the target of a second, possibly equal, index would alias it
        if not is_c(o) and any('!' in y.a[0] for y in tm.syms(o)): raise Unsupported('opaque pointer %s[%s]' % (nm, o))
        k0 = ('ptridx', base, key)
        q = s.init_memo.setdefault(k0, o if not is_c(o) else 'const')
        if not (isinstance(q, str) and is_c(o)) and q is not o: raise Unsupported('opaque pointers %s[%s], %s[%s]' % (nm, tm.show(o, 3), nm, q if isinstance(q, str) else tm.show(q, 3)))
        k = ('ptr', base, key, o if is_c(o) else o.id)
        v = s.init_memo.get(k)
        if v is None:
            if isinstance(ty.to, TFun):
                v = FnVal(nm)
            else:
                b = s.new_block('%s%s' % (nm[2:], '_%d' % o if is_c(o) and o else '' if is_c(o) else '_k'), ty.to, None)
                bl = s.blocks[base]
                rn = '%s.%s' % (bl.ty, key)
                if s.nonnull_fields is not None and rn in s.nonnull_fields:
                    v = Ptr(b, 0, '', None, ty.to)
                else:
                    c = tm.sym('isnull_%s_%s' % (nm, o if is_c(o) else 'k'), 'B')
                    v = PV([(not_(c), Ptr(b, 0, '', None, ty.to)), (c, null(ty.to))])
            s.init_memo[k] = v
        return v

    # ------------------------------------------------------------ obligations
    def oblige(s, st, goal, name, line=None, kind='ensures'):
        goal = truth(goal)
        s.obls.append(Obl(name, list(st.pc) + list(st.asm) + list(s.global_hyps()), goal, line, kind,
                          s.fnstack[-1][1] if s.fnstack else None))

    def global_hyps(s): return []

    # ------------------------------------------------------------ lvalues
    def key_of(s, p, sub):
        """list of (cond, key) for a scalar access at pointer p with pointee path sub"""
        base = p.path
        if p.idx is not None:
            if is_c(p.idx):
                return [(True, '%s[%d]%s' % (base, p.idx, ('.' + sub) if sub and not sub.startswith('[') else sub))]
            n = s.arrlen(p)
            return [(eq(p.idx, i), '%s[%d]%s' % (base, i, ('.' + sub) if sub else '')) for i in range(n)]
        if base and sub:
            return [(True, base + ('' if sub.startswith('[') else '.') + sub)]
        return [(True, base or sub)]

    def arrlen(s, p):
        ty = s.blocks[p.base].ty
        t = s.celltype(p.base, p.path)
        n = 1
        while isinstance(t, TArr):
            n *= t.n; t = t.of
        return n

    def check_access(s, st, p, cond, node):
        if p.base == 0: return
        b = s.blocks.get(p.base)
        if b is None: return
        fr = st.ghost.get('freed:%d' % p.base)
        if fr is not None and not (isinstance(fr, int) and fr == 0):
            s.oblige(st, not_(and_(cond, not_(eq(fr, 0)))), 'no access to %s after it moved' % b.name, node.line if node else None, 'memory')
        if 'bounds' in s.safety and b.size is not None:
            g = and_(le(0, p.off), lt(p.off, b.size))
            if g is not True:
                s.oblige(st, implies(cond, g), 'in-bounds access to %s' % b.name, node.line if node else None, 'bounds')
        if 'bounds' in s.safety and p.idx is not None and not is_c(p.idx):
            n = s.arrlen(p)
            s.oblige(st, implies(cond, and_(le(0, p.idx), lt(p.idx, n))), 'in-bounds index of %s.%s' % (b.name, p.path),
                     node.line if node else None, 'bounds')

    def load(s, st, p, ty, node=None, sub=''):
        out = []
        for c, q in alts(p):
            if q.base == 0:
                if 'null' in s.safety and c is not False:
                    s.oblige(st, not_(c), 'non-null dereference', node.line if node else None, 'null')
                continue
            if q.base == -999999: raise Unsupported('load from string')
            s.check_access(st, q, c, node)
            v = None
            for kc, key in reversed(s.key_of(q, sub)):
                w = s.load1(st, q.base, key, q.off, ty)
                v = w if v is None else vite(kc, w, v)
            out.append((c, v))
        if not out:
            st.dead = True
            return s.fresh_of('deadload', ty) if isinstance(ty, (TInt, TFlt)) else null(getattr(ty, 'to', None))
        v = out[-1][1]
        for c, w in reversed(out[:-1]): v = vite(c, w, v)
        return v

    def load1(s, st, base, key, off, ty):
        bl = s.blocks[base]
        if bl.ty is None or isinstance(bl.ty, TVoid):
            bl.ty = ty
        cty = s.celltype(base, key)
        v = read(s.chain(st, base, key), off)
        if s.reads_log is not None: s.reads_log.append((base, key, off, v))
        return s.load_conv(v, cty)

    def store(s, st, p, v, ty, node=None, sub=''):
        al = alts(p)
        live = [(c, q) for c, q in al if q.base != 0]
        if len(live) != len(al) and 'null' in s.safety:
            s.oblige(st, or_(*[c for c, q in live]), 'non-null dereference', node.line if node else None, 'null')
        if not live:
            st.dead = True
            return
        for c, q in live:
            s.check_access(st, q, c, node)
            if len(live) == 1: c = True
            keys = s.key_of(q, sub)
            for kc, key in keys:
                s.store1(st, q.base, key, q.off, v, and_(c, kc if len(keys) > 1 else True))

    def store1(s, st, base, key, off, v, cond=True):
        bl = s.blocks[base]
        if bl.ty is None or isinstance(bl.ty, TVoid): raise Unsupported('store to untyped block')
        if bl.const is not None: raise Unsupported('store to constant')
        cty = s.celltype(base, key)
        v = s.store_conv(v, cty)
        ch = s.chain(st, base, key)
        if cond is not True:
            v = vite(cond, v, read(ch, off))
        if bl.size is not None and is_c(bl.size) and bl.size == 1 and is_c(off):
            pass
        old = ch
        # overwrite of the same cell: drop the shadowed node
        while ch.kind == 'store' and ch.epoch == Chain.EPOCH and eq(ch.d[0], off) is True: ch = ch.prev
        st.heap[(base, key)] = Chain('store', ch, (off, v))
        if s.writes_log is not None: s.writes_log.append((base, key, off, v))

    # pointee access of a (possibly aggregate) value
    def copy_obj(s, st, dst, src, ty, node=None):
        for sub, cty in s.flat(ty):
            s.store(st, dst, s.load(st, src, cty, node, sub), cty, node, sub)

    def padd(s, p, n):
        """pointer + n elements of its pointee type"""
        if isinstance(p, PV): return mkpv([(c, s.padd(q, n)) for c, q in p.alts])
        if not isinstance(p, Ptr): raise Unsupported('pointer arithmetic on %r' % (p,))
        if p.base == 0: return p
        if is_c(n) and n == 0: return p
        k = 1
        t = p.ty
        while isinstance(t, TArr):
            k *= t.n; t = t.of
        d = mul(n, k)
        if p.idx is not None:
            return Ptr(p.base, p.off, p.path, add(p.idx, d), p.ty)
        if p.path: raise Unsupported('pointer arithmetic inside a record field')
        return Ptr(p.base, add(p.off, d), p.path, None, p.ty)

    def field_ptr(s, p, f, fty):
        if isinstance(p, PV): return mkpv([(c, s.field_ptr(q, f, fty)) for c, q in p.alts])
        if p.base == 0: return Ptr(0, 0, '', None, fty)
        pre = p.path
        if p.idx is not None:
            if not is_c(p.idx): raise Unsupported('symbolic index of embedded record')
            pre = '%s[%d]' % (pre, p.idx)
        return Ptr(p.base, p.off, pre + '.' + f if pre else f, None, fty)

    def decay(s, p, ty):
        """array lvalue -> pointer to first element"""
        if isinstance(p, PV): return mkpv([(c, s.decay(q, ty)) for c, q in p.alts])
        if p.base == 0: return p
        if p.path and p.idx is None:
            inner = ty.of
            return Ptr(p.base, p.off, p.path, 0, inner)
        return Ptr(p.base, p.off, p.path, p.idx, ty.of)

    # ------------------------------------------------------------ expressions
    def lval(s, n, st):
        """-> ('v', declid) or pointer to the object"""
        k = n.k
        if k == 'ParenExpr': return s.lval(n.inner[0], st)
        if k == 'DeclRefExpr':
            kind, name, did = n.ref
            if kind in ('VarDecl', 'ParmVarDecl'):
                if did in st.env:
                    v = st.env[did]
                    if isinstance(v, tuple) and v[0] == 'blk':
                        return Ptr(v[1], 0, '', None, n.ty)
                    return ('v', did, n.ty)
                return s.global_lv(name, did, st, n.ty)
            raise Unsupported('lvalue decl %s' % kind)
        if k == 'MemberExpr':
            if n.a['arrow']:
                b = s.ev(n.inner[0], st)
                s_ty = n.inner[0].ty
            else:
                b = s.lval(n.inner[0], st)
                if isinstance(b, tuple): raise Unsupported('member of value')
            b = s.retype(b, n.inner[0].ty.to if n.a['arrow'] else n.inner[0].ty)
            return s.field_ptr(b, n.name, n.ty)
        if k == 'ArraySubscriptExpr':
            b, i = s.ev(n.inner[0], st), s.ev(n.inner[1], st)
            if not is_ptr(b): b, i = i, b
            return s.retype(s.padd(s.cast_ptr(b, n.ty), s.toI(i)), n.ty)
        if k == 'UnaryOperator' and n.op == '*':
            return s.retype(s.ev(n.inner[0], st), n.ty)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.a['cast'] in ('NoOp', 'BitCast'):
            return s.lval(n.inner[0], st)
        if k == 'CompoundLiteralExpr':
            b = s.new_block('lit', n.ty, 1, local=True)
            p = Ptr(b, 0, '', None, n.ty)
            s.init_var(st, p, n.ty, n.inner[0])
            return p
        if k == 'StringLiteral':
            return StrVal(n.val or '')
        if k == 'UnaryOperator' and n.op == '__extension__':
            return s.lval(n.inner[0], st)
        if k == 'PredefinedExpr': return StrVal('__func__')
        raise Unsupported('lvalue %s line %s' % (k, n.line))

    def retype(s, p, ty):
        if isinstance(p, Ptr):
            if p.ty is ty: return p
            return Ptr(p.base, p.off, p.path, p.idx, ty)
        if isinstance(p, PV): return PV([(c, s.retype(q, ty)) for c, q in p.alts])
        return p

    def cast_ptr(s, p, to):
        """pointer conversion to pointee type `to`"""
        if isinstance(p, PV): return PV([(c, s.cast_ptr(q, to)) for c, q in p.alts])
        if not isinstance(p, Ptr): return p
        if p.base == 0: return null(to)
        if isinstance(to, TVoid) or to is None: return p
        b = s.blocks.get(p.base)
        if b is not None and (b.ty is None or isinstance(b.ty, TVoid)):
            fl, n = to, 1
            while isinstance(fl, TArr): n *= fl.n; fl = fl.of
            b.ty = fl
            if getattr(b, 'bytes', None) is not None and b.size is None:
                q = s.divbytes(b.bytes, s.anytu.sizeof(fl))
                b.size = q
        return Ptr(p.base, p.off, p.path, p.idx, to)

    def divbytes(s, nbytes, sz):
        if is_c(nbytes): return nbytes // sz if nbytes % sz == 0 else None
        c, t = tm._parts(nbytes)
        if c % sz == 0 and all(k % sz == 0 for k, _ in t): return tm._fdiv(nbytes, sz)
        if nbytes.op == 'ite':
            a, b = s.divbytes(nbytes.a[1], sz), s.divbytes(nbytes.a[2], sz)
            if a is not None and b is not None: return ite(nbytes.a[0], a, b)
        return None

    def global_lv(s, name, did, st, ty):
        key = s.gkey(name, did)
        if key in s.gbase: return Ptr(s.gbase[key], 0, '', None, ty)
        tu = s.anytu
        g = tu.gvar(name)
        cst = None
        if g is not None:
            if not (g.inner and g.a.get('const')):
                # the definition may live in another TU; const tables are static
                pass
            if g.inner and g.a.get('const'):
                cst = s.const_table(g.inner[-1], g.ty)
        b = s.new_block('G_' + name, ty, 1)
        if cst is not None:
            s.blocks[b].const = cst
        s.gbase[key] = b
        return Ptr(b, 0, '', None, ty)

    def gkey(s, name, did):
        return ('static', did) if did in s.static_ids else name

    static_ids = set()

    def const_table(s, n, ty):
        out = []
        st = St()

        def rec(n, ty):
            if isinstance(ty, TArr):
                if n is not None and n.k == 'StringLiteral':
                    raise Unsupported('string table')
                items = n.inner if n is not None else []
                for i in range(ty.n):
                    rec(items[i] if i < len(items) else None, ty.of)
            elif isinstance(ty, TRec):
                raise Unsupported('const record table')
            else:
                v = s.ev(n, st) if n is not None else 0
                out.append(s.store_conv(v, ty))
        rec(n, ty)
        return out

    def rval_of_lv(s, lv, ty, st, node):
        if isinstance(lv, tuple):
            v = st.env[lv[1]]
            if v is UNDEF: v = st.env[lv[1]] = s.fresh_of('uninit', ty) if not isinstance(ty, TRec) else v
            return v
        if isinstance(lv, StrVal): return lv
        if isinstance(ty, TArr): return s.decay(lv, ty)
        if isinstance(ty, TRec): return lv      # aggregate: pointer stands for value
        if isinstance(ty, TFun): return lv
        return s.load(st, lv, ty, node)

    def assign(s, lv, v, ty, st, node=None):
        if isinstance(lv, tuple):
            st.env[lv[1]] = s.conv(v, ty) if not isinstance(ty, (TPtr,)) else (null(ty.to) if is_c(v) and v == 0 else v)
            return st.env[lv[1]]
        if isinstance(ty, TRec):
            s.copy_obj(st, lv, v, ty, node)
            return lv
        s.store(st, lv, v, ty, node)
        return s.conv(v, ty)

    def conv(s, v, ty):
        """C conversion of a value to scalar type ty"""
        if v is UNDEF: return v
        if isinstance(ty, TInt):
            if is_ptr(v): return v
            v = s.toI(v)
            if ty.w <= 16:
                if is_c(v):
                    v &= (1 << ty.w) - 1
                    return v - (1 << ty.w) if ty.signed and v >> (ty.w - 1) else v
                b = tm.i2bv(v, ty.w)
                return tm.s2i(b) if ty.signed else tm.bv2i(b)
            if is_c(v) and not ty.signed and v < 0: v &= (1 << ty.w) - 1
            return v
        if isinstance(ty, TFlt):
            return toreal(s.toI(v)) if not (isinstance(v, Fraction) or (isinstance(v, T) and v.sort == 'R')) else v
        return v

    def ev(s, n, st):
        k = n.k
        f = getattr(s, 'ev_' + k, None)
        if f is None: raise Unsupported('expression %s line %s' % (k, n.line))
        return f(n, st)

    def ev_ParenExpr(s, n, st): return s.ev(n.inner[0], st)
    def ev_ConstantExpr(s, n, st): return s.ev(n.inner[0], st)

    def ev_IntegerLiteral(s, n, st): return int(n.val)
    def ev_CharacterLiteral(s, n, st): return int(n.val)
    def ev_FloatingLiteral(s, n, st): return Fraction(float(n.val))
    def ev_StringLiteral(s, n, st): return StrVal(n.val or '')
    def ev_PredefinedExpr(s, n, st): return StrVal('__func__')

    def ev_DeclRefExpr(s, n, st):
        kind, name, did = n.ref
        if kind == 'EnumConstantDecl':
            e = s.anytu.enums
            if name in e: return e[name]
            raise Unsupported('enum ' + name)
        if kind == 'FunctionDecl': return FnVal(name)
        return s.rval_of_lv(s.lval(n, st), n.ty, st, n)

    def ev_MemberExpr(s, n, st): return s.rval_of_lv(s.lval(n, st), n.ty, st, n)
    def ev_ArraySubscriptExpr(s, n, st): return s.rval_of_lv(s.lval(n, st), n.ty, st, n)
    def ev_CompoundLiteralExpr(s, n, st): return s.rval_of_lv(s.lval(n, st), n.ty, st, n)

    def ev_ImplicitValueInitExpr(s, n, st): return Fraction(0) if isinstance(n.ty, TFlt) else 0

    def ev_ImplicitCastExpr(s, n, st):
        c = n.a['cast']
        x = n.inner[0]
        if c == 'LValueToRValue':
            return s.rval_of_lv(s.lval(x, st), x.ty, st, x)
        if c == 'ArrayToPointerDecay':
            lv = s.lval(x, st)
            if isinstance(lv, StrVal): return lv
            return s.decay(lv, x.ty)
        if c in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return s.ev(x, st)
        v = s.ev(x, st)
        if c in ('NoOp',): return v
        if c == 'NullToPointer': return null(n.ty.to)
        if c == 'BitCast': return s.cast_ptr(v, n.ty.to)
        if c in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'BooleanToSignedIntegral'):
            return s.conv(v, n.ty)
        if c in ('IntegralToBoolean', 'FloatingToBoolean'): return truth(v)
        if c == 'PointerToBoolean': return nonnull(v)
        if c == 'ToVoid': return 0
        if c == 'IntegralToPointer':
            if is_c(v) and v == 0: return null(n.ty.to)
        if c == 'PointerToIntegral': return v
        raise Unsupported('cast %s' % c)
    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def ev_UnaryExprOrTypeTraitExpr(s, n, st):
        if n.a['trait'] != 'sizeof': raise Unsupported('trait')
        t = n.a['argty']
        if t is None: t = n.inner[0].ty
        return s.anytu.sizeof(t)

    def ev_UnaryOperator(s, n, st):
        op, x = n.op, n.inner[0]
        if op == '&':
            lv = s.lval(x, st)
            if isinstance(lv, tuple): raise Unsupported('address of register variable')
            if isinstance(x.ty, TFun): return s.ev(x, st)
            return s.retype(lv, x.ty)
        if op == '*':
            if isinstance(n.ty, TFun): return s.ev(x, st)
            return s.rval_of_lv(s.lval(n, st), n.ty, st, n)
        if op in ('++', '--'):
            lv = s.lval(x, st)
            old = s.rval_of_lv(lv, x.ty, st, x)
            d = 1 if op == '++' else -1
            if isinstance(x.ty, TPtr): new = s.padd(old, d)
            else: new = add(s.toI(old) if isinstance(x.ty, TInt) else old, d)
            new = s.assign(lv, new, x.ty, st, n)
            return old if n.a['postfix'] else new
        v = s.ev(x, st)
        if op == '!':
            if is_ptr(v): return not_(nonnull(v))
            return not_(truth(v))
        if op == '-': return tm.neg(s.toI(v) if isinstance(n.ty, TInt) else v)
        if op == '+': return v
        if op == '~': return sub(-1, s.toI(v))
        if op == '__extension__': return v
        raise Unsupported('unary ' + op)

    def cond(s, v):
        if is_ptr(v): return nonnull(v)
        return truth(v)

    def ev_BinaryOperator(s, n, st):
        op = n.op
        l, r = n.inner
        if op == '=':
            if isinstance(n.ty, TRec):
                lv = s.lval(l, st)
                v = s.ev(r, st)
                return s.assign(lv, v, n.ty, st, n)
            v = s.ev(r, st)
            lv = s.lval(l, st)
            return s.assign(lv, v, l.ty, st, n)
        if op == ',':
            s.ev(l, st)
            return s.ev(r, st)
        if op in ('&&', '||'):
            a = s.cond(s.ev(l, st))
            if is_c(a):
                if op == '&&' and not a: return False
                if op == '||' and a: return True
                return s.cond(s.ev(r, st))
            if s.pure(r):
                # evaluate under the guard so that safety obligations see it
                st2 = st.clone()
                st2.add(a if op == '&&' else not_(a))
                b = s.cond(s.ev(r, st2))
                for kk, vv in st2.heap.items(): st.heap.setdefault(kk, vv)
                if st2.dead: b = False
                return and_(a, b) if op == '&&' else or_(a, b)
            pc, na = len(st.pc), len(st.asm)
            st1, st2 = st.clone(), st.clone()
            c = a if op == '&&' else not_(a)
            st1.add(c); st2.add(not_(c))
            b = s.cond(s.ev(r, st1))
            live = [q for q in ((st1, b), (st2, op == '||')) if not q[0].dead]
            m, v = s.merge(pc, na, live)
            st.become(m)
            return v
        a, b = s.ev(l, st), s.ev(r, st)
        return s.arith(op, a, b, l.ty, r.ty, n.ty, n, st)

    def arith(s, op, a, b, lt_, rt, ty, n, st):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if is_ptr(a) or is_ptr(b):
                if op in ('==', '!='):
                    e = ptr_eq(a, b) if not (isinstance(a, PV) and any(p.base == -999999 for _, p in a.alts)) else s.fresh('peq', 'B')
                    return e if op == '==' else not_(e)
                d = s.pdiff(a, b)
                a, b = d, 0
            if op == '==': return eq(a, b)
            if op == '!=': return not_(eq(a, b))
            if op == '<': return lt(a, b)
            if op == '>': return lt(b, a)
            if op == '<=': return le(a, b)
            return le(b, a)
        if isinstance(ty, TPtr):
            if op == '+': return s.padd(a, s.toI(b)) if is_ptr(a) else s.padd(b, s.toI(a))
            if op == '-': return s.padd(a, tm.neg(s.toI(b)))
        if op == '-' and is_ptr(a) and is_ptr(b): return s.pdiff(a, b)
        if isinstance(ty, TInt):
            a, b = s.toI(a), s.toI(b)
        if op == '+': return add(a, b)
        if op == '-': return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if 'div' in s.safety and not (is_c(b) and b != 0):
                s.oblige(st, not_(eq(b, 0)), 'division by non-zero', n.line, 'div')
            if isinstance(ty, TFlt):
                if is_c(b) and b == 0: return s.fresh('divzero', 'R')
                return tm.rdiv(a, b)
            return tm.idiv(a, b)
        if op == '%': return tm.imod(a, b)
        if op == '&': return tm.bitand(a, b)
        if op == '|': return tm.bitor(a, b)
        if op == '^': return tm.bitxor(a, b)
        if op == '<<':
            if is_c(b): return mul(a, 1 << b)
            if is_c(a):
                v = a << 31
                for i in range(30, -1, -1): v = ite(eq(b, i), a << i, v)
                return v
        if op == '>>':
            if is_c(b): return tm._fdiv(a, 1 << b)
        raise Unsupported('operator %s' % op)

    def pdiff(s, a, b):
        if isinstance(a, PV): a = [q for c, q in a.alts if q.base][0]
        if isinstance(b, PV): b = [q for c, q in b.alts if q.base][0]
        if a.base != b.base: raise Unsupported('difference of unrelated pointers')
        return sub(a.off, b.off) if a.idx is None else sub(a.idx, b.idx)

    def ev_CompoundAssignOperator(s, n, st):
        l, r = n.inner
        b = s.ev(r, st)
        lv = s.lval(l, st)
        a = s.rval_of_lv(lv, l.ty, st, l)
        cty = n.a['cty']
        if not isinstance(l.ty, TPtr): a = s.conv(a, n.a['clty'])
        v = s.arith(n.op[:-1], a, b, l.ty, r.ty, cty, n, st)
        return s.assign(lv, s.conv(v, l.ty) if not isinstance(l.ty, TPtr) else v, l.ty, st, n)

    def ev_ConditionalOperator(s, n, st):
        c = s.cond(s.ev(n.inner[0], st))
        if is_c(c): return s.ev(n.inner[1 if c else 2], st)
        if s.pure(n.inner[1]) and s.pure(n.inner[2]):
            s1, s2 = st.clone(), st.clone()
            s1.add(c); s2.add(not_(c))
            a = s.ev(n.inner[1], s1); b = s.ev(n.inner[2], s2)
            for q in (s1, s2):
                for kk, vv in q.heap.items(): st.heap.setdefault(kk, vv)
            if s1.dead: st.add(not_(c)); return b
            if s2.dead: st.add(c); return a
            return vite(c, a, b)
        pc, na = len(st.pc), len(st.asm)
        s1, s2 = st.clone(), st.clone()
        s1.add(c); s2.add(not_(c))
        a = s.ev(n.inner[1], s1); b = s.ev(n.inner[2], s2)
        live = [q for q in ((s1, a), (s2, b)) if not q[0].dead]
        m, v = s.merge(pc, na, live)
        st.become(m)
        return v

    def ev_StmtExpr(s, n, st):
        outs = s.stmts(n.inner[0].inner, 0, st.clone())
        pc, na = len(st.pc), len(st.asm)
        live = []
        for kind, q, v in outs:
            if kind != 'next': raise Unsupported('jump out of statement expression')
            live.append((q, 0))
        if not live:
            st.dead = True
            return 0
        m, v = s.merge(pc, na, live)
        st.become(m)
        return v

    def ev_InitListExpr(s, n, st):
        if len(n.inner) == 1: return s.ev(n.inner[0], st)
        raise Unsupported('init list value')

    def pure(s, n):
        for x in n.walk():
            if x.k in ('CallExpr', 'CompoundAssignOperator', 'StmtExpr'):
                if x.k == 'CallExpr':
                    c = callee_name(x)
                    if c in ('fabs', 'abs', 'sqrt', 'labs', 'floor', 'MMG5_abs'): continue
                return False
            if x.k == 'BinaryOperator' and x.op == '=': return False
            if x.k == 'UnaryOperator' and x.op in ('++', '--'): return False
        return True

    # ------------------------------------------------------------ merge
    def merge(s, npc, nasm, lst):
        """lst: [(state, value)], all extending the same prefix"""
        if not lst:
            r = St(); r.dead = True
            return r, 0
        if len(lst) == 1:
            return lst[0]
        conds = [and_(*q.pc[npc:]) for q, _ in lst]
        r = lst[-1][0].clone()
        r.pc = list(lst[0][0].pc[:npc])
        r.asm = list(lst[0][0].asm[:nasm])
        cov = or_(*conds)
        if cov is not True: r.pc.append(cov)           # the merged paths need not be all the paths
        for (q, _), c in zip(lst, conds):
            for f in q.asm[nasm:]:
                r.asm.append(implies(c, f))
        val = lst[-1][1]
        for (q, v), c in zip(reversed(lst[:-1]), reversed(conds[:-1])):
            for kk in q.env.keys() | r.env.keys():
                a, b = q.env.get(kk, UNDEF), r.env.get(kk, UNDEF)
                if a is b: continue
                if isinstance(a, tuple) or isinstance(b, tuple):
                    if a == b: continue
                    r.env[kk] = a if isinstance(a, tuple) else b
                    continue
                r.env[kk] = s.jmerge(c, a, b)
            for kk in q.heap.keys() | r.heap.keys():
                a, b = q.heap.get(kk), r.heap.get(kk)
                if a is b: continue
                if a is None: a = s.init_chain(*kk)
                if b is None: b = s.init_chain(*kk)
                if a is b: continue
                r.heap[kk] = s.jchain(c, a, b)
            for kk in q.ghost.keys() | r.ghost.keys():
                a, b = q.ghost.get(kk), r.ghost.get(kk)
                if a is b: continue
                if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
                    if a == b: continue
                    r.ghost[kk] = ('ite', c, a, b)
                    continue
                if a is None: a = 0
                if b is None: b = 0
                r.ghost[kk] = vite(c, a, b)
            val = s.jmerge(c, v, val)
        return r, val

    def jmerge(s, c, a, b):
        if a is b: return a
        if is_c(a) and is_c(b) and not is_ptr(a) and not is_ptr(b) and a is not UNDEF and b is not UNDEF \
                and type(a) == type(b) and a == b: return a
        if not is_ptr(a) and not is_ptr(b) and a is not UNDEF and b is not UNDEF:
            sa, sb = tm.sort(a), tm.sort(b)
            if sa == 'B' and sb != 'B': a = s.toI(a)
            elif sb == 'B' and sa != 'B': b = s.toI(b)
        return vite(c, a, b)

    def jchain(s, c, a, b):
        # same single cell on the same ancestor: merge the values instead
        if a.kind == 'store' and b.kind == 'store' and a.prev is b.prev and eq(a.d[0], b.d[0]) is True:
            return Chain('store', a.prev, (a.d[0], s.jmerge(c, a.d[1], b.d[1])))
        if a.kind == 'store' and a.prev is b:
            return Chain('store', b, (a.d[0], s.jmerge(c, a.d[1], read(b, a.d[0]))))
        if b.kind == 'store' and b.prev is a:
            return Chain('store', a, (b.d[0], s.jmerge(c, read(a, b.d[0]), b.d[1])))
        return Chain('ite', None, (c, a, b))

    # ------------------------------------------------------------ statements
    def stmts(s, lst, i, st):
        """execute statements lst[i:]; returns outcomes [(kind, state, value)]"""
        outs = []
        cur = st
        labels = {n.a.get('decl'): j for j, n in enumerate(lst) if n is not None and n.k == 'LabelStmt'}
        npc, nasm = len(st.pc), len(st.asm)
        jump = {}                      # forward jumps: statement index -> states
        while i < len(lst):
            if i in jump:
                m, _ = s.merge(npc, nasm, [(q, 0) for q in jump.pop(i) + ([cur] if cur is not None else [])])
                cur = m
            if cur is None:
                i += 1
                continue
            r = s.stmt(lst[i], cur)
            nxt = []
            for o in r:
                if o[1].dead: continue
                if o[0].startswith('goto:') and o[0][5:] in labels:
                    j = labels[o[0][5:]]
                    if j <= i: raise Unsupported('backward goto')
                    jump.setdefault(j, []).append(o[1])
                    continue
                (nxt if o[0] == 'next' else outs).append(o)
            if len(nxt) > 1:
                raise Unsupported('unmerged outcomes')
            cur = nxt[0][1] if nxt else None
            if cur is None and not jump: return outs
            i += 1
        if cur is not None: outs.append(('next', cur, None))
        return outs

    def stmt(s, n, st):
        if n is None: return [('next', st, None)]
        f = getattr(s, 'st_' + n.k, None)
        if f is None:
            s.ev(n, st)
            return [('next', st, None)] if not st.dead else []
        return f(n, st)

    def st_NullStmt(s, n, st): return [('next', st, None)]

    def st_CompoundStmt(s, n, st):
        return s.stmts(n.inner, 0, st)

    def st_DeclStmt(s, n, st):
        for d in n.inner:
            if d.k != 'VarDecl': continue
            s.decl(d, st)
            if st.dead: return []
        return [('next', st, None)]

    def decl(s, d, st):
        ty = d.ty
        if d.a.get('static'):
            s.static_ids.add(d.id)
            key = ('static', d.id)
            if key not in s.gbase:
                b = s.new_block('S_%s_%s' % (s.fnstack[-1][1] if s.fnstack else '', d.name), ty, 1)
                s.gbase[key] = b
                if d.inner and d.a.get('const'):
                    s.blocks[b].const = s.const_table(d.inner[-1], ty)
            return
        addr = s.addr_taken()
        if isinstance(ty, (TArr, TRec)) or d.id in addr:
            if isinstance(ty, TArr) and ty.n is None: raise Unsupported('VLA')
            b = s.new_block(d.name, ty, 1 if not isinstance(ty, TArr) else 1, local=True)
            st.env[d.id] = ('blk', b)
            if d.inner and d.a.get('init'):
                s.init_var(st, Ptr(b, 0, '', None, ty), ty, d.inner[-1])
            return
        if d.inner and d.a.get('init'):
            v = s.ev(d.inner[-1], st)
            st.env[d.id] = UNDEF
            s.assign(('v', d.id, ty), v, ty, st, d)
        else:
            st.env[d.id] = UNDEF

    def init_var(s, st, p, ty, n):
        if isinstance(ty, TArr):
            q = s.decay(p, ty)
            if n.k == 'StringLiteral':
                txt = (n.val or '').strip('"')
                for i in range(ty.n):
                    s.store(st, s.padd(q, i), ord(txt[i]) if i < len(txt) else 0, ty.of, n)
                return
            items = n.inner if n.k == 'InitListExpr' else [n]
            for i in range(ty.n):
                e = s.padd(q, i)
                if i < len(items) and items[i] is not None: s.init_var(st, s.retype(e, ty.of), ty.of, items[i])
                else: s.zero_obj(st, s.retype(e, ty.of), ty.of)
        elif isinstance(ty, TRec) and n.k == 'InitListExpr':
            for i, (f, ft) in enumerate(s.anytu.fields(ty.name)):
                q = s.field_ptr(p, f, ft)
                if i < len(n.inner) and n.inner[i] is not None and n.inner[i].k != 'ImplicitValueInitExpr':
                    s.init_var(st, q, ft, n.inner[i])
                else: s.zero_obj(st, q, ft)
        elif isinstance(ty, TRec):
            s.copy_obj(st, p, s.ev(n, st), ty)
        else:
            s.store(st, p, s.ev(n, st), ty, n)

    def zero_obj(s, st, p, ty):
        for sub, cty in s.flat(ty):
            s.store(st, p, null(cty.to) if isinstance(cty, TPtr) else 0, cty, None, sub)

    def addr_taken(s):
        if not s.fnstack: return set()
        fn = s.fnstack[-1][2]
        r = fn.a.get('addr')
        if r is None:
            r = set()
            for x in fn.walk():
                if x.k == 'UnaryOperator' and x.op == '&':
                    y = x.inner[0]
                    while y.k == 'ParenExpr': y = y.inner[0]
                    if y.k == 'DeclRefExpr': r.add(y.ref[2])
            fn.a['addr'] = r
        return r

    def st_IfStmt(s, n, st):
        c = s.cond(s.ev(n.inner[0], st))
        if st.dead: return []
        then = n.inner[1]
        els = n.inner[2] if len(n.inner) > 2 else None
        if not is_c(c): c = s.decide(st, c)
        if is_c(c):
            if c: return s.stmt(then, st)
            return s.stmt(els, st) if els is not None else [('next', st, None)]
        if s.on_branch: s.on_branch(n, c, st)
        pc, na = len(st.pc), len(st.asm)
        s1, s2 = st.clone(), st
        s1.add(c); s2.add(not_(c))
        o1 = s.stmt(then, s1)
        o2 = s.stmt(els, s2) if els is not None else [('next', s2, None)]
        return s.joinouts(pc, na, o1 + o2)

    def ask(s, st, c):
        """truth value of c under the path condition when the solver settles it quickly"""
        from . import prove
        h = list(st.pc) + list(st.asm)
        if prove.satisfiable(h + [c], 3) == prove.z3.unsat: return False
        if prove.satisfiable(h + [not_(c)], 3) == prove.z3.unsat: return True
        return c

    def decide(s, st, c):
        if s.solver_decide is not None:
            return s.solver_decide(st, c)
        return c

    def joinouts(s, pc, na, outs):
        """merge the 'next' (and 'break'/'continue') outcomes"""
        r = []
        kinds = ['next', 'break', 'continue'] + sorted({o[0] for o in outs if o[0].startswith('goto:')})
        for kind in kinds:
            l = [(o[1], 0) for o in outs if o[0] == kind and not o[1].dead]
            if l:
                m, _ = s.merge(pc, na, l)
                r.append((kind, m, None))
        groups = {}
        for o in outs:
            if o[0] != 'return' or o[1].dead: continue
            v = o[2]
            if v is None or (is_c(v) and not is_ptr(v) and v is not UNDEF) and s.merge_returns:
                groups.setdefault((type(v), v), []).append((o[1], v))
            else: r.append(o)
        for g in groups.values():
            m, _ = s.merge(pc, na, [(q, 0) for q, v in g])
            r.append(('return', m, g[0][1]))
        r += [o for o in outs if o[0] not in kinds and o[0] != 'return' and not o[1].dead]
        if len(r) > s.max_outcomes: raise Unsupported('too many paths')
        return r

    def st_ReturnStmt(s, n, st):
        v = None
        if n.inner and n.inner[0] is not None:
            v = s.ev(n.inner[0], st)
            if isinstance(s.retty(), (TInt, TFlt)): v = s.conv(v, s.retty())
            elif isinstance(s.retty(), TPtr) and is_c(v) and v == 0: v = null()
        if st.dead: return []
        return [('return', st, v)]

    def retty(s): return s.fnstack[-1][3]

    def st_BreakStmt(s, n, st): return [('break', st, None)]
    def st_ContinueStmt(s, n, st): return [('continue', st, None)]

    def st_LabelStmt(s, n, st):
        return s.stmt(n.inner[0], st) if n.inner else [('next', st, None)]

    def st_GotoStmt(s, n, st): return [('goto:%s' % n.a.get('target'), st, None)]

    def st_SwitchStmt(s, n, st):
        v = s.ev(n.inner[0], st)
        body = n.inner[-1]
        lst = body.inner
        flatl, labels = [], []

        def push(x):
            vals = []
            while x is not None and x.k in ('CaseStmt', 'DefaultStmt'):
                if x.k == 'CaseStmt':
                    vals.append(s.ev(x.inner[0], st))
                    x = x.inner[-1]
                else:
                    vals.append(None)
                    x = x.inner[-1] if x.inner else None
            if vals: labels.append((vals, len(flatl)))
            if x is not None: flatl.append(x)
        for x in lst: push(x)
        pc, na = len(st.pc), len(st.asm)
        outs = []
        rest = True
        default = None
        done = False
        for vals, i in labels:
            for c in vals:
                if c is None: default = i; continue
                e = eq(v, c)
                if e is False: continue
                q = st.clone()
                if q.add(e):
                    if not is_c(e):
                        e2 = s.decide(st, e)
                        if e2 is False: continue
                    outs += s.stmts(flatl, i, q)
                rest = and_(rest, not_(e))
                if e is True: done = True
        if not done:
            q = st.clone()
            if q.add(rest):
                if default is not None: outs += s.stmts(flatl, default, q)
                else: outs.append(('next', q, None))
        outs = [('next' if o[0] == 'break' else o[0], o[1], o[2]) for o in outs]
        return s.joinouts(pc, na, outs)

    # ------------------------------------------------------------ loops
    def st_ForStmt(s, n, st):
        init, _, cond, inc, body = n.inner
        if init is not None:
            r = s.stmt(init, st)
            if not r: return []
            st = r[0][1]
        return s.loop(n, cond, inc, body, st, False)

    def st_WhileStmt(s, n, st):
        return s.loop(n, n.inner[0], None, n.inner[-1], st, False)

    def st_DoStmt(s, n, st):
        return s.loop(n, n.inner[1], None, n.inner[0], st, True)

    def loop(s, n, cond, inc, body, st, dofirst):
        outs = []
        it = 0
        exits = []          # states leaving the loop normally
        pc0, na0 = len(st.pc), len(st.asm)
        first = dofirst
        spec = s.loop_spec(n, st)
        while True:
            if not first:
                if spec is not None and it == 0:
                    o = spec(s, n, cond, inc, body, st)
                    if o is not None: return s.joinouts(pc0, na0, outs + o + [('next', q, None) for q in exits])
                st_c = st.clone()
                c = s.cond(s.ev(cond, st_c)) if cond is not None else True
                if not is_c(c): c = s.decide(st_c, c)
                if not is_c(c) and s.loop_decide: c = s.ask(st_c, c)
                if not is_c(c):
                    if it > 0 and s.unroll_through(n, c, it):
                        q = st_c.clone()
                        if q.add(not_(c)): exits.append(q)
                        st = st_c
                        st.add(c)
                    else:
                        o = s.symloop(n, cond, inc, body, st)
                        return s.joinouts(pc0, na0, outs + o + [('next', q, None) for q in exits])
                else:
                    st = st_c
                    if not c:
                        exits.append(st)
                        break
            first = False
            it += 1
            if it > MAXUNROLL: raise Unsupported('loop unrolled more than %d times, line %s' % (MAXUNROLL, n.line))
            nxt = []
            for o in s.stmt(body, st):
                if o[1].dead: continue
                if o[0] in ('next', 'continue'): nxt.append((o[1], 0))
                elif o[0] == 'break': exits.append(o[1])
                else: outs.append(o)
            if not nxt: break
            if len(nxt) > 1:
                m, _ = s.merge(pc0, na0, nxt)
            else: m = nxt[0][0]
            st = m
            if inc is not None: s.ev(inc, st)
            if st.dead: break
        s.loopstats['unrolled'] += 1
        return s.joinouts(pc0, na0, outs + [('next', q, None) for q in exits])

    def unroll_through(s, n, c, it): return False

    def loop_spec(s, n, st):
        fn = s.fnstack[-1][1] if s.fnstack else None
        if fn in s.loop_specs: return s.loop_specs[fn](s, n, st)
        return s.any_loop_spec and s.any_loop_spec(s, n, st)

    def symloop(s, n, cond, inc, body, st):
        from . import loops
        return loops.symloop(s, n, cond, inc, body, st)

    # ------------------------------------------------------------ calls
    def ev_CallExpr(s, n, st):
        name = callee_name(n)
        if name is None:
            name = fnptr_name(n)
            if name is not None and name not in s.policy: name = None
        if name is None:
            fv = s.ev(n.inner[0], st)
            if isinstance(fv, FnVal): name = fv.name
            else: raise Unsupported('indirect call line %s' % n.line)
        if name.startswith('G_') or name.startswith('H_'): pass
        if name in NOOPS and name not in s.policy:
            return 0
        if name == '__assert_fail' or name in ('exit', 'abort', '_exit'):
            if name == '__assert_fail' and 'assert' in s.safety:
                s.oblige(st, False, 'assertion', n.line, 'assert')
            st.dead = True
            return 0
        args = [s.ev(a, st) for a in n.inner[1:]]
        if st.dead: return 0
        return s.call(name, args, st, n)

    def call(s, name, args, st, n):
        h = s.policy.get(name)
        if h is not None:
            v = h(s, st, args, n)
            return v
        b = getattr(s, 'bi_' + name, None)
        if b is not None: return b(args, st, n)
        if s.default == 'inline' and s.depth < s.maxdepth:
            f = s.prog.find(name, s.fnstack[-1][0] if s.fnstack else None)
            if f is not None:
                return s.inline(f, name, args, st)
        h = s.policy.get('*')
        if h is not None: return h(s, st, args, n, name)
        raise Unsupported('call to %s (no body, no contract)' % name)

    def bind(s, tu, fn, args, st):
        ps = [p for p in fn.inner if p is not None and p.k == 'ParmVarDecl']
        if len(args) < len(ps): raise Unsupported('argument count')
        addr = None
        s.fnstack.append((tu, fn.name, fn, tu.ptype(tu.funs[fn.name]['type']['qualType']).ret))
        try:
            addr = s.addr_taken()
            for p, a in zip(ps, args):
                if isinstance(p.ty, TRec):
                    b = s.new_block(p.name or 'arg', p.ty, 1, local=True)
                    st.env[p.id] = ('blk', b)
                    s.copy_obj(st, Ptr(b, 0, '', None, p.ty), a, p.ty)
                elif p.id in addr:
                    b = s.new_block(p.name, p.ty, 1, local=True)
                    st.env[p.id] = ('blk', b)
                    s.store(st, Ptr(b, 0, '', None, p.ty), a, p.ty)
                else:
                    if isinstance(p.ty, TPtr) and is_ptr(a): a = s.cast_ptr(a, p.ty.to)
                    elif isinstance(p.ty, TPtr) and is_c(a) and a == 0: a = null(p.ty.to)
                    elif isinstance(p.ty, (TInt, TFlt)) and not is_ptr(a): a = s.conv(a, p.ty)
                    st.env[p.id] = a
        except BaseException:
            s.fnstack.pop()
            raise

    def run_fn(s, tu, fn, args, st):
        """execute body; -> [(state, value)] for every return path"""
        s.bind(tu, fn, args, st)
        try:
            body = [x for x in fn.inner if x is not None and x.k == 'CompoundStmt'][0]
            outs = s.stmts(body.inner, 0, st)
        finally:
            s.fnstack.pop()
        r = []
        for k, q, v in outs:
            if q.dead: continue
            if k in ('return', 'next'): r.append((q, v))
            else: raise Unsupported('stray ' + k)
        return r

    def inline(s, f, name, args, st):
        tu, fn = f
        s.inlined.add(name)
        saved = st.env
        q = st.clone()
        q.env = {}
        pc, na = len(st.pc), len(st.asm)
        s.depth += 1
        try:
            rets = s.run_fn(tu, fn, args, q)
        finally:
            s.depth -= 1
        for r, _ in rets: r.env = saved
        if not rets:
            st.dead = True
            return 0
        m, v = s.merge(pc, na, [(r, 0 if v is None else v) for r, v in rets])
        m = m.clone() if m is rets[0][0] else m
        m.env = saved
        st.become(m)
        return v

    # ------------------------------------------------------------ builtins
    def bi_fabs(s, a, st, n):
        x = toreal(a[0])
        return ite(le(Fraction(0), x), x, tm.neg(x))

    def bi___builtin_isfinite(s, a, st, n): return 1          # real arithmetic
    def bi___builtin_isnan(s, a, st, n): return 0
    def bi___builtin_isinf(s, a, st, n): return 0
    def bi___builtin_isinf_sign(s, a, st, n): return 0

    def bi_abs(s, a, st, n):
        x = s.toI(a[0])
        return ite(le(0, x), x, tm.neg(x))
    bi_labs = bi_llabs = bi_abs

    def ufun(s, name, x):
        return tm.app(name, 'R', *[toreal(y) for y in x])

    def bi_sqrt(s, a, st, n):
        x = toreal(a[0])
        if is_c(x) and x >= 0:
            from math import isqrt
            p, q = isqrt(x.numerator), isqrt(x.denominator)
            if p * p == x.numerator and q * q == x.denominator: return Fraction(p, q)
        r = s.ufun('sqrt', [x])
        st.asm.append(le(Fraction(0), r))
        st.asm.append(implies(le(Fraction(0), x), eq(mul(r, r), x)))
        return r

    def bi_log(s, a, st, n):
        if is_c(a[0]) and a[0] == 1: return Fraction(0)
        return s.ufun('log', [a[0]])

    def bi_exp(s, a, st, n):
        r = s.ufun('exp', [a[0]])
        st.asm.append(lt(Fraction(0), r))
        return r

    def bi_cos(s, a, st, n):
        r = s.ufun('cos', [a[0]])
        st.asm += [le(Fraction(-1), r), le(r, Fraction(1))]
        return r

    def bi_sin(s, a, st, n):
        r = s.ufun('sin', [a[0]])
        st.asm += [le(Fraction(-1), r), le(r, Fraction(1))]
        return r

    def bi_acos(s, a, st, n): return s.ufun('acos', [a[0]])
    def bi_atan2(s, a, st, n): return s.ufun('atan2', a[:2])
    def bi_pow(s, a, st, n): return s.ufun('pow', a[:2])

    def bi_floor(s, a, st, n):
        x = toreal(a[0])
        if is_c(x): return Fraction(x.numerator // x.denominator)
        return toreal(tm.mk('floor', 'I', x))

    def bi_strlen(s, a, st, n):
        if isinstance(a[0], StrVal): return len(a[0].v.strip('"'))
        r = s.fresh('strlen', 'I')
        st.asm.append(le(0, r))
        return r

    def bi_strcmp(s, a, st, n):
        if isinstance(a[0], StrVal) and isinstance(a[1], StrVal): return 0 if a[0].v == a[1].v else 1
        return s.fresh('strcmp', 'I')
    bi_strncmp = bi_strcmp

    def bi_getpid(s, a, st, n): return s.fresh('pid', 'I')

    def as_count(s, sz, ty):
        return s.divbytes(sz, s.anytu.sizeof(ty))

    def bi_memcpy(s, a, st, n):
        dst, src, sz = a
        ty = None
        for p in (dst, src):
            for c, q in alts(p):
                if q.base:
                    t = q.ty
                    if t is None or isinstance(t, TVoid): t = s.blocks[q.base].ty
                    if t is not None and not isinstance(t, TVoid): ty = ty or t
        if ty is None: raise Unsupported('memcpy of untyped memory')
        while isinstance(ty, TArr): ty = ty.of
        cnt = s.as_count(sz, ty)
        if cnt is None: raise Unsupported('memcpy size')
        dst, src = s.cast_ptr(dst, ty), s.cast_ptr(src, ty)
        s.copy_range(st, dst, src, cnt, ty, n)
        return dst
    bi_memmove = bi_memcpy

    def bi_strncpy(s, a, st, n):
        """plain copy; the absence of an embedded NUL is an obligation"""
        dst, src, sz = a
        ty = TInt(8, True)
        dst, src = s.cast_ptr(dst, ty), s.cast_ptr(src, ty)
        k = s.fresh('k', 'I')
        s.oblige(st, implies(and_(le(0, k), lt(k, sz)), not_(eq(s.load(st, s.padd(src, k), ty, n, ''), 0))), 'strncpy source without NUL', n.line, 'string')
        s.copy_range(st, dst, src, sz, ty, n)
        return dst

    def copy_range(s, st, dst, src, cnt, ty, n):
        if is_c(cnt) and cnt <= 64:
            vals = []
            for i in range(cnt):
                for sub, cty in s.flat(ty):
                    vals.append((i, sub, cty, s.load(st, s.padd(src, i), cty, n, sub)))
            for i, sub, cty, v in vals: s.store(st, s.padd(dst, i), v, cty, n, sub)
            return
        da = [q for c, q in alts(dst) if q.base]
        sa = [q for c, q in alts(src) if q.base]
        if len(da) != 1 or len(sa) != 1 or da[0].idx is not None or sa[0].idx is not None:
            raise Unsupported('symbolic copy between unions')
        d, r = da[0], sa[0]
        o = tm.sym('o', 'I')
        for sub, cty in s.flat(ty):
            ch = s.chain(st, d.base, sub)
            srcv = read(s.chain(st, r.base, sub), add(sub_(o, d.off), r.off))
            st.heap[(d.base, sub)] = Chain('map', ch, (o, and_(le(d.off, o), lt(o, add(d.off, cnt))), srcv))
            if s.writes_log is not None: s.writes_log.append((d.base, sub, None, None))

    def bi_memset(s, a, st, n):
        dst, v, sz = a
        if not (is_c(v) and v == 0): raise Unsupported('memset non-zero')
        t = None
        for c, q in alts(dst):
            if q.base: t = q.ty if not isinstance(q.ty, (TVoid, type(None))) else s.blocks[q.base].ty
        while isinstance(t, TArr): t = t.of
        cnt = s.as_count(sz, t)
        if cnt is None: raise Unsupported('memset size')
        dst = s.retype(dst, t)
        if is_c(cnt) and cnt <= 64:
            for i in range(cnt): s.zero_obj(st, s.padd(dst, i), t)
            return dst
        da = [q for c, q in alts(dst) if q.base]
        if len(da) != 1: raise Unsupported('memset on union')
        d = da[0]
        o = tm.sym('o', 'I')
        for subk, cty in s.flat(t):
            z = null(cty.to) if isinstance(cty, TPtr) else s.store_conv(0, cty)
            st.heap[(d.base, subk)] = Chain('map', s.chain(st, d.base, subk),
                                            (o, and_(le(d.off, o), lt(o, add(d.off, cnt))), z))
        return dst

    # allocation: result is NULL or a fresh block
    def alloc(s, st, nbytes, init, name='alloc', kind='my'):
        b = s.new_block('%s%d' % (name, s.nextbase), None, None, init=init)
        s.blocks[b].akind = kind
        s.blocks[b].bytes = nbytes
        if s.exempt_alloc_fail: return Ptr(b, 0, '', None, None)
        ok = s.fresh('alloc_ok', 'B')
        return PV([(ok, Ptr(b, 0, '', None, None)), (not_(ok), null())])

    def bi_mycalloc(s, a, st, n): return s.alloc(st, mul(a[0], a[1]), 'zero')
    def bi_calloc(s, a, st, n): return s.alloc(st, mul(a[0], a[1]), 'zero', kind='libc')
    def bi_mymalloc(s, a, st, n): return s.alloc(st, a[0], None)
    def bi_malloc(s, a, st, n): return s.alloc(st, a[0], None, kind='libc')

    def bi_myrealloc(s, a, st, n):
        ptr, sz, old = a
        p = s.alloc(st, sz, None, 'realloc')
        src = [q for c, q in alts(ptr) if q.base]
        for c, q in alts(p):
            if not q.base: continue
            nb = s.blocks[q.base]
            if src:
                ob = s.blocks[src[0].base]
                nb.ty = ob.ty
                esz = s.anytu.sizeof(ob.ty)
                nb.size = s.divbytes(sz, esz)
                ocnt = s.divbytes(old, esz)
                if ocnt is None or nb.size is None: raise Unsupported('realloc size')
                o = tm.sym('o', 'I')
                for sub, cty in s.flat(ob.ty):
                    och = s.chain(st, src[0].base, sub)
                    ch = s.init_chain(q.base, sub)
                    try:
                        v = read(och, o)
                    except Unsupported:
                        v = UNDEF
                    if v is UNDEF: continue
                    cnd = and_(le(0, o), lt(o, ocnt))
                    try:
                        st.heap[(q.base, sub)] = Chain('map', ch, (o, cnd, v))
                    except Unsupported:
                        pass
                if len(src) == 1: st.ghost['freed:%d' % src[0].base] = 1
        return p

    def freed(s, st, p, kind, n):
        for c, q in alts(p):
            if q.base and getattr(s.blocks[q.base], 'akind', kind) != kind:
                s.oblige(st, not_(c), 'deallocation matches the allocation', n.line, 'memory')

    def bi_myfree(s, a, st, n):
        s.freed(st, a[0], 'my', n)
        r = s.fresh('freed_size', 'I')
        st.asm.append(le(0, r))
        return r

    def bi_free(s, a, st, n):
        s.freed(st, a[0], 'libc', n)
        return 0


def sub_(a, b): return sub(a, b)


def callee_name(n):
    x = n.inner[0]
    while x.k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') or (x.k == 'UnaryOperator' and x.op in ('*', '&')):
        x = x.inner[0]
    if x.k == 'DeclRefExpr' and x.ref[0] == 'FunctionDecl': return x.ref[1]
    return None


def fnptr_name(n):
    """name of the global function pointer variable called"""
    x = n.inner[0]
    while x.k in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr') or (x.k == 'UnaryOperator' and x.op == '*'): x = x.inner[0]
    return x.ref[1] if x.k == 'DeclRefExpr' and x.ref[0] == 'VarDecl' else None


# =================================================================== views
class View:
    """Symbolic view of an object: attribute = field, [k] = element."""
    __slots__ = ('_x', '_s', '_p')

    def __init__(s, x, st, p):
        object.__setattr__(s, '_x', x); object.__setattr__(s, '_s', st); object.__setattr__(s, '_p', p)

    def _rec(s):
        for c, q in alts(s._p):
            if q.base and isinstance(q.ty, TRec): return q.ty
        raise Unsupported('view of non record %r' % (s._p,))

    def __getattr__(s, f):
        x = s._x
        r = s._rec()
        fty = x.anytu.field_type(r.name, f)
        return x.view(s._s, x.field_ptr(s._p, f, fty), fty)

    def __getitem__(s, k):
        x = s._x
        p = x.padd(s._p, k)
        ty = [q.ty for c, q in alts(p) if q.base][0]
        return x.view(s._s, p, ty)

    def isnull(s): return not_(nonnull(s._p))

    def fields(s):
        return [f for f, _ in s._x.flat(s._rec())]

    def cell(s, key):
        """scalar cell by flattened key"""
        for k, cty in s._x.flat(s._rec()):
            if k == key: return s._x.load(s._s, s._p, cty, None, key)
        raise KeyError(key)


def _view(x, st, p, ty):
    if isinstance(ty, TRec): return View(x, st, x.retype(p, ty))
    if isinstance(ty, TArr): return View(x, st, x.decay(p, ty))
    v = x.load(st, p, ty)
    if is_ptr(v): return View(x, st, v)
    return v


Exec.view = _view
