"""Contracts, their symbolic verification and their native evaluation."""
import time, random, json, os, traceback
from fractions import Fraction
from .cfront import *
from . import term as tm, sym as S, prove, native as N, gens
from .term import T

And, Or, Not, Implies = tm.and_, tm.or_, tm.not_, tm.implies


def Ite(c, a, b): return S.vite(c, a, b)
def Eq(a, b): return tm.eq(a, b)
def bit(x, m): return tm.not_(tm.eq(tm.bitand(x, m), 0))


def Abs(x):
    return tm.ite(tm.le(0, x), x, tm.neg(x))


class Ctx:
    """what a contract sees: s.pre.<param>, s.post.<param>, s.ret, s.ForAll, s.Close"""
    def __init__(s, mode):
        s.mode = mode
        s.hyp = False
        s.ret = None
        s.skolems = []
        s.inex = 0
        s.bound = []          # variables bound by the quantifiers around the term being built

    @property
    def sym(s): return s.mode == 'sym'

    def ForAll(s, lo, hi, f):
        if s.mode == 'nat':
            return all(bool(f(k)) for k in range(int(lo), int(hi)))
        k = tm.fresh('k', 'I')
        b = tm.implies(tm.and_(tm.le(lo, k), tm.lt(k, hi)), s._under(k, f))
        if s.hyp: return tm.forall(k, b)
        if s.inex: raise Unsupported('a universal goal inside an existential one')
        s.skolems.append(k)
        return b

    def _under(s, k, f):
        s.bound.append(k)
        try: return f(k)
        finally: s.bound.pop()

    def Outside(s, lo, hi, f):
        """for every index outside lo..hi-1 (frames of loops; symbolic only)"""
        k = tm.fresh('k', 'I')
        b = tm.implies(tm.or_(tm.lt(k, lo), tm.le(hi, k)), s._under(k, f))
        if s.hyp: return tm.forall(k, b)
        s.skolems.append(k)
        return b

    def Exists(s, lo, hi, f):
        if s.mode == 'nat':
            return any(bool(f(k)) for k in range(int(lo), int(hi)))
        k = tm.fresh('k', 'I')
        if s.hyp and s.bound: k = tm.app('kw!%d' % k.id, 'I', *s.bound)      # the witness depends on the variables bound outside
        s.inex += not s.hyp
        try: b = tm.and_(tm.le(lo, k), tm.lt(k, hi), f(k))
        finally: s.inex -= not s.hyp
        if s.hyp: return b
        return tm.not_(tm.forall(k, tm.not_(b)))

    def If(s, c, f):
        """implication whose conclusion only makes sense (natively: is only evaluated) when c holds"""
        if s.mode == 'nat': return (not c) or bool(f())
        return tm.implies(c, f())

    def Close(s, a, b, tol=1e-9):
        if s.mode == 'nat':
            a, b = float(a), float(b)
            return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b))
        return tm.eq(tm.toreal(a), tm.toreal(b))

    def statics(s):
        """[(key, value before, value after)] of the function-static scalars the call may touch"""
        out = []
        for b, bl in s.x.blocks.items():
            if isinstance(b, int) and bl.name.startswith('S_'):
                for (base, key), ch in s.postst.heap.items():
                    if base != b: continue
                    old = s.prest.heap.get((base, key)) or s.x.init_chain(base, key)
                    cty = s.x.celltype(base, key)
                    out.append((b, key, s.x.load_conv(S.read(old, 0), cty), s.x.load_conv(S.read(ch, 0), cty)))
        return out

    def static_cursor(s):
        c = [(a, b) for _, _, a, b in s.statics() if not (a is b)]
        if len(c) != 1: raise Unsupported('no single static counter')
        return c[0]

    def static_views(s):
        out = []
        for b, key, _, _ in s.statics():
            out.append((S.View(s.x, s.prest, S.Ptr(b, 0, '', None, s.x.blocks[b].ty)), '*', 0, 1))
        return out

    def isnull(s, v): return v.isnull()
    And, Or, Not, Implies, Ite, Eq = staticmethod(And), staticmethod(Or), staticmethod(Not), staticmethod(Implies), \
        staticmethod(Ite), staticmethod(Eq)
    bit = staticmethod(bit)
    Abs = staticmethod(Abs)


def trig(k, kind=''):
    """true of every integer (see trigger_def); a quantified hypothesis that contains it is instantiated at the terms under trig only"""
    return tm.app('trigger!' + kind, 'B', k)


def trigger_def(kind=''):
    k = tm.fresh('k', 'I')
    return tm.forall(k, trig(k, kind))


class NS:
    def __init__(self, **k): self.__dict__.update(k)


class Contract:
    """params: parameter names by position.  requires(s)->[terms]; ensures(s)->[(name, term)];
    assigns(s)->[(view, keys, lo, hi)] (None: no frame obligation); sizes: {param: element count | fn}
    gen(rng, mem, g)->dict of native argument values (addresses/ints/floats) ; policy: callee policy"""
    def __init__(c, fn, lib, params, ensures=None, requires=None, assigns=None, sizes=None, gen=None, policy=None,
                 nullable=(), trials=60, opts=None, name=None, retpath=None, native=True, ex_setup=None, tier='quick',
                 sym=True, rets=None, consts=None, default=None, cost=1.0, limit=None, weak=False, build=None, timeout=None):
        c.fn, c.lib, c.params, c.ensures, c.requires, c.assigns = fn, lib, params, ensures, requires, assigns
        c.sizes, c.gen, c.policy, c.nullable, c.trials = sizes or {}, gen, policy or {}, nullable, trials
        c.opts = opts or {}
        c.name = name or fn
        c.native = native and gen is not None
        c.ex_setup = ex_setup
        c.symb = sym
        c.rets = rets
        c.consts = consts or {}
        c.default = default
        c.tier = tier
        c.cost, c.limit, c.weak, c.timeout = cost, limit, weak, timeout
        c.build = build or {}

    def solib(c): return (c.lib, tuple(sorted((k, tuple(v)) for k, v in c.build.items())))


def unreachable(x, st, a, n):
    """policy of a callee the contract claims is never called"""
    x.oblige(st, False, 'call excluded by the contract', n.line, 'call')
    st.dead = True
    return 0


class Result:
    def __init__(s, c):
        s.c = c
        s.obls = []
        s.undecided = None       # reason text
        s.refuted = []
        s.unknown = []
        s.failure = None         # native failing execution
        s.trials = 0
        s.hits = {}
        s.inlined = set()
        s.assumed = set()
        s.loops = {}
        s.time = 0.0
        s.native_note = None
        s.reach = None


_progs = {}


def program(lib):
    libs = ('common', lib) if lib else ('common',)
    if libs not in _progs: _progs[libs] = Program(libs)
    return _progs[libs]


SINGLE = {'MMG5_Mesh', 'MMG5_Sol', 'MMG5_Hash', 'MMG5_Info', 'HGeom', 'MMG5_HGeom', 'MMG3D_PROctree', 'Bucket', 'MMG5_MatTable'}


def fun_params(fn):
    return [p for p in fn.inner if p is not None and p.k == 'ParmVarDecl']


def sym_setup(c, timeout=20):
    """-> (executor, pre-state, args, tu, fn)"""
    P = program(c.lib)
    f = P.find(c.fn)
    if f is None: raise Unsupported('function %s not found' % c.fn)
    tu, fn = f
    x = S.Exec(P, dict(c.policy))
    for k, v in c.opts.items(): setattr(x, k, v)
    if c.default: x.policy['*'] = c.default
    x.base_tu = tu
    x.fnstack.append((tu, '', fn, None))
    st = S.St()
    args = []
    ps = fun_params(fn)
    if len(ps) != len(c.params): raise Unsupported('parameter count of %s changed' % c.fn)
    pend = []
    for nm, p in zip(c.params, ps):
        if isinstance(p.ty, TPtr) and not isinstance(p.ty.to, TFun):
            to = p.ty.to
            size = c.sizes.get(nm)
            if size is None and isinstance(to, TRec) and to.name in SINGLE: size = 1
            b = x.new_block(nm, to, size if not callable(size) else None)
            if callable(size): pend.append((b, size))
            v = S.Ptr(b, 0, '', None, to)
            if nm in c.nullable:
                cn = tm.sym('isnull_' + nm, 'B')
                v = S.PV([(tm.not_(cn), v), (cn, S.null(to))])
            args.append(v)
        elif isinstance(p.ty, TPtr):
            args.append(S.FnVal(nm))
        elif isinstance(p.ty, TRec):
            b = x.new_block(nm, p.ty, 1)
            args.append(S.Ptr(b, 0, '', None, p.ty))
        elif nm in c.consts:
            args.append(c.consts[nm])
        else:
            so = x.storesort(p.ty)
            args.append(x.load_conv(tm.sym('p_' + nm, so), p.ty))
    s = Ctx('sym')
    s.x = x
    s.prest = st
    s.pre = NS(**{nm: (S.View(x, st, a) if S.is_ptr(a) and not isinstance(a, S.FnVal) else a) for nm, a in zip(c.params, args)})
    s.fieldtype = None
    for b, size in pend:
        sz = size(s)
        x.blocks[b].size = sz
    if c.ex_setup: c.ex_setup(x, st, s)
    return x, st, args, tu, fn, s


def verify(c, timeout=20, refine=True):
    r = Result(c)
    t0 = time.time()
    if not c.symb:
        r.undecided = 'no symbolic obligation (bounded native evaluation only)'
        return r
    try:
        (c.verify_with if hasattr(c, 'verify_with') else _verify)(*((r, timeout) if hasattr(c, 'verify_with') else (c, r, timeout)))
    except Unsupported as e:
        r.undecided = 'unsupported: %s' % e
    except (KeyError, AttributeError, IndexError, TypeError, ValueError, RecursionError, AssertionError) as e:
        r.undecided = 'verifier error: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3].strip())
    r.time = time.time() - t0
    return r


def _verify(c, r, timeout):
    x, st, args, tu, fn, s = sym_setup(c)
    hyps = []
    if c.requires:
        s.hyp = True
        hyps = [h for h in (tm.truth(q) for q in c.requires(s)) if h is not True]
        s.hyp = False
    st.asm += hyps
    q = st.clone()
    rets = x.run_fn(tu, fn, list(args), q)
    r.inlined = set(x.inlined)
    r.assumed = set(x.assumed)
    r.loops = dict(x.loopstats)
    if not rets: raise Unsupported('no return path')
    obls = list(x.obls)
    x.fnstack = [(tu, c.fn, fn, None)]
    nreach = 0
    for i, (qs, v) in enumerate(rets):
        s2 = Ctx('sym')
        s2.x, s2.prest = x, st
        s2.pre = s.pre
        s2.postst = qs
        s2.ghost = qs.ghost
        s2.post = NS(**{nm: (S.View(x, qs, a) if S.is_ptr(a) and not isinstance(a, S.FnVal) else a)
                        for nm, a in zip(c.params, args)})
        s2.ret = v
        base = list(qs.pc) + list(qs.asm)
        tag = 'return %s' % (tm.show(v, 2) if not S.is_ptr(v) else 'ptr') if v is not None else 'return'
        n0 = len(x.obls)
        for nm, g in (c.ensures(s2) if c.ensures else []):
            g = tm.truth(g)
            obls.append(S.Obl('%s / %s / %s' % (c.name, nm, tag), list(qs.pc) + list(qs.asm), g, None, 'ensures', c.fn))
        if c.assigns is not None:
            for nm, g in frame(x, st, qs, c.assigns(s2), s2):
                obls.append(S.Obl('%s / frame %s / %s' % (c.name, nm, tag), list(qs.pc) + list(qs.asm), g, None, 'frame', c.fn))
        if prove.satisfiable(list(qs.pc) + list(qs.asm), 4) != prove.z3.unsat: nreach += 1
    r.reach = nreach
    if nreach == 0: raise Unsupported('precondition excludes every path (vacuous)')
    for o in obls:
        discharge(o, timeout)
        r.obls.append(o)
        if o.status == 'refuted': r.refuted.append(o)
        elif o.status != 'proved': r.unknown.append(o)


def discharge(o, timeout):
    """ground instances first when quantified facts are involved, then the full problem"""
    gs = goals(o.goal)
    if len(gs) > 1:
        st = 'proved'
        for g in gs:
            q = S.Obl(o.name, o.hyps, g, o.line, o.kind, o.fn)
            discharge(q, timeout)
            o.time += q.time
            o.backend = q.backend
            if q.status != 'proved':
                st = q.status
                o.model = q.model
                o.instmodel = getattr(q, 'instmodel', None)
                if st == 'refuted': break
        o.status = st
        return st
    o2 = instantiate(o)
    if o2 is None: return prove.check(o, timeout)
    prove.check(o2, timeout, False)
    if o2.status == 'proved':
        o.status, o.backend, o.time = 'proved', o2.backend + '+inst', o2.time
        return o.status
    t = o2.time
    prove.check(o, timeout if o2.status == 'unknown' else max(5, timeout / 3))
    o.time += t
    if o.status != 'proved' and o2.status == 'refuted': o.instmodel = o2.model
    return o.status


def goals(g):
    """conjunctive splitting, distributing over disjunctions that hide an existential"""
    if not isinstance(g, T): return [g]
    if g.op == 'and':
        return [q for y in g.a for q in goals(y)]
    if g.op == 'or':
        for y in g.a:
            if isinstance(y, T) and y.op == 'and' and any(_deep_forall(k) for k in y.a):
                rest = [k for k in g.a if k is not y]
                return [q for k in y.a for q in goals(tm.or_(*rest, k))]
    return [g]


def _deep_forall(h): return isinstance(h, T) and _has_forall(h)


def _apps(t, out, seen):
    st = [t]
    while st:
        y = st.pop()
        if not isinstance(y, T) or y.id in seen: continue
        seen.add(y.id)
        if y.op == 'forall': continue
        if y.op == 'app': out.setdefault((y.a[0], len(y.a)), {})[y.id] = y
        st.extend(tm._kids(y))


def _bodyapps(t, v):
    """applications in a quantified body with an argument depending on v"""
    out, seen, st = [], set(), [t]
    while st:
        y = st.pop()
        if not isinstance(y, T) or y.id in seen or v.id not in tm.free(y): continue
        seen.add(y.id)
        if y.op == 'app': out.append(y)
        st.extend(tm._kids(y))
    return out


def _solve(arg, v, g):
    """value of v making arg equal to the ground term g, when arg is linear in v"""
    if not isinstance(arg, T) or v.id not in tm.free(arg): return None
    c, ts = tm._parts(arg)
    k, rest = 0, []
    for q, y in ts:
        if y is v: k = q
        elif v.id in tm.free(y): return None
        else: rest.append((q, y))
    if k == 0: return None
    d = tm.sub(g, tm.lin(c, rest, 'I'))
    if k == 1: return d
    if k == -1: return tm.neg(d)
    c, ts = tm._parts(d)
    if c % k == 0 and all(q % k == 0 for q, y in ts):
        return tm.lin(c // k, [(q // k, y) for q, y in ts], 'I')
    return tm._fdiv(d, k) if k > 0 else None


def conj(h):
    if isinstance(h, T) and h.op == 'and':
        out = []
        for y in h.a: out += conj(y)
        return out
    return [h]


def instantiate(o, rounds=4, cap=600):
    """trigger-style ground instances of the quantified hypotheses"""
    hyps, goal = [], o.goal
    for h in o.hyps: hyps += conj(h)
    gl = list(goal.a) if isinstance(goal, T) and goal.op == 'or' else [goal]
    keep = []
    for g in gl:
        n = tm.not_(g)
        if isinstance(n, T) and _has_forall(n): hyps += conj(n)
        else: keep.append(g)
    goal = tm.or_(*keep)
    qs = [h for h in hyps if isinstance(h, T) and _has_forall(h)]
    if not qs: return None
    ground = [h for h in hyps if not (isinstance(h, T) and _has_forall(h))]
    done = set()
    quants = [qg for h in qs for qg in _splitg(h)]
    apps, seen = {}, set()
    for h in ground + [goal]:
        if isinstance(h, T): _apps(h, apps, seen)
    for h in qs: _gapps(h, apps, seen)
    syms = [t for t in _isyms(goal)]
    n = 0
    for r in range(rounds):
        new = []
        for q, guard in list(quants):
            v, b = q.a
            cand = {}
            ps = _bodyapps(b, v)
            only = [p for p in ps if p.a[0].startswith('trigger!') and p.a[1] is v]
            per = []
            for p in only or ps:
                if only: cand = {}; per.append(cand)
                for gt in list(apps.get((p.a[0], len(p.a)), {}).values()):
                    for x, y in zip(p.a[1:], gt.a[1:]):
                        if not (isinstance(y, T) and y.sort == 'I' or isinstance(y, int)): continue
                        u = _solve(x, v, y)
                        if u is not None: cand[tm._k(u)] = u
            if only: cand = {k: u for k, u in per[0].items() if all(k in o for o in per)}      # every trigger must match
            if r == 0 and not only:
                for t in syms: cand[tm._k(t)] = t
                for t in (0, 1): cand[tm._k(t)] = t
            for k, u in cand.items():
                if isinstance(u, T) and v.id in tm.free(u): continue
                if (q.id, k) in done: continue
                done.add((q.id, k))
                i = tm.or_(*guard, tm.subst(b, {v.id: u}))
                if i is True: continue
                n += 1
                if n > cap: break
                new += conj(i)
        if not new: break
        for h in new:
            if isinstance(h, T) and _has_forall(h):
                quants += [(q, g) for q, g in _splitg(h)]
                _gapps(h, apps, seen)
            else:
                ground.append(h)
                if isinstance(h, T): _apps(h, apps, seen)
        if n > cap: break
    return S.Obl(o.name, ground, goal, o.line, o.kind, o.fn)


def _gapps(h, apps, seen):
    """ground applications in the unquantified parts of h"""
    _apps(h, apps, seen)


def _isyms(g):
    out, seen, st = {}, set(), [g]
    while st:
        y = st.pop()
        if not isinstance(y, T) or y.id in seen: continue
        seen.add(y.id)
        if y.op == 'sym' and y.sort == 'I' and '!' in y.a[0]: out[y.id] = y
        st.extend(tm._kids(y))
    return list(out.values())[:12]


def _splitg(h):
    """[(forall term, other disjuncts)]"""
    if h.op == 'forall': return [(h, [])]
    if h.op == 'or':
        q = [k for k in h.a if isinstance(k, T) and _has_forall(k)]
        if len(q) == 1:
            rest = [k for k in h.a if k is not q[0]]
            out = []
            for c in conj(q[0]):
                if isinstance(c, T) and c.op == 'forall': out.append((c, rest))
            return out
    return []


def _has_forall(h):
    if isinstance(h, T):
        if h.op == 'forall': return True
        if h.op in ('and', 'or', 'not', 'ite'): return any(_has_forall(k) for k in tm._kids(h))
    return False


# ------------------------------------------------------------------ frames
def keymatch(key, pats):
    if pats == '*': return True
    if isinstance(pats, str): pats = [pats]
    for p in pats:
        if key == p or key.startswith(p + '[') or key.startswith(p + '.'): return True
    return False


def frame(x, pre, post, allowed, s):
    """[(name, goal)] : every pre-existing cell outside `allowed` keeps its value"""
    out = []
    al = []
    for a in allowed:
        v, keys = a[0], a[1]
        lo, hi = (a[2], a[3]) if len(a) > 2 else (0, 1)
        for cnd, p in S.alts(v._p):
            if p.base: al.append((cnd, p, keys, lo, hi))
    for (base, key), ch in sorted(post.heap.items(), key=lambda kv: (kv[0][0], kv[0][1])):
        if base < 0: continue
        bl = x.blocks[base]
        if getattr(bl, 'bytes', None) is not None: continue          # allocated by the call
        if bl.const is not None: continue
        old = pre.heap.get((base, key)) or x.init_chain(base, key)
        if ch is old: continue
        o = 0 if (tm.is_c(bl.size) and bl.size == 1 and bl.size is not None) else tm.fresh('o', 'I')
        ok = False
        for cnd, p, keys, lo, hi in al:
            if p.base != base: continue
            if p.path:
                # sub-object of a record
                if p.idx is not None:
                    k2 = p.path
                    if not key.startswith(k2): continue
                    ok = tm.or_(ok, tm.and_(cnd, tm.eq(p.off, o)))
                    continue
                if keymatch(key, p.path) and (keys == '*' or keymatch(key[len(p.path) + 1:], keys)):
                    ok = tm.or_(ok, tm.and_(cnd, tm.eq(p.off, o)))
                continue
            if not keymatch(key, keys if keys != '' else '*'): continue
            ok = tm.or_(ok, cnd if lo is None else tm.and_(cnd, tm.le(tm.add(p.off, lo), o), tm.lt(o, tm.add(p.off, hi))))      # None: everywhere
        if ok is True: continue
        try:
            a, b = S.read(ch, o), S.read(old, o)
        except Unsupported:
            # pointer family with symbolic offset: only const cells can have changed
            raise
        if S.is_ptr(a) or S.is_ptr(b):
            if not (S.is_ptr(a) and S.is_ptr(b)): e = False
            else: e = S.ptr_eq(a, b)
        else: e = tm.eq(a, b)
        g = tm.or_(ok, e)
        if g is True: continue
        out.append(('%s.%s' % (bl.name, key), g))
    return out


def nframe(lay, pre, post_get, allowed):
    """native frame check over all snapshot blocks; -> description of an illegal change or None"""
    al = []
    for a in allowed:
        v, keys = a[0], a[1]
        lo, hi = (a[2], a[3]) if len(a) > 2 else (0, 1)
        if v._a == 0: continue
        al.append((v._a, v._t, keys, int(lo), int(hi)))
    for b, d in pre.blocks:
        now = post_get(b.addr, b.size)
        if now == d: continue
        esz = lay.sizeof(b.ty)
        cells = lay.cells(b.ty)
        for i in range(b.count):
            if now[i * esz:(i + 1) * esz] == d[i * esz:(i + 1) * esz]: continue
            for key, off, t in cells:
                w = lay.sizeof(t)
                p = i * esz + off
                if now[p:p + w] == d[p:p + w]: continue
                addr = b.addr + p
                good = False
                for a0, ty, keys, lo, hi in al:
                    sz = lay.sizeof(ty)
                    if not (a0 + lo * sz <= addr < a0 + hi * sz): continue
                    if keys in ('*', ''): good = True; break
                    rel = (addr - a0) % sz
                    ks = [k for k, o2, t2 in lay.cells(ty) if o2 <= rel < o2 + lay.sizeof(t2)]
                    if ks and keymatch(ks[0], keys): good = True; break
                if not good: return '%s[%d].%s changed' % (b.name, i, key)
    return None


# ------------------------------------------------------------------ native evaluation
def native_run(c, seed, trials, want_all=False, budget=20.0, hint=None, only=None):
    """random evaluation of the contract on the compiled code (runs in a child)"""
    so = N.build(c.lib, **c.build)

    def child():
        if hasattr(c, 'native_child'): return c.native_child(seed, trials, so, budget, only, hint)
        return _native_child(c, seed, trials, so, budget, only, hint)
    return N.isolated(child, timeout=int(budget * 2 + 20))


def crash_trial(c, seed, trials, hint=None):
    """the single trial that crashes, when one does on its own (twice)"""
    lo = 0
    step = max(1, trials // 40)
    t0 = time.time()
    while lo < trials and time.time() - t0 < 60:
        rngs = list(range(lo, min(trials, lo + step)))
        r = native_run(c, seed, trials, only=set(rngs), hint=hint)
        if r[0] == 'crash':
            for i in rngs:
                if native_run(c, seed, trials, only={i}, hint=hint)[0] == 'crash' and \
                   native_run(c, seed, trials, only={i}, hint=hint)[0] == 'crash': return i
        lo += step
    return None


def tu_of(c):
    P = program(c.lib)
    f = P.find(c.fn)
    if f is None: raise Unsupported('function %s not found' % c.fn)
    return f


def _native_child(c, seed, trials, so, budget, only=None, hint=None):
    tu, fn = tu_of(c)
    lib = N.load(so)
    try: cf = getattr(lib, c.fn)
    except AttributeError: cf = getattr(lib, 'cdv_' + c.fn)
    ps = fun_params(fn)
    rty = tu.ptype(tu.funs[c.fn]['type']['qualType']).ret
    cf.restype = N.ctype(rty)
    cf.argtypes = [N.ctype(p.ty) if not isinstance(p.ty, TFun) else None for p in ps]
    lay = N.Lay(tu)
    hits = {}
    done = 0
    rejected = 0
    t0 = time.time()
    prog = os.environ.get('CDV_PROGRESS')
    for i in range(trials):
        if only is not None and i not in only: continue
        if time.time() - t0 > budget: break
        rng = random.Random('%s/%s/%d' % (seed, c.name, i))
        mem = N.NMem(lay)
        if hint: gens.DICT[:] = hint['c'] if rng.random() < 0.7 else []
        a = c.gen(rng, mem, c)
        if hint and hint['p'] and rng.random() < 0.4:
            for k, v in rng.choice(hint['p']).items():
                if k in a and isinstance(a[k], (int, float)) and rng.random() < 0.8: a[k] = v
        one = native_one(c, lay, mem, cf, ps, a)
        if one is None:
            rejected += 1
            continue
        done += 1
        bad, ret = one
        hits[str(ret)[:20]] = hits.get(str(ret)[:20], 0) + 1
        if bad:
            return {'fail': bad, 'trial': i, 'seed': seed, 'args': describe(c, a, mem, lay), 'done': done, 'hits': hits,
                    'ret': str(ret)}
    return {'done': done, 'rejected': rejected, 'hits': hits}


def describe(c, a, mem, lay):
    out = {}
    for nm in c.params:
        v = a.get(nm)
        out[nm] = v if not isinstance(v, N.NBlock) else '<%s x %d>' % (v.ty, v.count)
    return out


def native_one(c, lay, mem, cf, ps, a):
    """-> None if requires is false, else (failure or None, return value)"""
    s = Ctx('nat')
    s.lay = lay
    s.native = True
    pre = mem.snap()
    live = mem.live()

    def view(nm, p, m):
        v = a[nm]
        if isinstance(v, N.NBlock): return N.NView(m, v.addr, v.ty if not isinstance(p.ty.to, TVoid) else v.ty)
        if isinstance(p.ty, TPtr): return N.NView(m, int(v or 0), p.ty.to)
        return v
    s.pre = NS(**{nm: view(nm, p, pre) for nm, p in zip(c.params, ps)})
    if c.requires:
        for q in c.requires(s):
            if not q: return None
    args = []
    for nm, p in zip(c.params, ps):
        v = a[nm]
        if isinstance(v, N.NBlock): v = v.addr
        if isinstance(p.ty, TFlt): v = float(v)
        elif isinstance(p.ty, TPtr): v = int(v or 0)
        else: v = N._fit(p.ty, v)
        args.append(v)
    with N.quiet():
        ret = cf(*args)
    s.ret = ret
    s.post = NS(**{nm: view(nm, p, live) for nm, p in zip(c.params, ps)})
    s.aux = a
    if c.ensures:
        for nm, g in c.ensures(s):
            if g is False or (not isinstance(g, bool) and not g):
                return ('ensures "%s" is false' % nm, ret)
    if c.assigns is not None:
        f = nframe(lay, pre, live.get, c.assigns(s))
        if f: return ('frame: ' + f, ret)
    return (None, ret)
