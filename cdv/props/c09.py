"""C09 sizes: the normalisation of the input is undone exactly, and the sizes stay between hmin and hmax."""
from fractions import Fraction
from ..spec import *
from ..spec import Contract, program, discharge, fun_params
from .. import gens as G, loops
from ..gens import INT, DBL

NUL = 0x8000
BIG = Fraction(10) ** 300
INFO = ['hausd', 'ls', 'hsiz']


def valid(p): return tm.lt(p.tag, NUL)


def pts(s, m, f): return s.ForAll(1, m.np + 1, lambda k: s.If(valid(m.point[k]), lambda: f(k)))


def setdim(dim, **cells):
    def setup(x, st, s):
        x.store1(st, s.pre.mesh._p.base, 'dim', 0, dim)
        for nm, kv in cells.items():
            v = getattr(s.pre, nm)
            for _, p in S.alts(v._p):
                if p.base:
                    for k, val in kv.items(): x.store1(st, p.base, k, 0, val)
    return setup


def req_mesh(s):
    m = s.pre.mesh
    return [tm.le(0, m.np), tm.le(m.np, m.npmax), tm.le(0, m.info.npar), Not(m.point.isnull())]


def req_coords(s, dim):
    m = s.pre.mesh
    return [s.ForAll(1, m.np + 1, lambda k: And(*[And(tm.le(-BIG, m.point[k].c[i]), tm.le(m.point[k].c[i], BIG)) for i in range(dim)]))]


def box(s, m0, m1, dim):
    """the points lie in the box [min, min + delta] recorded in the mesh"""
    i = m1.info
    return pts(s, m0, lambda k: And(*[And(tm.le(i.min[q], m0.point[k].c[q]), tm.le(m0.point[k].c[q], i.max[q])) for q in range(dim)]))


def untouched_tmp(c, m0, m):
    return c.Outside(0, m0.npmax + 1, lambda j: Eq(m.point[j].tmp, m0.point[j].tmp))


def bbox(lib, dim):
    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        i = m1.info
        out = [('every point lies in the box', box(s, m0, m1, dim)),
               ('the scale is the greatest extent', Or(*[And(Eq(i.delta, i.max[q] - i.min[q])) for q in range(dim)], And(Eq(i.delta, 0)))),
               ('no extent exceeds the scale', And(*[tm.le(i.max[q] - i.min[q], i.delta) for q in range(dim)])),
               ('accepted iff the scale is not degenerate', Or(Eq(s.ret, 0), And(Eq(s.ret, 1), tm.lt(Fraction(0) if s.sym else 0., i.delta))))]
        for q in range(dim):
            some = s.Exists(1, m0.np + 1, lambda k: valid(m0.point[k]))
            out.append(('the box is tight in direction %d' % q, Implies(some, And(
                s.Exists(1, m0.np + 1, lambda k: And(valid(m0.point[k]), Eq(m0.point[k].c[q], i.min[q]))),
                s.Exists(1, m0.np + 1, lambda k: And(valid(m0.point[k]), Eq(m0.point[k].c[q], i.max[q])))))))
        return out

    def setup(x, st, s):
        setdim(dim)(x, st, s)
        mb = s.pre.mesh._p.base

        def inv(L):
            m = S.View(x, L.st, s.pre.mesh._p)
            m0 = s.pre.mesh
            k = L.var('k')
            c = L.ctx
            out = [('counter', And(tm.le(1, k), tm.le(k, m0.np + 1))), ('scratch', untouched_tmp(c, m0, m))]
            for q in range(dim):
                lo, hi = m.info.min[q], m.info.max[q]
                out.append(('bounds %d' % q, c.ForAll(1, k, lambda j: Implies(valid(m0.point[j]), And(tm.le(lo, m0.point[j].c[q]), tm.le(m0.point[j].c[q], hi))))))
                for v, e in ((lo, DMAX), (hi, -DMAX)):
                    out.append(('attained %d' % q, Or(And(Eq(v, e), c.ForAll(1, k, lambda j: Not(valid(m0.point[j])))),
                                                      c.Exists(1, k, lambda j: And(valid(m0.point[j]), Eq(m0.point[j].c[q], v))))))
            return out
        loops.use_invariants(x, [(lambda x, names, cells: (mb, 'info.min[0]') in cells and any(k[1] == 'tmp' for k in cells), inv, lambda L: s.pre.mesh.np + 1 - L.var('k'))])

    def gen(rng, mem, c):
        m, w, _ = G.mesh(rng, mem, lib, dim=dim)
        return {'mesh': m}
    return Contract('MMG5_boundingBox', lib, ['mesh'], ensures, lambda s: req_mesh(s) + req_coords(s, dim),
                    lambda s: [(s.pre.mesh, ['info.min', 'info.max', 'info.delta']), (s.pre.mesh.point, ['tmp'], 0, s.pre.mesh.npmax + 1)],
                    name='MMG5_boundingBox[%dD]' % dim, gen=gen, ex_setup=setup)


DMAX = Fraction(1.7976931348623157e308)


def use_bbox(dim):
    """the contract of MMG5_boundingBox at its call sites"""
    def h(x, st, a, n):
        m0 = S.View(x, st.clone(), a[0])
        mb = a[0].base
        for q in range(dim):
            for f in ('min', 'max'): x.store1(st, mb, 'info.%s[%d]' % (f, q), 0, tm.fresh('box', 'R'))
        x.store1(st, mb, 'info.delta', 0, tm.fresh('delta', 'R'))
        pb = m0.point._p.base
        nm = 'BBTMP!%d' % tm.fresh('q', 'I').id
        ch = st.heap.get((pb, 'tmp')) or x.init_chain(pb, 'tmp')
        st.heap[(pb, 'tmp')] = S.Chain('init', None, lambda o: tm.ite(And(tm.le(0, o), tm.le(o, m0.npmax)), tm.app(nm, 'I', o), S.read(ch, o)))
        r = tm.fresh('ier', 'I')
        m1 = S.View(x, st, a[0])
        i = m1.info
        c = Ctx('sym'); c.x = x; c.hyp = True
        st.asm += [h for h in (tm.truth(g) for g in (box(c, m0, m1, dim), Or(Eq(r, 0), And(Eq(r, 1), tm.lt(Fraction(0), i.delta))),
                                                     And(*[tm.le(i.max[q] - i.min[q], i.delta) for q in range(dim)]))) if h is not True]
        return r
    return h


def near(s, a, b): return s.Close(a, b, 1e-7)


def has(v): return Not(v.isnull())


def sol_req(s, nm, size):
    v = getattr(s.pre, nm)
    if not s.sym and v.isnull(): return []
    return [Implies(has(v), And(Eq(v.size, size), tm.le(0, v.np), s.If(Not(Eq(v.np, 0)), lambda: And(Not(v.m.isnull()), Eq(v.np, s.pre.mesh.np)))))] if s.sym else \
        [v.size == size and (v.np == 0 or not v.m.isnull() and v.np == s.pre.mesh.np)]


def normalised_info(s, i0, i1, d, scale):
    """i0 -> i1 by a division by d (scale) or a multiplication"""
    up = lambda a, b: near(s, b * d, a) if scale else near(s, a * d, b)
    return [('%s %s' % (f, 'normalised' if scale else 'brought back'), up(getattr(i0, f), getattr(i1, f))) for f in INFO]


def par_goal(s, m0, m1, d, scale):
    out = []
    for f in ('hmin', 'hmax', 'hausd'):
        def g(k, f=f):
            a, b = getattr(m0.info.par[k], f), getattr(m1.info.par[k], f)
            return near(s, b * d, a) if scale else near(s, a * d, b)
        out.append(('%s of the local parameters' % f, s.ForAll(0, m0.info.npar, g)))
    return out


def gen_sol(rng, mem, lib, dim, np, size, nm, empty=0.2):
    s, w = G.sol(rng, mem, lib, np=np, size=size, typ={1: 1, dim: 2}.get(size, 3), dim=dim, nm=nm)
    if rng.random() < empty:
        w.np = 0
        w.m = 0
    return s, w


def gen_mesh(rng, mem, lib, dim, scaled=False):
    m, w, b = G.mesh(rng, mem, lib, dim=dim)
    lay = mem.lay
    i = w.info
    np_ = rng.randint(0, 3)
    i.npar = np_
    pb = mem.alloc(TRec('MMG5_Par'), np_ + 1, 'par')
    G.fill(rng, lay, pb)
    i.par = pb.addr
    i.sethmin, i.sethmax = rng.randint(0, 1), rng.randint(0, 1)
    i.hmin = rng.choice((0.01, 0.1)) if i.sethmin else -1
    i.hmax = rng.choice((1., 2., 0.05)) if i.sethmax else -1
    for f in INFO: setattr(i, f, rng.uniform(0.01, 2))
    if rng.random() < 0.5: i.hsiz = -1.
    i.optim = rng.choice((0, 0, 1))
    i.ddebug = 0
    i.iso = 1
    i.lag = -1
    i.delta = rng.uniform(0.1, 5)
    for q in range(3): N.poke(mem_addr(lay, i, 'min', q), DBL, rng.uniform(-1, 1))
    w.base = rng.randint(1, 3)
    return m, w, b


def mem_addr(lay, i, f, q):
    o, t = lay.offs(i._t.name)[f]
    return i._a + o + 8 * q


def scale_mesh_sol(lib, dim, size):
    def ensures(s):
        m0, m1, sol0, sol1 = s.pre.mesh, s.post.mesh, s.pre.sol, s.post.sol
        i0, i1 = m0.info, m1.info
        ok = Not(Eq(s.ret, 0))
        if not s.sym and not s.ret: return []
        d = i1.delta
        zero, one = (Fraction(0), Fraction(1)) if s.sym else (-1e-9, 1 + 1e-9)
        out = [('coordinates brought between 0 and 1', pts(s, m0, lambda k: And(*[And(tm.le(zero, m1.point[k].c[q]), tm.le(m1.point[k].c[q], one)) for q in range(dim)]))),
               ('every coordinate is scaled by the same factor', pts(s, m0, lambda k: And(*[near(s, m1.point[k].c[q] * d + i1.min[q], m0.point[k].c[q]) for q in range(dim)]))),
               ('the factor handed back is the inverse of the scale', near(s, s.post.dd[0] * d, Fraction(1) if s.sym else 1.)),
               ('user hmin', Implies(Not(Eq(i0.sethmin, 0)), near(s, i1.hmin * d, i0.hmin))),
               ('user hmax', Implies(Not(Eq(i0.sethmax, 0)), near(s, i1.hmax * d, i0.hmax)))]
        out += normalised_info(s, i0, i1, d, True) + par_goal(s, m0, m1, d, True)
        if s.sym or not sol0.isnull():
            out.append(('every value of the level-set or displacement', Implies(And(has(sol0), Not(Eq(sol0.np, 0))), s.ForAll(size, size * (m0.np + 1), lambda q: near(s, sol1.m[q] * d, sol0.m[q])))
                        if s.sym else sol0.np == 0 or s.ForAll(size, size * (m0.np + 1), lambda q: near(s, sol1.m[q] * d, sol0.m[q]))))
        met = s.pre.met
        nomet = Or(met.isnull(), Eq(met.np, 0)) if s.sym else (met.isnull() or met.np == 0)
        default = And(nomet, Not(tm.lt(Fraction(0) if s.sym else 0., i1.hsiz)), Eq(i0.optim, 0))
        pos = And(Implies(Not(Eq(i0.sethmin, 0)), tm.lt(Fraction(0) if s.sym else 0., i0.hmin)), Implies(Not(Eq(i0.sethmax, 0)), tm.lt(Fraction(0) if s.sym else 0., i0.hmax)))
        out.append(('without metric hmin and hmax get consistent values', Implies(And(default, pos), And(tm.lt(Fraction(0) if s.sym else 0., i1.hmin), tm.le(i1.hmin, i1.hmax)))))
        return [(n, Implies(ok, g)) for n, g in out]

    def assigns(s):
        m = s.pre.mesh
        o = [(m, ['info.min', 'info.max', 'info.delta', 'info.hmin', 'info.hmax'] + ['info.' + f for f in INFO]), (m.point, ['c'], 1, m.np + 1), (m.point, ['tmp'], 0, m.npmax + 1),
             (m.info.par, ['hmin', 'hmax', 'hausd'], 0, m.info.npar), (s.pre.dd, '*', 0, 1)]
        if s.sym or not s.pre.sol.isnull(): o.append((s.pre.sol.m, '*', size, size * (m.np + 1)))
        return o

    def gen(rng, mem, c):
        m, w, _ = gen_mesh(rng, mem, lib, dim)
        sol, ws = gen_sol(rng, mem, lib, dim, w.np, size, 'sol') if rng.random() < 0.8 else (0, None)
        met, wm = gen_sol(rng, mem, lib, dim, w.np, 1, 'met') if rng.random() < 0.8 else (0, None)
        return {'mesh': m, 'met': met, 'sol': sol, 'dd': G.out(mem, DBL, 1, 'dd', rng)}

    def requires(s):
        i = s.pre.mesh.info
        return req_mesh(s) + sol_req(s, 'sol', size) + [s.ForAll(0, i.npar, lambda k: True), Not(And(has(i.par), False))]
    return Contract('MMG5_scale_meshAndSol', lib, ['mesh', 'met', 'sol', 'dd'], ensures, requires, assigns, name='MMG5_scale_meshAndSol[%dD,%d]' % (dim, size), gen=gen,
                    nullable=('met', 'sol'), sizes={'dd': 1}, policy={'MMG5_boundingBox': use_bbox(dim)},
                    ex_setup=setdim(dim, sol={'size': size, 'type': 1 if size == 1 else 2}), opts={'nonnull_fields': {'MMG5_Mesh.point', 'MMG5_Info.par', 'MMG5_Mesh.info.par'}}, timeout=40)


def unscale(lib, dim, size, msize):
    typ = 1 if msize == 1 else 3

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        i0, i1 = m0.info, m1.info
        d = i0.delta
        R = (lambda x: Fraction(x)) if s.sym else float
        out = [('coordinates brought back', pts(s, m0, lambda k: And(*[near(s, m1.point[k].c[q], m0.point[k].c[q] * d + i0.min[q]) for q in range(dim)]))),
               ('user hmin', Implies(Not(Eq(i0.sethmin, 0)), near(s, i1.hmin, i0.hmin * d))), ('user hmax', Implies(Not(Eq(i0.sethmax, 0)), near(s, i1.hmax, i0.hmax * d))),
               ('automatic hmin forgotten', Implies(Eq(i0.sethmin, 0), Eq(i1.hmin, R(-1)))), ('automatic hmax forgotten', Implies(Eq(i0.sethmax, 0), Eq(i1.hmax, R(-1)))),
               ('a second call does nothing more', And(Eq(i1.delta, R(1)), *[Eq(i1.min[q], R(0)) for q in range(3)])), ('succeeds', Eq(s.ret, 1))]
        out += normalised_info(s, i0, i1, d, False) + par_goal(s, m0, m1, d, False)
        for nm, n, f in (('sol', size, lambda a, b: near(s, b, a * d)), ('met', msize, (lambda a, b: near(s, b, a * d)) if msize == 1 else (lambda a, b: near(s, b * (d * d), a)))):
            v0, v1 = getattr(s.pre, nm), getattr(s.post, nm)
            if not s.sym and (v0.isnull() or v0.np == 0): continue
            for q in range(n):
                out.append(('component %d of %s' % (q, nm), Implies(And(has(v0), Not(Eq(v0.np, 0)), has(v0.m)), pts(s, m0, lambda k: f(v0.m[n * k + q], v1.m[n * k + q])))))
        return out

    def assigns(s):
        m = s.pre.mesh
        o = [(m, ['info.min', 'info.delta', 'info.hmin', 'info.hmax'] + ['info.' + f for f in INFO]), (m.point, ['c'], 1, m.np + 1), (m.info.par, ['hmin', 'hmax', 'hausd'], 0, m.info.npar)]
        for nm, n in (('sol', size), ('met', msize)):
            if s.sym or not getattr(s.pre, nm).isnull(): o.append((getattr(s.pre, nm).m, '*', n, n * (m.np + 1)))
        return o

    def gen(rng, mem, c):
        m, w, _ = gen_mesh(rng, mem, lib, dim)
        a = {'mesh': m}
        for nm, n in (('sol', size), ('met', msize)):
            a[nm] = gen_sol(rng, mem, lib, dim, w.np, n, nm)[0] if rng.random() < 0.9 else 0
        return a
    return Contract('MMG5_unscaleMesh', lib, ['mesh', 'met', 'sol'], ensures, lambda s: req_mesh(s) + [tm.lt(Fraction(0) if s.sym else 0., s.pre.mesh.info.delta)] +
                    sol_req(s, 'sol', size) + sol_req(s, 'met', msize), assigns, name='MMG5_unscaleMesh[%dD,%d,%d]' % (dim, size, msize), gen=gen, nullable=('met', 'sol'),
                    ex_setup=setdim(dim, sol={'size': size, 'type': 1 if size == 1 else 2}, met={'size': msize, 'type': typ}),
                    opts={'nonnull_fields': {'MMG5_Mesh.point', 'MMG5_Info.par', 'MMG5_Mesh.info.par'}}, timeout=40)


Z = lambda s: Fraction(0) if s.sym else 0.
FLTMAX = Fraction(3.4028234663852886e38)


def bounds_known(s, i0, i1):
    """the user's bounds are kept; the others are consistent with them"""
    return [('hmin of the user kept', Implies(Not(Eq(i0.sethmin, 0)), Eq(i1.hmin, i0.hmin))), ('hmax of the user kept', Implies(Not(Eq(i0.sethmax, 0)), Eq(i1.hmax, i0.hmax)))]


def gen_info(rng, mem, lib, dim=None):
    m, w, b = gen_mesh(rng, mem, lib, dim or {'mmg2d': 2}.get(lib, 3))
    i = w.info
    if rng.random() < 0.3: i.hmin = rng.choice((-1., 0.3))
    if rng.random() < 0.3: i.hmax = rng.choice((-1., 0.2))
    w.base = rng.randint(1, 5)
    return m, w, b


def check_hm(lib):
    def ensures(s):
        i0, i1 = s.pre.mesh.info, s.post.mesh.info
        n, x = Not(Eq(s.pre.sethmin, 0)), Not(Eq(s.pre.sethmax, 0))
        return [('hmin of the user kept', Implies(n, Eq(i1.hmin, i0.hmin))), ('hmax of the user kept', Implies(x, Eq(i1.hmax, i0.hmax))),
                ('compatible', Implies(And(Not(And(n, x)), tm.le(Z(s), i0.hmin), tm.le(Z(s), i0.hmax)), tm.le(i1.hmin, i1.hmax))),
                ('hmin not above the least size', Implies(And(Not(n), tm.le(Z(s), i0.hmin)), tm.le(i1.hmin, i0.hmin))),
                ('hmax not below the greatest size', Implies(And(Not(x), tm.le(Z(s), i0.hmax)), tm.le(i0.hmax, i1.hmax)))]
    return Contract('MMG5_check_hminhmax', lib, ['mesh', 'sethmin', 'sethmax'], ensures, None, lambda s: [(s.pre.mesh, ['info.hmin', 'info.hmax'])],
                    gen=lambda rng, mem, c: {'mesh': gen_info(rng, mem, lib)[0], 'sethmin': rng.randint(0, 1), 'sethmax': rng.randint(0, 1)})


def bad_bound(s, i): return Or(And(tm.lt(i.hmin, Z(s)), Not(Eq(i.sethmin, 0))), And(tm.lt(i.hmax, Z(s)), Not(Eq(i.sethmax, 0))))


def check_setted(lib):
    return Contract('MMG5_check_setted_hminhmax', lib, ['mesh'], lambda s: [('negative user bounds refused', Eq(s.ret, Ite(bad_bound(s, s.pre.mesh.info), 0, 1)))], None, lambda s: [],
                    gen=lambda rng, mem, c: {'mesh': gen_info(rng, mem, lib)[0]})


def default_sizes(lib):
    def ensures(s):
        i0, i1 = s.pre.mesh.info, s.post.mesh.info
        n, x = Not(Eq(s.pre.sethmin, 0)), Not(Eq(s.pre.sethmax, 0))
        z = Z(s)
        pos = And(Implies(n, tm.lt(z, i0.hmin)), Implies(x, tm.lt(z, i0.hmax)))
        c1, c2 = (Fraction(0.001), Fraction(2)) if s.sym else (0.001, 2.)
        return [('hmin of the user kept', Implies(n, Eq(i1.hmin, i0.hmin))), ('hmax of the user kept', Implies(x, Eq(i1.hmax, i0.hmax))),
                ('refused iff the bounds of the user contradict', Implies(pos, Eq(s.ret, Ite(And(n, x, tm.lt(i0.hmax, i0.hmin)), 0, 1)))),
                ('accepted bounds are ordered', Implies(Not(Eq(s.ret, 0)), tm.le(i1.hmin, i1.hmax))),
                ('bounds are positive', Implies(pos, And(tm.lt(z, i1.hmin), tm.lt(z, i1.hmax)))),
                ('defaults', Implies(And(Not(n), Not(x)), And(near(s, i1.hmin, c1), near(s, i1.hmax, c2))))]
    return Contract('MMG5_Set_defaultTruncatureSizes', lib, ['mesh', 'sethmin', 'sethmax'], ensures,
                    lambda s: [Or(Eq(s.pre.sethmin, 0), Eq(s.pre.sethmax, 0), True)], lambda s: [(s.pre.mesh, ['info.hmin', 'info.hmax'])],
                    gen=gen_defaults(lib))


def gen_defaults(lib):
    def gen(rng, mem, c):
        m, w, _ = gen_info(rng, mem, lib)
        a = {'mesh': m, 'sethmin': rng.randint(0, 1), 'sethmax': rng.randint(0, 1)}
        w.info.hmin, w.info.hmax = rng.choice((0.0005, 0.1, 3.)), rng.choice((0.0005, 0.2, 5.))
        return a
    return gen


def constant_size(lib):
    def ensures(s):
        i0, i1 = s.pre.mesh.info, s.post.mesh.info
        z = Z(s)
        n, x = Not(Eq(i0.sethmin, 0)), Not(Eq(i0.sethmax, 0))
        ok = Not(Eq(s.ret, 0))
        if not s.sym and not s.ret: return [('refused for a reason', bool(Or(tm.lt(i0.hsiz, i0.hmin), And(tm.lt(z, i0.hmax), tm.lt(i0.hmax, i0.hsiz)), bad_bound(s, i0))))]
        h = s.post.hsiz[0]
        return [('refused iff the size contradicts the bounds', Eq(s.ret, Ite(Or(tm.lt(i0.hsiz, i0.hmin), And(tm.lt(z, i0.hmax), tm.lt(i0.hmax, i0.hsiz)), bad_bound(s, i0)), 0, 1))),
                ('the size asked for is the size used', Implies(And(ok, Implies(x, tm.lt(z, i0.hmax))), Eq(h, i0.hsiz))),
                ('the size lies between the bounds', Implies(And(ok, tm.lt(z, i0.hsiz), Implies(x, tm.lt(z, i0.hmax))), And(tm.le(i1.hmin, h), tm.le(h, i1.hmax)))),
                ('user bounds kept', Implies(ok, And(Implies(n, Eq(i1.hmin, i0.hmin)), Implies(x, Eq(i1.hmax, i0.hmax)))))]

    def gen(rng, mem, c):
        m, w, _ = gen_info(rng, mem, lib)
        w.info.hsiz = rng.choice((0.15, 0.25, 1.2))
        return {'mesh': m, 'met': gen_sol(rng, mem, lib, w.dim, w.np, 1, 'met')[0], 'hsiz': G.out(mem, DBL, 1, 'hsiz', rng)}
    return Contract('MMG5_Compute_constantSize', lib, ['mesh', 'met', 'hsiz'], ensures, None,
                    lambda s: [(s.pre.mesh, ['info.hmin', 'info.hmax']), (s.pre.hsiz, '*', 0, 1)], gen=gen, sizes={'hsiz': 1})


def iso_tensor(s, m, k, v, dim):
    """metric k is v times the identity"""
    n = dim * (dim + 1) // 2
    diag = {2: (0, 2), 3: (0, 3, 5)}[dim]
    z = Z(s)
    return And(*[near(s, m[n * k + q], v) if q in diag else Eq(m[n * k + q], z) for q in range(n)])


def set_constant(lib, dim, size):
    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.met
        h = s.pre.hsiz
        if size == 1: return [('the size everywhere', pts(s, m0, lambda k: Eq(m1.m[k], h)))]
        one = Fraction(1) if s.sym else 1.
        if s.sym:
            n = size
            return [('isotropic tensor of that size %d' % q, pts(s, m0, lambda k, q=q: (Eq(m1.m[n * k + q] * (h * h), one) if q in {2: (0, 2), 3: (0, 3, 5)}[dim] else Eq(m1.m[n * k + q], Z(s)))))
                    for q in range(size)]
        return [('isotropic tensor of that size', pts(s, m0, lambda k: iso_tensor(s, m1.m, k, 1 / (h * h), dim)))]

    def gen(rng, mem, c):
        m, w, _ = gen_info(rng, mem, lib, dim)
        return {'mesh': m, 'met': gen_sol(rng, mem, lib, dim, w.np, size, 'met', 0)[0], 'hsiz': rng.choice((0.1, 0.5, 3.))}
    return Contract('MMG5_Set_constantSize', lib, ['mesh', 'met', 'hsiz'], ensures, lambda s: req_mesh(s) + sol_req(s, 'met', size) + [Not(Eq(s.pre.met.np, 0)), tm.lt(Z(s), s.pre.hsiz)],
                    lambda s: [(s.pre.met.m, '*', size, size * (s.pre.mesh.np + 1))], gen=gen, name='MMG5_Set_constantSize[%dD,%d]' % (dim, size),
                    ex_setup=setdim(dim, met={'size': size}))


def clamp_goals(s, m0, m1, used, flagged, val, new):
    """val(k): the size before truncation, new(k): after"""
    i0, i1 = m0.info, m1.info
    n, x = Not(Eq(i0.sethmin, 0)), Not(Eq(i0.sethmax, 0))
    ok = Not(Eq(s.ret, 0))
    z = Z(s)
    allpts = lambda f: s.ForAll(1, m0.np + 1, f)
    out = [('no size above hmax', allpts(lambda k: tm.le(new(k), i1.hmax))),
           ('no size below hmin', Implies(tm.le(i1.hmin, i1.hmax), allpts(lambda k: tm.le(i1.hmin, new(k))))),
           ('user bounds kept', And(Implies(n, Eq(i1.hmin, i0.hmin)), Implies(x, Eq(i1.hmax, i0.hmax)))),
           ('the bounds are ordered unless the user contradicts himself', Implies(Not(And(n, x)), tm.le(i1.hmin, i1.hmax))),
           ('a size inside the user\'s bounds is kept', allpts(lambda k: Implies(And(flagged(k), tm.le(i1.hmin, val(k)), tm.le(val(k), i1.hmax)), near(s, new(k), val(k))))),
           ('a size is kept when no bound was given', Implies(And(Not(n), Not(x)), allpts(lambda k: Implies(used(k), near(s, new(k), val(k)))))),
           ('points without a size get hmax', allpts(lambda k: Implies(Not(flagged(k)), Eq(new(k), i1.hmax)))),
           ('hmin is not above the sizes', Implies(Not(n), allpts(lambda k: Implies(used(k), tm.le(i1.hmin, val(k)))))),
           ('hmax is not below the sizes', Implies(Not(x), allpts(lambda k: Implies(used(k), tm.le(val(k), i1.hmax)))))]
    return [(a, Implies(ok, g)) for a, g in out]


def iso_inv(s, val, used):
    """the reduction loop of MMG5_solTruncature_iso"""
    def inv(L):
        k, lo, hi = L.var('k'), L.var('hmin'), L.var('hmax')
        m0 = s.pre.mesh
        c = L.ctx
        z = Fraction(0)
        return [('counter', And(tm.le(1, k), tm.le(k, m0.np + 1))), ('least', c.ForAll(1, k, lambda j: Implies(used(j), tm.le(lo, val(j))))),
                ('greatest', c.ForAll(1, k, lambda j: Implies(used(j), tm.le(val(j), hi)))), ('signs', And(tm.lt(z, lo), tm.le(z, hi)))]
    return lambda x, names, cells: {'hmin', 'hmax', 'k'} <= names, inv, lambda L: s.pre.mesh.np + 1 - L.var('k')


NOFALSE = {'nonnull_fields': {'MMG5_Mesh.point', 'MMG5_Sol.m'}}


def trunc_iso(lib):
    def flagged(s): return lambda k: tm.le(s.pre.mesh.base, s.pre.mesh.point[k].flag)
    def used(s): return lambda k: And(valid(s.pre.mesh.point[k]), flagged(s)(k))

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        out = [('refused iff a bound of the user is negative', Eq(s.ret, Ite(bad_bound(s, m0.info), 0, 1)))]
        return out + clamp_goals(s, m0, m1, used(s), flagged(s), lambda k: s.pre.met.m[k], lambda k: s.post.met.m[k])

    def requires(s):
        i = s.pre.mesh.info
        return req_mesh(s) + sol_req(s, 'met', 1) + [Not(Eq(s.pre.met.np, 0)), s.ForAll(1, s.pre.mesh.np + 1, lambda k: Implies(used(s)(k), tm.lt(Z(s), s.pre.met.m[k])))]

    def setup(x, st, s):
        setdim({'mmg2d': 2}.get(lib, 3), met={'size': 1})(x, st, s)
        loops.use_invariants(x, [iso_inv(s, lambda k: s.pre.met.m[k], used(s))])

    def gen(rng, mem, c):
        m, w, b = gen_info(rng, mem, lib)
        met, wm = gen_sol(rng, mem, lib, w.dim, w.np, 1, 'met', 0)
        fillpos(rng, mem, wm)
        flags(rng, mem, w, b)
        return {'mesh': m, 'met': met}
    return Contract('MMG5_solTruncature_iso', lib, ['mesh', 'met'], ensures, requires,
                    lambda s: [(s.pre.mesh, ['info.hmin', 'info.hmax']), (s.pre.met.m, '*', 1, s.pre.mesh.np + 1)], gen=gen, ex_setup=setup, name='MMG5_solTruncature_iso[%s]' % lib, opts=NOFALSE, timeout=40)


def fillpos(rng, mem, wm):
    for k in range(wm.size * (wm.np + 1)): N.poke(wm.m._a + 8 * k, DBL, rng.choice((0.01, 0.3, 1.7, rng.uniform(0.001, 10))))


def flags(rng, mem, w, b):
    lay = mem.lay
    o, t = [(o, t) for kk, o, t in lay.cells(b['point'].ty) if kk == 'flag'][0]
    sz = lay.sizeof(b['point'].ty)
    for k in range(w.npmax + 1): N.poke(b['point'].addr + k * sz + o, t, w.base - rng.choice((0, 0, 0, 1)))


def scale_scalar(lib):
    def used(s): return lambda k: valid(s.pre.mesh.point[k])

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        dd = s.pre.dd
        bad = s.Exists(1, m0.np + 1, lambda k: And(used(s)(k), tm.le(s.pre.met.m[k], Z(s))))
        out = [('a size that is not positive is refused', Implies(bad, Eq(s.ret, 0))), ('accepted otherwise', Implies(Eq(s.ret, 0), Or(bad, bad_bound(s, m0.info))))]
        return out + clamp_goals(s, m0, m1, used(s), used(s), lambda k: s.pre.met.m[k] * dd, lambda k: s.post.met.m[k])

    def requires(s):
        m = s.pre.mesh
        return req_mesh(s) + sol_req(s, 'met', 1) + [Not(Eq(s.pre.met.np, 0)), tm.lt(Z(s), s.pre.dd), s.ForAll(1, m.np + 1, lambda k: tm.le(m.point[k].flag, m.base)),
                                                     tm.le(m.base, 1 << 30)]

    def setup(x, st, s):
        setdim({'mmg2d': 2}.get(lib, 3), met={'size': 1})(x, st, s)
        m = s.pre.mesh
        mt = s.pre.met.m._p.base

        def inv(L):
            c, k = L.ctx, L.var('k')
            q, m0 = S.View(x, L.st, s.pre.mesh._p), s.pre.mesh
            n0, n1 = s.pre.met, S.View(x, L.st, s.pre.met._p)
            u = used(s)
            return [('counter', And(tm.le(1, k), tm.le(k, m0.np + 1))),
                    ('scaled', c.ForAll(1, k, lambda j: Implies(u(j), And(Eq(n1.m[j], n0.m[j] * s.pre.dd), tm.lt(Fraction(0), n0.m[j]), Eq(q.point[j].flag, m0.base + 1))))),
                    ('left alone', c.ForAll(1, m0.np + 1, lambda j: Implies(Or(Not(u(j)), tm.le(k, j)), And(Eq(n1.m[j], n0.m[j]), Eq(q.point[j].flag, m0.point[j].flag))))),
                    ('outside', c.Outside(1, m0.np + 1, lambda j: And(Eq(n1.m[j], n0.m[j]), Eq(q.point[j].flag, m0.point[j].flag))))]
        loops.use_invariants(x, [(lambda x, names, cells: any(b == mt for b, _ in cells) and any(k == 'flag' for _, k in cells), inv, lambda L: s.pre.mesh.np + 1 - L.var('k')),
                                 iso_inv(s, lambda k: s.pre.met.m[k] * s.pre.dd, used(s))])

    def gen(rng, mem, c):
        m, w, b = gen_info(rng, mem, lib)
        met, wm = gen_sol(rng, mem, lib, w.dim, w.np, 1, 'met', 0)
        fillpos(rng, mem, wm)
        if rng.random() < 0.3: N.poke(wm.m._a + 8 * rng.randint(1, w.np), DBL, rng.choice((0., -1.)))
        flags(rng, mem, w, b)
        return {'mesh': m, 'met': met, 'dd': rng.choice((0.5, 1., 3.))}
    return Contract('MMG5_scale_scalarMetric', lib, ['mesh', 'met', 'dd'], ensures, requires,
                    lambda s: [(s.pre.mesh, ['info.hmin', 'info.hmax', 'base']), (s.pre.mesh.point, ['flag'], 1, s.pre.mesh.np + 1), (s.pre.met.m, '*', 1, s.pre.mesh.np + 1)] + (s.static_views() if s.sym else []), gen=gen, ex_setup=setup,
                    name='MMG5_scale_scalarMetric[%s]' % lib, opts=NOFALSE, timeout=40)


# ------------------------------------------------------------------ anisotropic sizes
def eig_terms(m, dim):
    """the eigen decomposition of a symmetric matrix as uninterpreted functions of its coefficients: (accepted, values, vectors)"""
    r = range(dim)
    return (tm.app('EIGOK%d' % dim, 'I', *m), [tm.app('EIGL%d_%d' % (dim, i), 'R', *m) for i in r], [[tm.app('EIGV%d_%d%d' % (dim, i, j), 'R', *m) for j in r] for i in r])


def use_eig(dim):
    """MMG5_eigenv3d / MMG5_eigensym at their call sites (trusted: that the functions are an eigen decomposition)"""
    def h(x, st, a, n):
        if dim == 3: a = a[1:]
        n_ = dim * (dim + 1) // 2
        m = [S.View(x, st, a[0])[q] for q in range(n_)]
        ok, L, V = eig_terms(m, dim)
        for i in range(dim):
            put(x, st, a[1], i, L[i])
            for j in range(dim): put(x, st, a[2], (i, j), V[i][j])
        return ok if dim == 3 else 1
    return h


def sym_index(dim): return {2: ((0, 0), (0, 1), (1, 1)), 3: ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))}[dim]


def compose(V, L, dim): return [sum((V[q][i] * V[q][j] * L[q] for q in range(dim)), Fraction(0)) for i, j in sym_index(dim)]


def clampv(v, lo, hi): return tm.ite(tm.lt(v, lo), lo, tm.ite(tm.lt(hi, v), hi, v))


def np_mat(m, dim):
    import numpy as np
    a = np.zeros((dim, dim))
    for q, (i, j) in enumerate(sym_index(dim)): a[i, j] = a[j, i] = float(m[q])
    return a


def clamped_natively(m0, m1, lo, hi, dim, fact=1.):
    import numpy as np
    a, b = np_mat(m0, dim) * fact, np_mat(m1, dim)
    w, V = np.linalg.eigh(a)
    c = V @ np.diag(np.clip(w, lo, hi)) @ V.T
    return np.abs(b - c).max() <= 1e-5 * max(1., np.abs(c).max())


def spd(rng, dim, near_iso=False):
    import numpy as np
    r = np.random.RandomState(rng.randint(0, 1 << 30))
    q, _ = np.linalg.qr(r.randn(dim, dim))
    w = [rng.choice((0.3, 1., 5., 40., rng.uniform(0.1, 200))) for _ in range(dim)]
    a = q @ np.diag(w) @ q.T
    return [float(a[i, j]) for i, j in sym_index(dim)]


def fill_spd(rng, wm, dim, bad=0.):
    n = dim * (dim + 1) // 2
    for k in range(wm.np + 1):
        v = spd(rng, dim)
        if rng.random() < bad: v = [-y for y in v]
        for q in range(n): N.poke(wm.m._a + 8 * (n * k + q), DBL, v[q])


def use_truncate(x, st, a, n):
    """MMG5_truncate_met3d by its contract"""
    met, ip, lo, hi = S.View(x, st, a[0]), a[1], a[3], a[2]
    m0 = [met.m[6 * ip + q] for q in range(6)]
    ok, L, V = eig_terms(m0, 3)
    good = And(Not(Eq(ok, 0)), *[tm.lt(Fraction(0), l) for l in L])
    new = trunc_terms(m0, lo, hi, 3)
    mp = met.m._p
    for _, p in S.alts(mp):
        if not p.base: continue
        for q in range(6): x.store1(st, p.base, p.path, tm.add(p.off, 6 * ip + q), tm.ite(good, new[q], m0[q]))
    return tm.ite(good, 1, 0)


def trunc_terms(m, lo, hi, dim):
    """the truncated tensor, as functions of the tensor and the two bounds"""
    return [tm.app('TRUNC%d_%d' % (dim, q), 'R', *m, lo, hi) for q in range(len(m))]


def truncate3(lib):
    def ensures(s):
        m0 = [s.pre.met.m[6 * s.pre.ip + q] for q in range(6)]
        m1 = [s.post.met.m[6 * s.pre.ip + q] for q in range(6)]
        lo, hi = s.pre.isqhmax, s.pre.isqhmin
        if s.sym:
            ok, L, V = eig_terms(m0, 3)
            good = And(Not(Eq(ok, 0)), *[tm.lt(Fraction(0), l) for l in L])
            want = compose(V, [clampv(l, lo, hi) for l in L], 3)
            return [('refused iff no eigen decomposition with positive values', Eq(s.ret, Ite(good, 1, 0))), ('unchanged when refused', Implies(Not(good), And(*[Eq(a, b) for a, b in zip(m1, m0)])))] + \
                [('the eigenvalues are truncated: coefficient %d' % q, Implies(good, Eq(m1[q], want[q]))) for q in range(6)]
        import numpy as np
        w = np.linalg.eigvalsh(np_mat(m0, 3))
        if w.min() < 0: return [('a negative tensor is refused', s.ret == 0), ('unchanged when refused', m0 == m1)]
        return [('accepted', s.ret == 1), ('the eigenvalues are truncated', clamped_natively(m0, m1, lo, hi, 3))]

    def gen(rng, mem, c):
        s, w = G.sol(rng, mem, lib, size=6, typ=3, dim=3)
        fill_spd(rng, w, 3, 0.1)
        lo = rng.uniform(0.1, 2)
        return {'met': s, 'ip': rng.randint(1, w.np), 'isqhmin': lo * rng.choice((1.5, 20., 1000.)), 'isqhmax': lo}
    return Contract('MMG5_truncate_met3d', lib, ['met', 'ip', 'isqhmin', 'isqhmax'], ensures,
                    lambda s: [Eq(s.pre.met.size, 6), Not(s.pre.met.m.isnull()), tm.le(1, s.pre.ip), tm.le(s.pre.isqhmax, s.pre.isqhmin), tm.lt(Z(s), s.pre.isqhmax)],
                    lambda s: [(s.pre.met.m, '*', 6 * s.pre.ip, 6 * s.pre.ip + 6)] + (s.static_views() if s.sym else []), gen=gen, policy={'MMG5_eigenv3d': use_eig(3)},
                    name='MMG5_truncate_met3d[%s]' % lib, ex_setup=lambda x, st, s: x.store1(st, s.pre.met._p.base, 'size', 0, 6))


def put(x, st, p, i, v):
    """p[i] = v; i: an index or a pair of indices"""
    for k in (i if isinstance(i, tuple) else (i,)):
        p = x.padd(p, k)
        ty = [q.ty for _, q in S.alts(p) if q.base][0]
        if isinstance(ty, TArr): p = x.decay(p, ty)
    x.store(st, p, v, DBL)


def tens(m, k, n): return [m[n * k + q] for q in range(n)]


def trunc_ani(lib, dim, part=None):
    """part: the direction whose bounds are examined (the other clauses otherwise)"""
    n = dim * (dim + 1) // 2
    diag = {2: (0, 2), 3: (0, 3, 5)}[dim]

    def flagged(s): return lambda k: tm.le(s.pre.mesh.base, s.pre.mesh.point[k].flag)
    def used(s): return lambda k: And(valid(s.pre.mesh.point[k]), flagged(s)(k))

    def good(m):
        """the tensor is positive definite (as far as the eigen decomposition tells)"""
        ok, L, V = eig_terms(m, dim)
        return And(*([Not(Eq(ok, 0))] if dim == 3 else []), *[tm.lt(Fraction(0), l) for l in L])

    def outlier(l):
        """eigenvalues equal to 1/4 stand for the absence of a size in mmgs"""
        d = l - Fraction(0.25)
        return And(tm.le(d, Fraction(1e-6)), tm.le(-d, Fraction(1e-6)))

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        i0, i1 = m0.info, m1.info
        nmin, xmax = Not(Eq(i0.sethmin, 0)), Not(Eq(i0.sethmax, 0))
        ok = Not(Eq(s.ret, 0))
        out = [('refused iff a bound of the user is negative', Eq(s.ret, Ite(bad_bound(s, i0), 0, 1))),
               ('user bounds kept', Implies(ok, And(Implies(nmin, Eq(i1.hmin, i0.hmin)), Implies(xmax, Eq(i1.hmax, i0.hmax)))))]
        a, b = s.pre.met.m, s.post.met.m
        if not s.sym:
            if not s.ret: return out
            lo, hi = 1 / i1.hmax ** 2, 1 / i1.hmin ** 2
            out.append(('the bounds are ordered unless the user contradicts himself', bool(nmin and xmax) or i1.hmin <= i1.hmax))
            if lo > hi: return out
            out.append(('eigenvalues truncated', s.ForAll(1, m0.np + 1, lambda k: not used(s)(k) or clamped_natively(tens(a, k, n), tens(b, k, n), lo, hi, dim))))
            out.append(('points without a size get hmax', s.ForAll(1, m0.np + 1, lambda k: flagged(s)(k) or not valid(m0.point[k]) or iso_tensor(s, b, k, lo, dim))))
            if not nmin and not xmax:
                out.append(('a size is kept when no bound was given', s.ForAll(1, m0.np + 1, lambda k: not used(s)(k) or clamped_natively(tens(a, k, n), tens(b, k, n), 0, 1e300, dim))))
            return out
        lo, hi = tm.rdiv(Fraction(1), i1.hmax * i1.hmax), tm.rdiv(Fraction(1), i1.hmin * i1.hmin)
        P = lambda f: s.ForAll(1, m0.np + 1, f)
        for q in range(n):
            def f(k, q=q):
                m = tens(a, k, n)
                if dim == 3: want = trunc_terms(m, lo, hi, 3)[q]
                else:
                    _, L, V = eig_terms(m, 2)
                    want = compose(V, [clampv(l, lo, hi) for l in L], 2)[q]
                return Implies(And(used(s)(k), good(m), tm.le(lo, hi)), Eq(b[n * k + q], want))
            out.append(('eigenvalues truncated: coefficient %d' % q, Implies(ok, P(f))))
            out.append(('points without a size get hmax: coefficient %d' % q, Implies(ok, P(lambda k, q=q: Implies(And(valid(m0.point[k]), Not(flagged(s)(k))), Eq(b[n * k + q], lo if q in diag else Fraction(0)))))))
        if part is not None: out = []
        for r in range(dim):
            if r != part: continue
            def g(k, r=r):
                ok_, L, V = eig_terms(tens(a, k, n), dim)
                return And(used(s)(k), *([Not(Eq(ok_, 0)), Not(outlier(L[r]))] if dim == 3 else [])), L[r]
            # 1/hmin^2 >= lambda  <=>  lambda*hmin^2 <= 1
            out.append(('the size in direction %d is not below hmin when no bound was given' % r, Implies(And(ok, Not(nmin), Not(xmax)), P(lambda k, g=g: Implies(g(k)[0], tm.le(g(k)[1] * i1.hmin * i1.hmin, Fraction(1)))))))
            out.append(('the size in direction %d is not above hmax when no bound was given' % r, Implies(And(ok, Not(nmin), Not(xmax)), P(lambda k, g=g: Implies(g(k)[0], tm.le(Fraction(1), g(k)[1] * i1.hmax * i1.hmax))))))
        return out

    def requires(s):
        m = s.pre.mesh
        out = req_mesh(s) + sol_req(s, 'met', n) + [Not(Eq(s.pre.met.np, 0))]
        if s.sym:
            out.append(s.ForAll(1, m.np + 1, lambda k: Implies(used(s)(k), And(*[tm.lt(Fraction(0), l) for l in eig_terms(tens(s.pre.met.m, k, n), dim)[1]]))))
            out.append(s.Exists(1, m.np + 1, lambda k: used(s)(k)))
        return out

    def setup(x, st, s):
        setdim(dim, met={'size': n})(x, st, s)
        mt = s.pre.met.m._p.base

        def inv(L):
            k, lo, hi = L.var('k'), L.var('isqhmax'), L.var('isqhmin')
            c, m0, a = L.ctx, s.pre.mesh, s.pre.met.m
            z = Fraction(0)
            def at(j):
                ok_, V, _ = eig_terms(tens(a, j, n), dim)
                return Implies(And(used(s)(j), *([Not(Eq(ok_, 0))] if dim == 3 else [])), And(*[Implies(Not(outlier(l)) if dim == 3 else True, And(tm.le(lo, l), tm.le(l, hi))) for l in V]))
            out = [('counter', And(tm.le(1, k), tm.le(k, m0.np + 1))), ('range', c.ForAll(1, k, at)), ('signs', And(tm.le(z, hi), tm.lt(z, lo)))]
            if dim == 3:
                b = S.View(x, L.st, s.pre.met._p).m
                out.append(('tensors kept', c.ForAll(0, m0.np + 1, lambda j: Implies(Or(tm.le(k, j), Not(used(s)(j)), Not(Eq(eig_terms(tens(a, j, n), 3)[0], 0))), And(*[Eq(b[n * j + q], a[n * j + q]) for q in range(n)])))))
                out.append(('outside', c.Outside(n, n * (m0.np + 1), lambda j: Eq(b[j], a[j]))))
            return out
        loops.use_invariants(x, [(lambda x, names, cells: {'isqhmin', 'isqhmax', 'k'} <= names, inv, lambda L: s.pre.mesh.np + 1 - L.var('k'))])

    def gen(rng, mem, c):
        m, w, b = gen_info(rng, mem, lib, dim)
        met, wm = gen_sol(rng, mem, lib, dim, w.np, n, 'met', 0)
        fill_spd(rng, wm, dim)
        flags(rng, mem, w, b)
        N.poke(b['point'].addr + mem.lay.sizeof(b['point'].ty) + dict((k, o) for k, o, _ in mem.lay.cells(b['point'].ty))['tag'], TInt(16, False), 0)
        N.poke(b['point'].addr + mem.lay.sizeof(b['point'].ty) + dict((k, o) for k, o, _ in mem.lay.cells(b['point'].ty))['flag'], INT, w.base)
        return {'mesh': m, 'met': met}
    return Contract('MMG5_%ddSolTruncature_ani' % dim, lib, ['mesh', 'met'], ensures, requires,
                    lambda s: [(s.pre.mesh, ['info.hmin', 'info.hmax']), (s.pre.met.m, '*', n, n * (s.pre.mesh.np + 1))], gen=gen, ex_setup=setup,
                    policy={'MMG5_eigenv3d': use_eig(3), 'MMG5_eigensym': use_eig(2), 'MMG5_truncate_met3d': use_truncate}, name='MMG5_%ddSolTruncature_ani[%s]%s' % (dim, lib, '' if part is None else ' direction %d' % part), trials=60 if part is None else 5, opts=NOFALSE, timeout=40)


def scale_tensor(lib, dim):
    n = dim * (dim + 1) // 2
    ier = lambda: tm.sym('ier_truncature', 'I')

    def trunc(s0):
        def h(x, st, a, n_):
            s = s0[0]
            m0, a0 = s.pre.mesh, s.pre.met
            m1, a1 = S.View(x, st, a[0]), S.View(x, st, a[1])
            dd = s.pre.dd
            c = Ctx('sym'); c.x = x
            P = lambda f: c.ForAll(1, m0.np + 1, lambda k: Implies(valid(m0.point[k]), f(k)))
            for q in range(n): x.oblige(st, P(lambda k, q=q: Eq(a1.m[n * k + q] * (dd * dd), a0.m[n * k + q])), 'coefficient %d scaled before the truncation' % q, n_.line, 'call')
            x.oblige(st, P(lambda k: tm.le(m1.base, m1.point[k].flag)), 'used points marked before the truncation', n_.line, 'call')
            x.oblige(st, c.ForAll(1, m0.np + 1, lambda k: Or(valid(m0.point[k]), tm.lt(m1.point[k].flag, m1.base))), 'unused points not marked', n_.line, 'call')
            return ier()
        return h

    s0 = [None]

    def setup(x, st, s):
        setdim(dim, met={'size': n})(x, st, s)
        s0[0] = s

    def requires(s):
        m = s.pre.mesh
        return req_mesh(s) + sol_req(s, 'met', n) + [Not(Eq(s.pre.met.np, 0)), tm.lt(Z(s), s.pre.dd), s.ForAll(1, m.np + 1, lambda k: tm.le(m.point[k].flag, m.base)), tm.le(m.base, 1 << 30)]
    return Contract('MMG5_scale_tensorMetric', lib, ['mesh', 'met', 'dd'], lambda s: [('the result of the truncation is the result', Eq(s.ret, ier()))], requires,
                    lambda s: [(s.pre.mesh, ['base']), (s.pre.mesh.point, ['flag'], 1, s.pre.mesh.np + 1), (s.pre.met.m, '*', n, n * (s.pre.mesh.np + 1))],
                    ex_setup=setup, policy={'MMG5_solTruncature_ani': trunc(s0)}, name='MMG5_scale_tensorMetric[%s]' % lib, opts=NOFALSE, native=False)


def scale_mesh(lib, dim):
    n = 3 * (dim - 1)
    ier = [tm.sym('ier_%s' % q, 'I') for q in ('coordinates', 'scalar', 'tensor')]
    D = tm.sym('inverse_of_the_scale', 'R')
    s0 = [None]

    def first(x, st, a, n_):
        s = s0[0]
        x.oblige(st, And(*[S.ptr_eq(p, getattr(s.pre, q)._p) for p, q in zip(a, ('mesh', 'met', 'sol'))]), 'arguments passed on', n_.line, 'call')
        x.store(st, a[3], D, DBL)
        return ier[0]

    def second(i):
        def h(x, st, a, n_):
            s = s0[0]
            x.oblige(st, And(S.ptr_eq(a[0], s.pre.mesh._p), S.ptr_eq(a[1], s.pre.met._p), Eq(a[2], D)), 'the metric is scaled with the factor of the coordinates', n_.line, 'call')
            return ier[i]
        return h

    def ensures(s):
        met = s.pre.met
        none = Or(met.isnull(), Eq(met.np, 0), met.m.isnull())
        b = lambda i: Ite(Eq(ier[i], 0), 0, 1)
        return [('each part is scaled once and every failure is reported', Eq(s.ret, Ite(Eq(ier[0], 0), 0, Ite(none, 1, Ite(Eq(met.size, 1), b(1), Ite(Eq(met.size, n), b(2), 1))))))]

    def setup(x, st, s):
        setdim(dim)(x, st, s)
        s0[0] = s
    return Contract('MMG5_scaleMesh', lib, ['mesh', 'met', 'sol'], ensures, None, lambda s: [], ex_setup=setup, nullable=('met', 'sol'), name='MMG5_scaleMesh[%s]' % lib, native=False,
                    policy={'MMG5_scale_meshAndSol': first, 'MMG5_scale_scalarMetric': second(1), 'MMG5_scale_tensorMetric': second(2)})


def set_constant_size(lib, ani):
    pre = {'mmg3d': 'MMG3D', 'mmg2d': 'MMG2D', 'mmgs': 'MMGS'}[lib]
    dim = {'mmg2d': 2}.get(lib, 3)
    n = (dim * (dim + 1) // 2) if ani else 1
    diag = {1: (0,), 3: (0, 2), 6: (0, 3, 5)}[n]

    def ensures(s):
        m0, m1, b = s.pre.mesh, s.post.mesh, s.post.met
        ok = Not(Eq(s.ret, 0))
        if not s.sym and not s.ret: return []
        h = m0.info.hsiz
        out = [('one value per vertex', Implies(ok, And(Eq(b.np, m0.np), Eq(b.size, n)))), ('the size lies between hmin and hmax', Implies(ok, And(tm.le(m1.info.hmin, m1.info.hsiz), tm.le(m1.info.hsiz, m1.info.hmax)))),
               ('the size asked for is the one used', Implies(ok, Eq(m1.info.hsiz, h)))]
        one = Fraction(1) if s.sym else 1.
        for q in range(n):
            f = (lambda k, q=q: near(s, b.m[n * k + q] * (h * h), one)) if n > 1 and q in diag else (lambda k, q=q: Eq(b.m[n * k + q], h if n == 1 else Z(s)))
            out.append(('size at every vertex: coefficient %d' % q, Implies(ok, pts(s, m0, f)) if s.sym else pts(s, m0, f)))
        return out

    def requires(s):
        i = s.pre.mesh.info
        return req_mesh(s) + [tm.le(1, s.pre.mesh.np), tm.lt(Z(s), i.hsiz), Implies(Not(Eq(i.sethmax, 0)), tm.lt(Z(s), i.hmax)), tm.le(s.pre.mesh.memCur, s.pre.mesh.memMax), tm.le(0, s.pre.mesh.memCur)]

    def gen(rng, mem, c):
        m, w, _ = gen_info(rng, mem, lib, dim)
        w.info.ani = 1 if ani else 0
        w.info.hsiz = rng.choice((0.15, 0.25, 1.2))
        met, wm = gen_sol(rng, mem, lib, dim, w.np, 1, 'met', 0)
        wm.m = 0
        wm.np = 0
        return {'mesh': m, 'met': met}

    def setup(x, st, s):
        setdim(dim)(x, st, s)
        x.store1(st, s.pre.mesh._p.base, 'info.ani', 0, 1 if ani else 0)
    return Contract(pre + '_Set_constantSize', lib, ['mesh', 'met'], ensures, requires, None, gen=gen, ex_setup=setup, name='%s_Set_constantSize[%d]' % (pre, n), opts={'nonnull_fields': {'MMG5_Mesh.point'}})


def contracts():
    out = []
    for lib, dim in (('mmg3d', 3), ('mmg2d', 2)):
        out.append(bbox(lib, dim))
        for size in (1, dim):
            out.append(scale_mesh_sol(lib, dim, size))
            for msize in (1, dim * (dim + 1) // 2): out.append(unscale(lib, dim, size, msize))
            out.append(set_constant(lib, dim, 1 if size == 1 else dim * (dim + 1) // 2))
    for lib in ('mmg3d', 'mmg2d', 'mmgs'):
        out += [check_hm(lib), check_setted(lib), default_sizes(lib), constant_size(lib), trunc_iso(lib), scale_scalar(lib), truncate3(lib), scale_tensor(lib, {'mmg2d': 2}.get(lib, 3)), scale_mesh(lib, {'mmg2d': 2}.get(lib, 3)),
                set_constant_size(lib, False), set_constant_size(lib, True)]
    for lib, dim in (('mmg3d', 3), ('mmg2d', 2)): out += [trunc_ani(lib, dim, q) for q in [None] + list(range(dim))]
    return out
