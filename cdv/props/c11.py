"""C11 packing: what is delivered is the mesh that was remeshed, without its holes (build with Scotch: the numbering order is kept)."""
from fractions import Fraction
from ..spec import *
from ..spec import Contract, program, N, TRec, TPtr
from .. import gens as G, loops
from ..gens import INT, DBL

NUL, CRN, NOM, GEO, REF, REQ, BDY, NOSURF = 1 << 15, 32, 8, 2, 1, 4, 16, 64
NONNULL = {'nonnull_fields': {'MMG5_Mesh.point', 'MMG5_Mesh.tetra', 'MMG5_Mesh.tria', 'MMG5_Mesh.prism', 'MMG5_Mesh.quadra', 'MMG5_Mesh.adja', 'MMG5_Sol.m'}}


def vok(p): return tm.lt(p.tag, NUL)
def eok(e): return tm.lt(0, e.v[0])


def field(v, f):
    a, _, i = f.partition('[')
    v = getattr(v, a)
    return v[int(i[:-1])] if i else v


class Rank:
    """number of the used entities up to k: a function defined by recursion (symbolic), a sum (native)"""
    def __init__(s, name, used):
        s.name, s.used = name, used

    def __call__(s, k): return tm.app('rank_%s!' % s.name, 'I', k)

    def define(s, c, kind=None, weak=True):
        """hypotheses: the recursive definition, and what lemmas() proves from it; kind: trigger that restricts their instances"""
        R = s
        k, j = tm.fresh('k', 'I'), tm.fresh('j', 'I')
        t = (lambda q: trig(q, kind)) if kind else (lambda q: True)
        return [Eq(R(0), 0),
                tm.forall(k, Implies(And(tm.le(1, k), t(k)), Eq(R(k), R(k - 1) + Ite(s.used(k), 1, 0)))),
                tm.forall(k, Implies(And(tm.le(0, k), t(k)), And(tm.le(0, R(k)), tm.le(R(k), k)))),
                tm.forall(j, tm.forall(k, Implies(And(tm.le(0, j), tm.lt(j, k), s.used(k), t(j), t(k)), tm.lt(R(j), R(k)))))] + \
            ([tm.forall(j, tm.forall(k, Implies(And(tm.le(0, j), tm.le(j, k), t(j), t(k)), tm.le(R(j), R(k)))))] if weak else [])

    def lemmas(s, x, fn):
        R = s
        k, j = tm.fresh('k', 'I'), tm.fresh('j', 'I')
        step = Eq(R(k), R(k - 1) + Ite(s.used(k), 1, 0))
        def ob(nm, hyps, g): x.obls.append(S.Obl('lemma %s: %s' % (s.name, nm), hyps, g, None, 'lemma', fn))
        ob('rank between 0 and k, base', [Eq(R(0), 0)], And(tm.le(0, R(0)), tm.le(R(0), 0)))
        ob('rank between 0 and k, step', [tm.le(1, k), step, tm.le(0, R(k - 1)), tm.le(R(k - 1), k - 1)], And(tm.le(0, R(k)), tm.le(R(k), k)))
        ob('rank strictly monotone at used entities', [tm.le(0, j), tm.lt(j, k), s.used(k), step, tm.le(R(j), R(k - 1))], tm.lt(R(j), R(k)))
        ob('rank monotone, step', [tm.le(1, k), tm.le(0, j), tm.le(j, k - 1), step, tm.le(R(j), R(k - 1))], tm.le(R(j), R(k)))


def rank(s, name, used, k):
    if s.sym: return Rank(name, used)(k)
    return sum(1 for j in range(1, k + 1) if used(j))


def packed(s, nm, A0, A1, n, fs, what, used):
    """goals: the used entities, in their order, without holes"""
    out = []
    for f in fs:
        out.append(('%s kept in order: %s' % (what, f), s.ForAll(1, n + 1, lambda k: s.If(used(k), lambda: Eq(field(A1[rank(s, nm, used, k)], f), field(A0[k], f))))))
    return out


def pack_inv(c, R, A0, A1, used, k, n, fs, moved=None, touched=None):
    """invariant of an in-place packing loop"""
    nbl = R(k - 1) + 1
    out = []
    for f in fs:
        out.append(('moved %s' % f, c.ForAll(1, k, lambda j: Implies(used(j), Eq(field(A1[R(j)], f), moved(j, f) if moved else field(A0[j], f))))))
        if touched is None or f not in touched:
            out.append(('to move %s' % f, c.ForAll(nbl, n + 1, lambda j: Eq(field(A1[j], f), field(A0[j], f)))))
        else:
            out.append(('to move %s' % f, c.ForAll(k, n + 1, lambda j: Eq(field(A1[j], f), field(A0[j], f)))))
        out.append(('outside %s' % f, c.Outside(1, n + 1, lambda j: Eq(field(A1[j], f), field(A0[j], f)))))
    return out


def cells_of(lib, rec):
    """the scalar fields of a record, from the current source"""
    if (lib, rec) not in _CELLS:
        P = program(lib)
        tu = P.find({'mmg3d': 'MMG3D_packMesh', 'mmg2d': 'MMG2D_pack', 'mmgs': 'MMGS_mmgslib'}[lib])[0]
        _CELLS[lib, rec] = [k for k, o, t in N.Lay(tu).cells(TRec(rec)) if not isinstance(t, TPtr)]
    return _CELLS[lib, rec]


_CELLS = {}


def tail_chain(s, m0, m1, n1, arr, mx, fld, first, val):
    """the slots after the last used one are chained"""
    hi = mx - 1
    return s.ForAll(1, hi, lambda k: Implies(And(tm.lt(n1, k), tm.lt(n1, hi)), Eq(field(getattr(m1, arr)[k], fld), val(k))))


# ---------------------------------------------------------------- marks
def mark_points(lib):
    def used(m): return lambda k: vok(m.point[k])
    def corner(m): return lambda k: And(vok(m.point[k]), bit(m.point[k].tag, CRN))

    def newtag(s, p):
        if not s.sym: return p.tag & (0xffff - NOSURF - REQ) if p.tag & NOSURF else p.tag
        return Ite(bit(p.tag, NOSURF), tm.bitand(p.tag, 0xffff - NOSURF - REQ), p.tag)

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        u = used(m0)
        P = lambda f: s.ForAll(1, m0.np + 1, lambda k: s.If(u(k), lambda: f(k)))
        return [('succeeds', Eq(s.ret, 1)), ('number of points', Eq(s.post.np[0], rank(s, 'point', u, m0.np))), ('number of corners', Eq(s.post.nc[0], rank(s, 'corner', corner(m0), m0.np))),
                ('new number of each point', P(lambda k: Eq(m1.point[k].tmp, rank(s, 'point', u, k)))),
                ('reference without its sign', P(lambda k: Eq(m1.point[k].ref, Ite(tm.le(0, m0.point[k].ref), m0.point[k].ref, -m0.point[k].ref)))),
                ('marks of the -nosurf option dropped', P(lambda k: Eq(m1.point[k].tag, newtag(s, m0.point[k])))),
                ('unused points untouched', s.ForAll(1, m0.np + 1, lambda k: s.If(Not(u(k)), lambda: And(Eq(m1.point[k].tag, m0.point[k].tag), Eq(m1.point[k].ref, m0.point[k].ref), Eq(m1.point[k].tmp, m0.point[k].tmp)))))]

    def requires(s):
        m = s.pre.mesh
        out = [tm.le(0, m.np), s.ForAll(1, m.np + 1, lambda k: And(tm.lt(-(1 << 31), m.point[k].ref), tm.le(0, m.point[k].tag)))]
        if s.sym: out += Rank('point', used(m)).define(s) + Rank('corner', corner(m)).define(s)
        return out

    def setup(x, st, s):
        m0 = s.pre.mesh
        R, C = Rank('point', used(m0)), Rank('corner', corner(m0))
        for r in (R, C): r.lemmas(x, 'MMG3D_mark_packedPoints')

        def inv(L):
            c, k, q = L.ctx, L.var('k'), S.View(x, L.st, m0._p)
            np_, nc = S.View(x, L.st, s.pre.np._p)[0], S.View(x, L.st, s.pre.nc._p)[0]
            u = used(m0)
            def upd(g): return c.ForAll(1, m0.np + 1, lambda j: g(And(u(j), tm.lt(j, k)), m0.point[j], q.point[j], j))
            return [('counter', And(tm.le(1, k), tm.le(k, m0.np + 1))), ('points', Eq(np_, R(k - 1))), ('corners', Eq(nc, C(k - 1))),
                    ('numbers', upd(lambda d, a, b, j: Eq(b.tmp, Ite(d, R(j), a.tmp)))), ('tags', upd(lambda d, a, b, j: Eq(b.tag, Ite(d, newtag(s, a), a.tag)))),
                    ('references', upd(lambda d, a, b, j: Eq(b.ref, Ite(And(d, tm.lt(a.ref, 0)), -a.ref, a.ref)))),
                    ('other points', c.Outside(1, m0.np + 1, lambda j: And(*[Eq(getattr(q.point[j], f), getattr(m0.point[j], f)) for f in ('tmp', 'tag', 'ref')])))]
        loops.use_invariants(x, [(lambda x, names, cells: 'k' in names, inv, lambda L: m0.np + 1 - L.var('k'))])

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        return {'mesh': m, 'np': G.out(mem, INT, 1, 'np', rng), 'nc': G.out(mem, INT, 1, 'nc', rng)}
    return Contract('MMG3D_mark_packedPoints', lib, ['mesh', 'np', 'nc'], ensures, requires,
                    lambda s: [(s.pre.mesh.point, ['tmp', 'tag', 'ref'], 1, s.pre.mesh.np + 1), (s.pre.np, '*', 0, 1), (s.pre.nc, '*', 0, 1)],
                    sizes={'np': 1, 'nc': 1}, gen=gen, ex_setup=setup, opts=NONNULL, timeout=40)


# ---------------------------------------------------------------- tetrahedra, prisms, quadrilaterals
def pack_tetra(lib):
    FS = lambda: cells_of(lib, 'MMG5_Tetra')
    def used(m): return lambda k: eok(m.tetra[k])

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        u = used(m0)
        n1 = rank(s, 'tetra', u, m0.ne)
        out = [('succeeds', Eq(s.ret, 1)), ('number of tetrahedra', Eq(m1.ne, n1)), ('number of tetrahedra of the user', Eq(m1.nei, n1))]
        out += packed(s, 'tetra', m0.tetra, m1.tetra, m0.ne, FS(), 'tetrahedra', u)
        out.append(('first free element', Eq(m1.nenil, Ite(tm.le(m0.nemax - 1, n1), 0, n1 + 1))))
        out.append(('the slots after them are free', s.ForAll(1, m0.nemax - 1, lambda k: Implies(And(tm.lt(n1, k), tm.lt(n1, m0.nemax - 1)), Eq(m1.tetra[k].v[0], 0)))))
        return out

    def requires(s):
        m = s.pre.mesh
        return [tm.le(0, m.ne), tm.le(m.ne, m.nemax), tm.lt(m.nemax, 1 << 30)] + (Rank('tetra', used(m)).define(s) if s.sym else [])

    def setup(x, st, s):
        m0 = s.pre.mesh
        R = Rank('tetra', used(m0))
        R.lemmas(x, 'MMG3D_pack_tetra')

        def inv(L):
            c, k, q = L.ctx, L.var('k'), S.View(x, L.st, m0._p)
            return [('counter', And(tm.le(1, k), tm.le(k, m0.ne + 1))), ('count', Eq(L.var('ne'), R(k - 1))), ('slot', Eq(L.var('nbl'), R(k - 1) + 1))] + \
                pack_inv(c, R, m0.tetra, q.tetra, used(m0), k, m0.ne, FS())
        loops.use_invariants(x, [(lambda x, names, cells: {'k', 'nbl'} <= names, inv, lambda L: m0.ne + 1 - L.var('k'))])

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        for k in range(1, w.ne + 1):
            if rng.random() < 0.3: w.tetra[k].v[0] = 0
        return {'mesh': m}
    return Contract('MMG3D_pack_tetra', lib, ['mesh'], ensures, requires, lambda s: [(s.pre.mesh, ['ne', 'nei', 'nenil']), (s.pre.mesh.tetra, '*', 1, s.pre.mesh.nemax + 1)],
                    gen=gen, ex_setup=setup, opts=NONNULL, timeout=40)


def pack_tetra_adja(lib, part):
    """part 'tetra': what the tetrahedra become; part 'adja': their adjacency"""
    FS = lambda: cells_of(lib, 'MMG5_Tetra') if part == 'tetra' else ['v[0]']
    ADJ = part == 'adja'
    def used(m): return lambda k: eok(m.tetra[k])
    def slot(j, i): return 4 * (j - 1) + 1 + i

    def on(s, i, *k): return And(*[And(trig(j, 'rank'), trig(j, 'adja%d' % i)) for j in k]) if s.sym else True

    def image(s, cur, a): return Ite(Eq(a, 0), 0, 4 * cur(tm.idiv(a, 4)) + tm.imod(a, 4)) if s.sym else 0 if a == 0 else 4 * cur(a // 4) + a % 4

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        u = used(m0)
        R = lambda k: rank(s, 'tetra', u, k)
        if not s.sym and m0.ne == 0: return [('succeeds', s.ret == 1)]
        n1 = R(m0.ne)
        some = tm.lt(0, m0.ne)
        out = [('succeeds', Eq(s.ret, 1)), ('number of tetrahedra', Eq(m1.ne, n1))]
        if ADJ:
            for i in range(4):
                out.append(('neighbour through face %d renumbered' % i, s.ForAll(1, m0.ne + 1, lambda k: s.If(And(u(k), on(s, i, k)), lambda: Eq(m1.adja[slot(R(k), i)], image(s, R, m0.adja[slot(k, i)]))))))
            return out
        out.append(('number of tetrahedra of the user', Implies(some, Eq(m1.nei, n1))))
        out += packed(s, 'tetra', m0.tetra, m1.tetra, m0.ne, FS(), 'tetrahedra', u)
        out.append(('first free element', Implies(some, Eq(m1.nenil, Ite(tm.le(m0.nemax - 1, n1), 0, n1 + 1)))))
        out.append(('the free elements are chained', Implies(some, s.ForAll(1, m0.nemax - 1, lambda k: Implies(tm.lt(n1, k), Eq(m1.tetra[k].v[3], k + 1))))))
        return out

    def recip(s, m, k, i):
        """the face i of tetra k is free, or the neighbour points back to it"""
        a = m.adja[slot(k, i)]
        n = tm.idiv(a, 4)
        return Or(Eq(a, 0), And(trig(n, 'rank'), tm.le(1, n), tm.le(n, m.ne), Not(Eq(n, k)), used(m)(n), Eq(m.adja[a - 3], 4 * k + i)))

    def nonneg(A):
        """hypothesis: no entry is negative (built raw: the simplifier relies on it from here on)"""
        j = tm.fresh('j', 'I')
        a = A[j]
        h = tm.forall(j, tm.mk('<=', 'B', 0, a))
        if a.op == 'app': tm.NNAPP.add(a.a[0])
        return h

    def requires(s):
        m = s.pre.mesh
        u = used(m)
        out = [tm.le(0, m.ne), tm.le(m.ne, m.nemax), tm.lt(m.nemax, 1 << 28)]
        if not s.sym: return out
        if ADJ:
            tm.NNAPP.clear()
            out.append(nonneg(m.adja))
        out += Rank('tetra', u).define(s, 'rank' if ADJ else None, not ADJ)
        if ADJ:
            out += [s.ForAll(1, m.ne + 1, lambda k: Implies(And(u(k), trig(k, 'adja%d' % i)), recip(s, m, k, i))) for i in range(4)]
            out += [trigger_def('rank'), trig(0, 'rank')] + [trigger_def('adja%d' % i) for i in range(4)]
        return out

    def setup(x, st, s):
        m0 = s.pre.mesh
        R = Rank('tetra', used(m0))
        R.lemmas(x, s.fn if hasattr(s, 'fn') else 'MMG3D_pack_tetraAndAdja')
        n = m0.ne

        def inv(L):
            c, k, q = L.ctx, L.var('k'), S.View(x, L.st, m0._p)
            u = used(m0)
            cur = lambda j: Ite(tm.lt(j, k), R(j), j)
            out = [('counter', And(tm.le(1, k), tm.le(k, n + 1)))]
            if ADJ: out += [('trigger', And(on(s, 0, k), on(s, 1, k), on(s, 2, k), on(s, 3, k), trig(k - 1, 'rank')))]
            out += [('count', Eq(L.var('ne'), R(k - 1))), ('slot', Eq(L.var('nbl'), R(k - 1) + 1))]
            if not ADJ: return out + pack_inv(c, R, m0.tetra, q.tetra, u, k, n, FS())
            if c.hyp:
                out.append(('no negative entry', nonneg(q.adja)))
                for v in ('k', 'nbl'):
                    t = L.var(v)
                    if isinstance(t, tm.T) and t.op == 'sym':
                        out.append((v, tm.mk('<=', 'B', 0, t)))          # follows from the counter and slot clauses above
                        tm.NNAPP.add(t.a[0])
            else:
                out.append(('slot after 0', tm.le(0, L.var('nbl'))))
                j = tm.fresh('j', 'I')
                out.append(('no negative entry', tm.le(0, q.adja[j])))
            out += [('to move', c.ForAll(k, n + 1, lambda j: Eq(q.tetra[j].v[0], m0.tetra[j].v[0])))]
            for i in range(4):
                ok = lambda j: And(u(j), on(s, i, j))
                is_ = lambda j: Eq(q.adja[slot(R(j), i)], image(s, cur, m0.adja[slot(j, i)]))
                if c.hyp: out.append(('neighbour %d of the packed' % i, c.ForAll(1, k, lambda j: Implies(ok(j), is_(j)))))
                else:
                    # by cases: the tetra packed last, its neighbours, the others
                    j, a = tm.fresh('j', 'I'), None
                    a = m0.adja[slot(j, i)]
                    old = And(tm.le(1, j), tm.lt(j, k), ok(j))
                    out.append(('neighbour %d of the last packed' % i, Implies(And(old, Eq(j, k - 1)), is_(k - 1))))
                    out.append(('no neighbour %d' % i, Implies(And(old, tm.lt(j, k - 1), Eq(a, 0)), is_(j))))
                    for f in range(4):
                        out.append(('neighbour %d of the packed is the last packed, face %d' % (i, f), Implies(And(old, tm.lt(j, k - 1), Eq(a, 4 * (k - 1) + f)), is_(j))))
                    out.append(('neighbour %d of the packed is packed before' % i, Implies(And(old, tm.lt(j, k - 1), tm.lt(0, a), tm.lt(a, 4 * (k - 1))), is_(j))))
                    out.append(('neighbour %d of the packed is after' % i, Implies(And(old, tm.lt(j, k - 1), tm.le(4 * k, a)), is_(j))))
                out.append(('neighbour %d of the others' % i, c.ForAll(k, n + 1, lambda j: Implies(ok(j), Eq(q.adja[slot(j, i)], image(s, cur, m0.adja[slot(j, i)]))))))
            out.append(('other adjacencies', c.Outside(1, 4 * n + 1, lambda j: Eq(q.adja[j], m0.adja[j]))))
            return out
        loops.use_invariants(x, [(lambda x, names, cells: {'k', 'nbl'} <= names, inv, lambda L: n + 1 - L.var('k'))])

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        used_ = []
        for k in range(1, w.ne + 1):
            if rng.random() < 0.3: w.tetra[k].v[0] = 0
            else: used_.append(k)
        n = 4 * w.nemax + 5
        A = mem.alloc(INT, n, 'adja')
        for q in range(n): N.poke(A.addr + 4 * q, INT, 0)
        w.adja = A.addr
        faces = [(k, i) for k in used_ for i in range(4)]
        rng.shuffle(faces)
        while len(faces) > 1:
            (a, i) = faces.pop()
            o = [f for f in faces if f[0] != a]
            if not o or rng.random() < 0.2: continue
            (b_, j) = o[0]
            faces.remove((b_, j))
            w.adja[slot(a, i)] = 4 * b_ + j
            w.adja[slot(b_, j)] = 4 * a + i
        return {'mesh': m}

    def assigns(s):
        m = s.pre.mesh
        # symbolically each part leaves the frame of the other one to the other one
        return [(m, ['ne', 'nei', 'nenil']), (m.tetra, '*', None, None) if ADJ and s.sym else (m.tetra, '*', 1, m.nemax + 1),
                (m.adja, '*', None, None) if not ADJ and s.sym else (m.adja, '*', 1, 4 * m.ne + 1)]
    return Contract('MMG3D_pack_tetraAndAdja', lib, ['mesh'], ensures, requires, assigns, gen=gen, ex_setup=setup, opts=NONNULL, timeout=40, name='MMG3D_pack_tetraAndAdja[%s]' % part)


def pack_pq(lib):
    FP, FQ = lambda: cells_of(lib, 'MMG5_Prism'), lambda: cells_of(lib, 'MMG5_Quad')
    def up(m): return lambda k: eok(m.prism[k])
    def uq(m): return lambda k: eok(m.quadra[k])

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        return [('succeeds', Eq(s.ret, 1)), ('number of prisms', Eq(m1.nprism, rank(s, 'prism', up(m0), m0.nprism))), ('number of quadrilaterals', Eq(m1.nquad, rank(s, 'quad', uq(m0), m0.nquad)))] + \
            packed(s, 'prism', m0.prism, m1.prism, m0.nprism, FP(), 'prisms', up(m0)) + packed(s, 'quad', m0.quadra, m1.quadra, m0.nquad, FQ(), 'quadrilaterals', uq(m0))

    def requires(s):
        m = s.pre.mesh
        return [tm.le(0, m.nprism), tm.le(0, m.nquad), tm.lt(m.nprism, 1 << 30), tm.lt(m.nquad, 1 << 30)] + (Rank('prism', up(m)).define(s) + Rank('quad', uq(m)).define(s) if s.sym else [])

    def setup(x, st, s):
        m0 = s.pre.mesh
        RP, RQ = Rank('prism', up(m0)), Rank('quad', uq(m0))
        for R in (RP, RQ): R.lemmas(x, 'MMG3D_pack_prismsAndQuads')
        pb, qb = m0.prism._p.base, m0.quadra._p.base

        def inv(R, arr, n, u, fs):
            def f(L):
                c, k, q = L.ctx, L.var('k'), S.View(x, L.st, m0._p)
                return [('counter', And(tm.le(1, k), tm.le(k, n + 1))), ('count', Eq(L.var('ne'), R(k - 1))), ('slot', Eq(L.var('nbl'), R(k - 1) + 1))] + \
                    pack_inv(c, R, getattr(m0, arr), getattr(q, arr), u, k, n, fs)
            return f
        loops.use_invariants(x, [(lambda x, names, cells: {'k', 'nbl'} <= names and any(b == pb for b, _ in cells), inv(RP, 'prism', m0.nprism, up(m0), FP()), lambda L: m0.nprism + 1 - L.var('k')),
                                 (lambda x, names, cells: {'k', 'nbl'} <= names and any(b == qb for b, _ in cells), inv(RQ, 'quadra', m0.nquad, uq(m0), FQ()), lambda L: m0.nquad + 1 - L.var('k'))])

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        for k in range(1, w.nprism + 1):
            if rng.random() < 0.3: w.prism[k].v[0] = 0
        for k in range(1, w.nquad + 1):
            if rng.random() < 0.3: w.quadra[k].v[0] = 0
        return {'mesh': m}
    return Contract('MMG3D_pack_prismsAndQuads', lib, ['mesh'], ensures, requires,
                    lambda s: [(s.pre.mesh, ['nprism', 'nquad']), (s.pre.mesh.prism, '*', 1, s.pre.mesh.nprism + 1), (s.pre.mesh.quadra, '*', 1, s.pre.mesh.nquad + 1)],
                    gen=gen, ex_setup=setup, opts=NONNULL, timeout=40)


def pack_sol(lib, size):
    def used(m): return lambda k: vok(m.point[k])

    def ensures(s):
        m0, a, b = s.pre.mesh, s.pre.sol, s.post.sol
        if not s.sym and (a.isnull() or a.m.isnull()): return [('succeeds', s.ret == 1)]
        u = used(m0)
        n1 = rank(s, 'point', u, m0.np)
        has = Not(Or(a.isnull(), a.m.isnull())) if s.sym else True
        out = [('succeeds', Eq(s.ret, 1)), ('number of values', Implies(has, And(Eq(b.np, n1), Eq(b.npi, n1))))]
        for i in range(size):
            out.append(('value %d of every used point' % i, Implies(has, s.ForAll(1, m0.np + 1, lambda k: s.If(u(k), lambda: Eq(b.m[size * rank(s, 'point', u, k) + i], a.m[size * k + i]))))))
        return out

    def requires(s):
        m = s.pre.mesh
        return [tm.le(0, m.np), tm.lt(m.np, 1 << 28)] + (Rank('point', used(m)).define(s) if s.sym else [])

    def setup(x, st, s):
        m0, a = s.pre.mesh, s.pre.sol
        for c_, p in S.alts(a._p):
            if p.base: x.store1(st, p.base, 'size', 0, size)
        R = Rank('point', used(m0))
        R.lemmas(x, 'MMG3D_pack_sol')
        n = m0.np

        def inv(L):
            c, k = L.ctx, L.var('k')
            b = S.View(x, L.st, s.pre.sol._p)
            u = used(m0)
            nbl = R(k - 1) + 1
            out = [('counter', And(tm.le(1, k), tm.le(k, n + 1))), ('count', Eq(L.var('np'), R(k - 1))), ('slot', Eq(L.var('nbl'), nbl))]
            for i in range(size):
                out.append(('moved %d' % i, c.ForAll(1, k, lambda j: Implies(u(j), Eq(b.m[size * R(j) + i], a.m[size * j + i])))))
            out.append(('to move', c.ForAll(size * nbl, size * (n + 1), lambda j: Eq(b.m[j], a.m[j]))))
            out.append(('outside', c.Outside(size, size * (n + 1), lambda j: Eq(b.m[j], a.m[j]))))
            return out
        loops.use_invariants(x, [(lambda x, names, cells: {'k', 'nbl'} <= names, inv, lambda L: n + 1 - L.var('k'))])

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        if rng.random() < 0.1: return {'mesh': m, 'sol': 0}
        sol, ws = G.sol(rng, mem, lib, np=w.np, size=size, typ={1: 1, 3: 2, 6: 3}[size], nm='sol', npmax=w.npmax)
        return {'mesh': m, 'sol': sol}
    return Contract('MMG3D_pack_sol', lib, ['mesh', 'sol'], ensures, requires,
                    lambda s: [(s.pre.sol, ['np', 'npi']), (s.pre.sol.m, '*', size, size * (s.pre.mesh.np + 1))] if s.sym or not s.pre.sol.isnull() else [],
                    nullable=('sol',), gen=gen, ex_setup=setup, opts={'nonnull_fields': NONNULL['nonnull_fields'] - {'MMG5_Sol.m'}}, name='MMG3D_pack_sol[%d]' % size, timeout=40)


def edg(t): return Or(bit(t, GEO), bit(t, REF))


def pack_points_array(lib):
    FS = lambda: [f for f in cells_of(lib, 'MMG5_Point') if f != 'tmp']
    def used(m): return lambda k: vok(m.point[k])

    def surf(s, m, p):
        """a regular boundary point takes the normal stored in its extra record"""
        t = p.tag
        return And(bit(t, BDY), Not(Or(bit(t, CRN), bit(t, NOM), bit(t, GEO), bit(t, REF))), Not(Eq(p.xp, 0)), Not(m.xpoint.isnull()))

    def new(s, m, p, f):
        if not f.startswith('n['): return field(p, f)
        q = int(f[2:-1])
        if s.sym: return Ite(surf(s, m, p), m.xpoint[p.xp].n1[q], field(p, f))
        return m.xpoint[p.xp].n1[q] if surf(s, m, p) else field(p, f)

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        u = used(m0)
        n1 = rank(s, 'point', u, m0.np)
        out = [('succeeds', Eq(s.ret, 1)), ('number of points', And(Eq(m1.np, n1), Eq(m1.npi, n1)))]
        for f in FS():
            out.append(('points kept in order: %s' % f, s.ForAll(1, m0.np + 1, lambda k: s.If(u(k), lambda: Eq(field(m1.point[rank(s, 'point', u, k)], f), new(s, m0, m0.point[k], f))))))
        out.append(('numbering cleared', s.ForAll(1, n1 + 1, lambda k: Eq(m1.point[k].tmp, 0))))
        out.append(('first free point', Eq(m1.npnil, Ite(tm.le(m0.npmax - 1, n1), 0, n1 + 1))))
        out.append(('the free points are chained', s.ForAll(1, m0.npmax - 1, lambda k: Implies(tm.lt(n1, k), Eq(m1.point[k].tmp, k + 1)))))
        out.append(('the slots after the points are unused', s.ForAll(1, m0.np + 1, lambda k: Implies(tm.lt(n1, k), Not(vok(m1.point[k]))))))
        return out

    def requires(s):
        m = s.pre.mesh
        return [tm.le(0, m.np), tm.le(m.np, m.npmax), tm.lt(m.npmax, 1 << 30)] + (Rank('point', used(m)).define(s) if s.sym else [])

    def setup(x, st, s):
        m0 = s.pre.mesh
        R = Rank('point', used(m0))
        R.lemmas(x, 'MMG3D_pack_pointArray')
        n = m0.np

        def inv(L):
            c, k, q = L.ctx, L.var('k'), S.View(x, L.st, m0._p)
            u = used(m0)
            A0, A1 = m0.point, q.point
            nbl = R(k - 1) + 1
            out = [('counter', And(tm.le(1, k), tm.le(k, n + 1))), ('count', Eq(L.var('np'), R(k - 1))), ('slot', Eq(L.var('nbl'), nbl))]
            out.append(('freed', c.ForAll(nbl, k, lambda j: Not(vok(A1[j])))))
            for f in FS() + ['tmp']:
                out.append(('moved %s' % f, c.ForAll(1, k, lambda j: Implies(u(j), Eq(field(A1[R(j)], f), new(s, m0, A0[j], f))))))
                out.append(('to move %s' % f, c.ForAll(k, n + 1, lambda j: Eq(field(A1[j], f), field(A0[j], f)))))
                out.append(('outside %s' % f, c.Outside(1, n + 1, lambda j: Eq(field(A1[j], f), field(A0[j], f)))))
            return out
        loops.use_invariants(x, [(lambda x, names, cells: {'k', 'nbl'} <= names, inv, lambda L: n + 1 - L.var('k'))])

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        if w.xpoint._a:
            for k in range(1, w.np + 1):
                if rng.random() < 0.4: w.point[k].tag = rng.choice((BDY, BDY, BDY | REQ, BDY | CRN, BDY | REF))
        return {'mesh': m}
    return Contract('MMG3D_pack_pointArray', lib, ['mesh'], ensures, requires, lambda s: [(s.pre.mesh, ['np', 'npi', 'npnil', 'nc1']), (s.pre.mesh.point, '*', 1, s.pre.mesh.npmax + 1)],
                    gen=gen, ex_setup=setup, opts=NONNULL, timeout=40)


def update_vertices(lib):
    ENT = [('ne', 'tetra', 4), ('nprism', 'prism', 6), ('nquad', 'quadra', 4)]

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        out = [('succeeds', Eq(s.ret, 1))]
        for n, a, nv in ENT:
            for i in range(nv):
                out.append(('vertex %d of every used %s' % (i, a), s.ForAll(1, getattr(m0, n) + 1, lambda k: s.If(eok(getattr(m0, a)[k]), lambda: Eq(getattr(m1, a)[k].v[i], m0.point[getattr(m0, a)[k].v[i]].tmp)))))
            out.append(('unused %s untouched' % a, s.ForAll(1, getattr(m0, n) + 1, lambda k: s.If(Not(eok(getattr(m0, a)[k])), lambda: And(*[Eq(getattr(m1, a)[k].v[i], getattr(m0, a)[k].v[i]) for i in range(nv)])))))
        return out

    def requires(s):
        m = s.pre.mesh
        return [tm.le(0, getattr(m, n)) for n, _, _ in ENT]

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        for n, a, nv in ENT:
            for k in range(1, getattr(w, n) + 1):
                if rng.random() < 0.2: getattr(w, a)[k].v[0] = 0
        return {'mesh': m}
    return Contract('MMG3D_update_eltsVertices', lib, ['mesh'], ensures, requires, lambda s: [(getattr(s.pre.mesh, a), ['v'], 1, getattr(s.pre.mesh, n) + 1) for n, a, _ in ENT],
                    gen=gen, opts=NONNULL, timeout=40)


def pack_mesh(lib):
    """the whole packing: each step once, in an order in which each one still finds what it needs"""
    PRE = ('dom', 'tetra', 'pq', 'met', 'sol', 'mark', 'vert', 'pts', 'bdry')

    def setup(x, st, s):
        for g in PRE + ('fail',): st.ghost[g] = 0
        m0 = s.pre.mesh
        def step(name, need, absent, g, ok=None, extra=None):
            def pol(x, st, args, n):
                line = getattr(n, 'line', None)
                for q in need: x.oblige(st, Eq(st.ghost[q], 1), '%s is called after the step "%s"' % (name, q), line, 'call')
                for q in absent: x.oblige(st, Eq(st.ghost[q], 0), '%s is called before the step "%s"' % (name, q), line, 'call')
                for nm, c in (extra(x, st, args) if extra else []): x.oblige(st, c, '%s: %s' % (name, nm), line, 'call')
                x.oblige(st, S.ptr_eq(args[0], s.pre.mesh._p), '%s works on the mesh' % name, line, 'call')
                if g: st.ghost[g] = tm.add(st.ghost[g], 1)
                if ok is None: return 0
                r = x.fresh('r', 'I')
                st.asm.append(Or(Eq(r, ok[0]), Eq(r, ok[1])) if len(ok) == 2 else tm.le(-1, r))
                st.ghost['fail'] = Ite(tm.le(r, ok[0]), 1, st.ghost['fail'])
                return r
            return pol
        def sol(x, st, args, n):
            line = getattr(n, 'line', None)
            for q in ('mark', 'pts'): x.oblige(st, Eq(st.ghost[q], 0), 'MMG3D_pack_sol is called before the points are packed', line, 'call')
            x.oblige(st, Eq(st.ghost['dom'], 1), 'MMG3D_pack_sol is called after the choice of the subdomain', line, 'call')
            for f in ('met', 'sol'):
                is_ = S.ptr_eq(args[1], getattr(s.pre, f)._p)
                st.ghost[f] = tm.add(st.ghost[f], Ite(is_, 1, 0))
            r = x.fresh('r', 'I')
            st.asm.append(Or(Eq(r, 0), Eq(r, 1)))
            st.ghost['fail'] = Ite(Eq(r, 0), 1, st.ghost['fail'])
            return r
        null = lambda x, st, yes: [('adjacency', s.pre.mesh.adja.isnull() if yes else Not(s.pre.mesh.adja.isnull()))]
        p = x.policy
        p['MMG3D_keep_only1Subdomain'] = step('MMG3D_keep_only1Subdomain', (), ('tetra', 'pq', 'met', 'sol', 'mark', 'pts'), 'dom', None, lambda x, st, a: [('the reference asked', Eq(a[1], m0.info.nsd))])
        p['MMG3D_pack_tetraAndAdja'] = step('MMG3D_pack_tetraAndAdja', ('dom',), (), 'tetra', (0, 1), lambda x, st, a: null(x, st, False))
        p['MMG3D_pack_tetra'] = step('MMG3D_pack_tetra', ('dom',), (), 'tetra', (0, 1), lambda x, st, a: null(x, st, True))
        p['MMG3D_pack_prismsAndQuads'] = step('MMG3D_pack_prismsAndQuads', ('dom',), (), 'pq', (0, 1))
        p['MMG3D_pack_sol'] = sol
        p['MMG3D_mark_packedPoints'] = step('MMG3D_mark_packedPoints', ('dom',), ('pts', 'vert'), 'mark', (0, 1))
        p['MMG3D_update_eltsVertices'] = step('MMG3D_update_eltsVertices', ('mark',), ('pts',), 'vert', (0, 1))
        p['MMG3D_pack_pointArray'] = step('MMG3D_pack_pointArray', ('mark', 'vert'), (), 'pts', (-1, 1))
        p['MMG3D_hashPrism'] = step('MMG3D_hashPrism', ('pq', 'vert'), (), None, (0, 1))
        p['MMG3D_unset_reqBoundaries'] = step('MMG3D_unset_reqBoundaries', (), (), None)
        p['MMG3D_bdryBuild'] = step('MMG3D_bdryBuild', ('tetra', 'vert', 'pts'), (), 'bdry', (-1,))
        p['MMG5_chkmsh'] = step('MMG5_chkmsh', ('bdry',), (), None, (0, 1))

    def ensures(s):
        if not s.sym: return compose(s)
        g = s.ghost
        has = lambda v: Ite(Or(v.isnull(), v.m.isnull()), 0, 1)
        out = []
        for q in ('dom', 'tetra', 'pq', 'mark', 'vert', 'pts', 'bdry'): out.append(('step "%s" done once' % q, Implies(Eq(s.ret, 1), Eq(g[q], 1))))
        out += [('metric packed', Implies(Eq(s.ret, 1), Eq(g['met'], has(s.pre.met)))), ('solution packed', Implies(Eq(s.ret, 1), Eq(g['sol'], has(s.pre.sol))))]
        return out + [('a failure is reported', Implies(Eq(g['fail'], 1), Eq(s.ret, 0))), ('1 or 0', Or(Eq(s.ret, 0), Eq(s.ret, 1)))]

    def requires(s):
        # two distinct solutions
        return [Or(s.pre.met.isnull(), s.pre.sol.isnull(), Not(S.ptr_eq(s.pre.met._p, s.pre.sol._p)))] if s.sym else []

    def compose(s):
        """what the steps add up to"""
        m0, m1 = s.pre.mesh, s.post.mesh
        pt, up = {}, {}
        n = 0
        for k in range(1, m0.np + 1):
            if vok(m0.point[k]): n += 1; pt[k] = n
        out = [('succeeds', s.ret == 1), ('number of points', m1.np == n)]
        if s.ret != 1 or m1.np != n: return out
        for k, r in pt.items():
            out.append(('coordinates and reference of point %d' % k, all(m1.point[r].c[i] == m0.point[k].c[i] for i in range(3)) and m1.point[r].ref == abs(m0.point[k].ref)))
        n = 0
        for k in range(1, m0.ne + 1):
            if not eok(m0.tetra[k]): continue
            n += 1
            out.append(('tetra %d keeps its vertices and reference' % k, all(m1.tetra[n].v[i] == pt[m0.tetra[k].v[i]] for i in range(4)) and m1.tetra[n].ref == m0.tetra[k].ref))
        out.append(('number of tetrahedra', m1.ne == n))
        for f in ('met', 'sol'):
            a, b = getattr(s.pre, f), getattr(s.post, f)
            if a.isnull() or a.m.isnull(): continue
            out.append(('number of values of %s' % f, b.np == m1.np))
            for k, r in pt.items():
                for i in range(a.size): out.append(('value %d of %s at point %d' % (i, f, k), b.m[a.size * r + i] == a.m[a.size * k + i]))
        return out

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib, ne=rng.randint(1, 6), nprism=0, nquad=0)
        w.tria = 0; w.edge = 0; w.nt = 0; w.na = 0; w.ntmax = 0; w.namax = 0; w.ntmax = 0
        w.info.imprim = -1; w.info.ddebug = 0; w.info.nsd = 0; w.info.opnbdy = 0
        ups = [k for k in range(1, w.np + 1)]
        rng.shuffle(ups)
        ups = sorted(ups[:max(4, rng.randint(4, w.np))])
        for k in range(1, w.np + 1):
            w.point[k].tag = rng.choice((0, 0, 2, 16)) if k in ups else NUL
            w.point[k].xp = 0
            w.point[k].ref = rng.randint(-3, 5)
        used_ = []
        for k in range(1, w.ne + 1):
            vs = rng.sample(ups, 4)
            for i in range(4): w.tetra[k].v[i] = vs[i]
            w.tetra[k].xt = 0
            w.tetra[k].mark = 0
            w.tetra[k].ref = rng.randint(0, 3)
            if rng.random() < 0.3: w.tetra[k].v[0] = 0
            else: used_.append(k)
        if not used_:
            for i in range(4): w.tetra[w.ne].v[i] = ups[i]
        n = 4 * w.nemax + 5
        A = mem.alloc(INT, n, 'adja')
        for q in range(n): N.poke(A.addr + 4 * q, INT, 0)
        w.adja = A.addr
        out = {'mesh': m}
        for f in ('sol', 'met'):
            size = rng.choice((1, 6))
            if rng.random() < 0.3: out[f] = 0
            else: out[f], _ = G.sol(rng, mem, lib, np=w.np, size=size, typ={1: 1, 6: 3}[size], nm=f, npmax=w.npmax)
        return out
    return Contract('MMG3D_packMesh', lib, ['mesh', 'sol', 'met'], ensures, requires, None, gen=gen, nullable=('sol', 'met'), ex_setup=setup, timeout=30,
                    opts={'nonnull_fields': {'MMG5_Mesh.point', 'MMG5_Mesh.tetra'}})


def pack_flat(lib):
    """2D and surface packing, evaluated on executions only (labelled bounded): triangulated grids with holes"""
    fn = {'mmg2d': 'MMG2D_pack', 'mmgs': 'MMGS_packMesh'}[lib]
    D = 2 if lib == 'mmg2d' else 3
    SING = {'mmg2d': CRN | REQ | NOM, 'mmgs': 0}[lib]

    def alive(m): return [k for k in range(1, m.nt + 1) if eok(m.tria[k])]

    def ttag(t): return t & ~(NOSURF | REQ) & 0xffff if lib == 'mmg2d' and t & NOSURF else t

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        out = [('succeeds', s.ret == 1)]
        if s.ret != 1: return out
        pt, n = {}, 0
        for k in range(1, m0.np + 1):
            if vok(m0.point[k]): n += 1; pt[k] = n
        out.append(('number of points', m1.np == n))
        if m1.np != n: return out
        for k, r in pt.items():
            a, b = m0.point[k], m1.point[r]
            out.append(('coordinates and reference of point %d' % k, all(a.c[i] == b.c[i] for i in range(D)) and b.ref == (abs(a.ref) if lib == 'mmgs' else a.ref)))
            out.append(('marks of point %d' % k, b.tag == ttag(a.tag)))
            out.append(('numbering cleared', b.tmp == 0))
        el = {k: i + 1 for i, k in enumerate(alive(m0))}
        out.append(('number of triangles', m1.nt == len(el)))
        if m1.nt != len(el): return out
        for k, r in el.items():
            a, b = m0.tria[k], m1.tria[r]
            out.append(('triangle %d kept' % k, b.ref == a.ref and all(b.v[i] == pt[a.v[i]] and b.edg[i] == a.edg[i] and b.tag[i] == ttag(a.tag[i]) for i in range(3))))
            for i in range(3):
                w = m0.adja[3 * (k - 1) + 1 + i]
                out.append(('neighbour of triangle %d' % k, m1.adja[3 * (r - 1) + 1 + i] == (3 * el[w // 3] + w % 3 if w else 0)))
        for f in ('met', 'sol'):
            a, b = getattr(s.pre, f), getattr(s.post, f)
            if a.isnull() or a.m.isnull(): continue
            out.append(('number of values of %s' % f, b.np == m1.np))
            for k, r in pt.items():
                for i in range(a.size): out.append(('value %d of %s at point %d' % (i, f, k), b.m[a.size * r + i] == a.m[a.size * k + i]))
        # edges: every edge that carries data exactly once
        want = {}
        for k in el:
            a = m0.tria[k]
            for i in range(3):
                w = m0.adja[3 * (k - 1) + 1 + i]
                t = ttag(a.tag[i])
                if lib == 'mmgs': on = t & (GEO | REF)
                else: on = not w or m0.tria[w // 3].ref != a.ref or t & SING or m0.info.opnbdy and t & (REF | BDY)
                if on: want[frozenset((pt[a.v[(i + 1) % 3]], pt[a.v[(i + 2) % 3]]))] = (a.edg[i], t)
        got = {}
        for q in range(1, m1.na + 1):
            e = m1.edge[q]
            key = frozenset((e.a, e.b))
            out.append(('edge listed once', key not in got or lib == 'mmg2d' and (want.get(key, (0, 0))[1] & SING or m0.info.opnbdy)))
            got[key] = (e.ref, e.tag)
        out.append(('the edges that carry data are delivered', set(got) == set(want)))
        for key in set(got) & set(want): out.append(('reference and marks of the edge %s' % sorted(key), got[key] == want[key]))
        # the lists of free entities stay inside the arrays
        k, seen = m1.npnil, 0
        while k and seen <= m0.npmax + 1:
            out.append(('free point inside the array', m1.np < k <= m0.npmax))
            if not m1.np < k <= m0.npmax: break
            out.append(('free points are unused', not vok(m1.point[k]) or m1.point[k].tag == 0))
            k = m1.point[k].tmp; seen += 1
        k, seen = m1.nenil, 0
        while k and seen <= m0.ntmax + 1:
            out.append(('free triangle inside the array', m1.nt < k <= m0.ntmax))
            if not m1.nt < k <= m0.ntmax: break
            k = m1.tria[k].v[2]; seen += 1
        return out

    def gen(rng, mem, c):
        nx, ny = rng.randint(1, 2), rng.randint(1, 2)
        holes = rng.randint(0, 3)
        tri = []
        for j in range(ny):
            for i in range(nx):
                a = j * (nx + 1) + i + 1
                b_, cc, d = a + 1, a + nx + 1, a + nx + 2
                tri += [(a, b_, d), (a, d, cc)]
        npu = (nx + 1) * (ny + 1)
        # numbers of the points and triangles in arrays with holes
        np_ = npu + holes
        pn = sorted(rng.sample(range(1, np_ + 1), npu))
        perm = list(pn); rng.shuffle(perm)
        tot = len(tri) + rng.randint(0, 3)
        tn = sorted(rng.sample(range(1, tot + 1), len(tri)))
        rng.shuffle(tn)
        m, w, b = G.mesh(rng, mem, lib, np=np_, nt=tot, ne=0, nprism=0, nquad=0, na=0)
        w.edge = 0; w.na = 0; w.namax = 0; w.quadra = 0; w.nquad = 0; w.ne = 0; w.nprism = 0
        w.info.imprim = -1; w.info.ddebug = 0; w.info.nsd = 0; w.info.opnbdy = rng.choice((0, 0, 1)) if lib == 'mmg2d' else 0
        for k in range(1, w.npmax + 1):
            w.point[k].tag = rng.choice((0, 0, 2, CRN, NOSURF | REQ)) if k in pn else NUL
            if lib == 'mmgs' and k in pn: w.point[k].tag = rng.choice((0, 0, 2, CRN))
            w.point[k].tmp = 0; w.point[k].xp = 0
            w.point[k].ref = rng.randint(-3, 5)
        for k in range(1, w.ntmax + 1):
            for i in range(3): w.tria[k].v[i] = 0
        side = {}
        A = mem.alloc(INT, 3 * w.ntmax + 5, 'adja')
        for q in range(3 * w.ntmax + 5): N.poke(A.addr + 4 * q, INT, 0)
        w.adja = A.addr
        for k, t in zip(tn, tri):
            r = rng.randint(0, 2)
            e = w.tria[k]
            e.ref = rng.randint(0, 1)
            for i in range(3): e.v[i] = perm[t[(i + r) % 3] - 1]
            for i in range(3):
                key = frozenset((e.v[(i + 1) % 3], e.v[(i + 2) % 3]))
                if key in side:
                    k2, i2 = side[key]
                    w.adja[3 * (k - 1) + 1 + i] = 3 * k2 + i2
                    w.adja[3 * (k2 - 1) + 1 + i2] = 3 * k + i
                    e.tag[i] = w.tria[k2].tag[i2]; e.edg[i] = w.tria[k2].edg[i2]
                else:
                    side[key] = (k, i)
                    e.tag[i] = rng.choice((0, 0, 0, GEO, REF, REQ, NOSURF | REQ) if lib == 'mmg2d' else (0, 0, GEO, REF, GEO | REQ))
                    e.edg[i] = rng.randint(0, 4) if e.tag[i] else 0
        out = {'mesh': m}
        for f in ('sol', 'met'):
            size = rng.choice((1, 3 if D == 2 else 6))
            if rng.random() < 0.3: out[f] = 0
            else: out[f], _ = G.sol(rng, mem, lib, np=np_, size=size, typ=1 if size == 1 else 3, nm=f, npmax=w.npmax)
        return out
    c = Contract(fn, lib, ['mesh', 'sol', 'met'], ensures, None, None, gen=gen, nullable=('sol', 'met'), trials=150, sym=False)
    if lib == 'mmgs': c.build = {'static': (fn,)}
    return c


def contracts():
    out = []
    lib = 'mmg3d'
    out += [pack_mesh(lib), mark_points(lib), pack_tetra(lib), pack_tetra_adja(lib, 'tetra'), pack_tetra_adja(lib, 'adja'), pack_pq(lib), pack_points_array(lib), update_vertices(lib)] + [pack_sol(lib, n) for n in (1, 3, 6)]
    out += [pack_flat('mmg2d'), pack_flat('mmgs')]
    return out
