"""C03 entity attributes: setting or unsetting an attribute changes exactly that attribute of exactly the named entities."""
from ..spec import *
from .. import gens as G
from ..gens import INT, DBL
from .c01 import NUL, REQ, CRN, GEO, PAR

LIBS = [('MMG3D', 'mmg3d'), ('MMG2D', 'mmg2d'), ('MMGS', 'mmgs')]
# function suffix -> (array, counter, tag cells, bits set, bits cleared together, libraries, array form, has Unset)
ALL = ('mmg3d', 'mmg2d', 'mmgs')
T3 = ['tag[0]', 'tag[1]', 'tag[2]']
TAB = [
    ('corner', 'point', 'np', ['tag'], CRN, 0, ALL, False, True),
    ('requiredVertex', 'point', 'np', ['tag'], REQ, NUL, ALL, False, True),
    ('requiredTriangle', 'tria', 'nt', T3, REQ, 0, ALL, False, True),
    ('requiredEdge', 'edge', 'na', ['tag'], REQ, 0, ALL, False, True),
    ('ridge', 'edge', 'na', ['tag'], GEO, 0, ('mmg3d', 'mmgs'), False, True),
    ('requiredTetrahedron', 'tetra', 'ne', ['tag'], REQ, 0, ('mmg3d',), False, True),
    ('parallelTriangle', 'tria', 'nt', T3, PAR, 0, ('mmg3d',), False, True),
    ('requiredTetrahedra', 'tetra', 'ne', ['tag'], REQ, 0, ('mmg3d',), True, True),
    ('requiredTriangles', 'tria', 'nt', T3, REQ, 0, ('mmg3d',), True, True),
    ('parallelTriangles', 'tria', 'nt', T3, PAR, 0, ('mmg3d',), True, True),
]


def newtag(t, bits, clear, setter):
    if setter: t = tm.bitor(t, bits)
    else: t = tm.bitand(t, 0xffff & ~bits)
    if setter and clear: t = tm.bitand(t, 0xffff & ~clear)
    return t


def one(P, lib, row, setter):
    nm, arr, cnt, cells, bits, clear, _, _, _ = row

    def requires(s):
        m = s.pre.mesh
        return [tm.le(1, s.pre.k), tm.le(s.pre.k, getattr(m, cnt)), Not(getattr(m, arr).isnull())]

    def ensures(s):
        a, b = getattr(s.pre.mesh, arr)[s.pre.k], getattr(s.post.mesh, arr)[s.pre.k]
        return [('accepted', Eq(s.ret, 1))] + [
            ('%s has exactly the attribute changed' % c, Eq(b.cell(c), newtag(a.cell(c), bits, clear, setter))) for c in cells]

    def assigns(s): return [(getattr(s.pre.mesh, arr), 'tag', s.pre.k, s.pre.k + 1)]

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib, alloc_zero=0)
        return {'mesh': m, 'k': rng.randint(1, getattr(w, cnt))}
    return Contract('%s_%s_%s' % (P, 'Set' if setter else 'Unset', nm), lib, ['mesh', 'k'], ensures, requires, assigns, gen=gen)


def many(P, lib, row, setter):
    nm, arr, cnt, cells, bits, clear, _, _, _ = row

    def requires(s):
        m = s.pre.mesh
        n = getattr(m, cnt)
        return [tm.le(0, s.pre.n), tm.le(0, n), Not(getattr(m, arr).isnull()),
                s.ForAll(0, s.pre.n, lambda k: And(tm.le(1, s.pre.idx[k]), tm.le(s.pre.idx[k], n)))]

    def ensures(s):
        A, B = getattr(s.pre.mesh, arr), getattr(s.post.mesh, arr)
        n = getattr(s.pre.mesh, cnt)
        out = [('accepted', Eq(s.ret, 1))]
        for c in cells:
            out.append(('%s of every listed entity' % c, s.ForAll(0, s.pre.n, lambda k: Eq(B[s.pre.idx[k]].cell(c),
                       newtag(A[s.pre.idx[k]].cell(c), bits, clear, setter)))))
            out.append(('%s of every other entity kept' % c, s.ForAll(1, n + 1, lambda e: Or(Eq(B[e].cell(c), A[e].cell(c)),
                       s.Exists(0, s.pre.n, lambda k: Eq(s.pre.idx[k], e))))))
        return out

    def assigns(s): return [(getattr(s.pre.mesh, arr), 'tag', 1, getattr(s.pre.mesh, cnt) + 1)]

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib, alloc_zero=0)
        n = rng.randint(0, 6)
        ix = mem.alloc(INT, n + 1, 'idx')
        W = N.W(mem.lay, ix.addr, INT)
        for k in range(n + 1): W[k] = rng.randint(1, getattr(w, cnt))
        return {'mesh': m, 'idx': ix, 'n': n}
    return Contract('%s_%s_%s' % (P, 'Set' if setter else 'Unset', nm), lib, ['mesh', 'idx', 'n'], ensures, requires, assigns, gen=gen)


def parallel_edge():
    def requires(s):
        m = s.pre.mesh
        e = m.edge[s.pre.k] if s.sym or 1 <= s.pre.k <= m.na else None
        r = [tm.le(1, s.pre.k), tm.le(s.pre.k, m.na), Not(m.edge.isnull()), Not(m.point.isnull())]
        if e is None: return [False]
        return r + [tm.le(1, e.a), tm.le(e.a, m.np), tm.le(1, e.b), tm.le(e.b, m.np)]

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        e0, e1 = m0.edge[s.pre.k], m1.edge[s.pre.k]

        def pt(p):
            inside = Or(Eq(p, e0.a), Eq(p, e0.b))
            return Eq(m1.point[p].tag, Ite(inside, tm.bitor(m0.point[p].tag, PAR), m0.point[p].tag))
        return [('accepted', Eq(s.ret, 1)), ('edge marked', Eq(e1.tag, tm.bitor(e0.tag, PAR))),
                ('exactly its two vertices marked', s.ForAll(1, m0.np + 1, pt))]

    def assigns(s): return [(s.pre.mesh.edge, 'tag', s.pre.k, s.pre.k + 1), (s.pre.mesh.point, 'tag', 1, s.pre.mesh.np + 1)]

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, 'mmg2d', alloc_zero=0)
        return {'mesh': m, 'k': rng.randint(1, w.na)}
    return Contract('MMG2D_Set_parallelEdge', 'mmg2d', ['mesh', 'k'], ensures, requires, assigns, gen=gen)


def normal(P, lib, setter):
    def requires(s):
        m = s.pre.mesh
        return [tm.le(1, s.pre.k), tm.le(s.pre.k, m.np), Not(m.point.isnull())]

    def ensures(s):
        a, b = s.pre.mesh.point[s.pre.k], s.post.mesh.point[s.pre.k]
        out = [('accepted', Eq(s.ret, 1))]
        for i in range(3):
            c = 'n[%d]' % i
            if setter: out.append(('normal component %d stored' % i, Eq(b.cell(c), getattr(s.pre, 'n%d' % i))))
            else: out.append(('normal component %d returned' % i, Eq(getattr(s.post, 'n%d' % i)[0], a.cell(c))))
        if setter: out.append(('normal counted', Eq(s.post.mesh.nc1, s.pre.mesh.nc1 + 1)))
        return out

    def assigns(s):
        if setter: return [(s.pre.mesh.point, 'n', s.pre.k, s.pre.k + 1), (s.pre.mesh, 'nc1')]
        return [(getattr(s.pre, 'n%d' % i), '*') for i in range(3)]

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib, alloc_zero=0)
        a = {'mesh': m, 'k': rng.randint(1, w.np)}
        for i in range(3): a['n%d' % i] = G.rdouble(rng) if setter else G.out(mem, DBL, 1, 'n%d' % i, rng)
        return a
    return Contract('%s_%s_normalAtVertex' % (P, 'Set' if setter else 'Get'), lib, ['mesh', 'k', 'n0', 'n1', 'n2'], ensures, requires,
                    assigns, gen=gen, sizes={} if setter else {'n%d' % i: 1 for i in range(3)})


def contracts():
    out = []
    for P, lib in LIBS:
        for row in TAB:
            if lib not in row[6]: continue
            f = many if row[7] else one
            out.append(f(P, lib, row, True))
            if row[8]: out.append(f(P, lib, row, False))
        if lib != 'mmg2d': out += [normal(P, lib, True), normal(P, lib, False)]
    out.append(parallel_edge())
    return out
