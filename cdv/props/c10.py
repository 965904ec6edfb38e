"""C10 level-set references: the material map and the references given to the entities on each side of the level-set."""
from fractions import Fraction
from ..spec import *
from ..spec import Contract
from .. import gens as G, loops
from ..gens import INT, DBL

PLUS, MINUS = 2, 3
REF, CRN, REQ, BDY = 1, 32, 4, 16
COMMON = 'mmg3d'


def code(m, ref): return m.info.invmat.lookup[ref - m.info.invmat.offset]
def index(m, ref): return tm.idiv(code(m, ref), 4) - 1
def attrib(m, ref): return tm.imod(code(m, ref), 4)


def inrange(m, ref):
    v = m.info.invmat
    return And(tm.le(v.offset, ref), tm.lt(ref, v.offset + v.size))


def known(s, m, ref):
    """the reference has an entry in the material map"""
    if not s.sym: return inrange(m, ref) and code(m, ref) >= 4 and code(m, ref) // 4 - 1 < m.info.nmat
    c = code(m, ref)
    return And(inrange(m, ref), tm.le(4, c), tm.le(c, 4 * m.info.nmat + 3))


def nomap(m): return Eq(m.info.nmat, 0)


def split(s, m, ref):
    if not s.sym: return m.info.nmat == 0 or m.info.mat[index(m, ref)].dospl != 0
    return Or(nomap(m), Not(Eq(m.info.mat[index(m, ref)].dospl, 0)))


def side(s, m, ref, pos):
    """reference of the part on the positive (negative) side"""
    if not s.sym:
        if m.info.nmat == 0: return PLUS if pos else MINUS
        a = m.info.mat[index(m, ref)]
        return ref if a.dospl == 0 else a.rex if pos else a.rin
    a = m.info.mat[index(m, ref)]
    return Ite(nomap(m), Ite(pos, PLUS, MINUS), Ite(Eq(a.dospl, 0), ref, Ite(pos, a.rex, a.rin)))


def parent(s, m, ref):
    if not s.sym: return 0 if m.info.nmat == 0 else m.info.mat[index(m, ref)].ref
    return Ite(nomap(m), 0, m.info.mat[index(m, ref)].ref)


def req_map(s, m):
    return [tm.le(0, m.info.nmat), Or(nomap(m), Not(m.info.mat.isnull())), Or(nomap(m), Not(m.info.invmat.lookup.isnull()))]


NONNULL = {'nonnull_fields': {'MMG5_Info.mat', 'MMG5_InvMat.lookup', 'MMG5_Mesh.info.mat', 'MMG5_Mesh.info.invmat.lookup', 'MMG5_Mesh.point', 'MMG5_Mesh.tetra',
                              'MMG5_Mesh.tria', 'MMG5_Mesh.edge', 'MMG5_Mesh.xtetra', 'MMG5_Sol.m'}}


def gen_map(rng, mem, w, table=True, empty=0.25):
    """random material map with unique references -> (known references)"""
    lay = mem.lay
    i = w.info
    n = 0 if rng.random() < empty else rng.randint(1, 4)
    pool = list(range(1, 14))
    rng.shuffle(pool)
    b = mem.alloc(TRec('MMG5_Mat'), n + 1, 'mat')
    G.fill(rng, lay, b)
    i.nmat = i.nmati = n
    i.mat = b.addr
    ents = {}
    for k in range(n):
        a = N.W(lay, b.addr + k * lay.sizeof(b.ty), b.ty)
        a.dospl = rng.choice((0, 1, 1))
        a.ref = pool.pop()
        ents[a.ref] = 4 * (k + 1) + a.dospl
        if a.dospl:
            x = rng.random()
            a.rin = a.ref if x < 0.2 else pool.pop()
            a.rex = a.ref if x > 0.8 else pool.pop()
            ents[a.rin] = 4 * (k + 1) + MINUS
            ents[a.rex] = 4 * (k + 1) + PLUS
    if table:
        lo = rng.randint(0, min(list(ents) or [3]))
        hi = max(list(ents) or [3]) + rng.randint(0, 3)
        t = mem.alloc(INT, hi - lo + 1, 'lookup')
        for r in range(lo, hi + 1): N.poke(t.addr + 4 * (r - lo), INT, ents.get(r, 0))
        i.invmat.offset, i.invmat.size = lo, hi - lo + 1
        i.invmat.lookup = t.addr
    return list(ents)


# ---------------------------------------------------------------- queries of the map
def gen_query(lib, outs, unknown=0.0, two=False):
    def gen(rng, mem, c):
        m, w, _ = G.mesh(rng, mem, lib)
        refs = gen_map(rng, mem, w)
        lo, n = w.info.invmat.offset, w.info.invmat.size
        def pick(): return rng.choice(refs) if refs and rng.random() >= unknown else rng.randint(lo, lo + n - 1) if w.info.nmat else rng.choice((0, 2, 3, 5))
        a = {'mesh': m}
        for p in c.params[1:]:
            a[p] = G.out(mem, INT, 1, p, rng) if p in outs else pick()
        return a
    return gen


def is_split(lib):
    def ensures(s):
        m, r = s.pre.mesh, s.pre.ref
        sp = split(s, m, r)
        return [('split iff the map says so', Eq(s.ret, Ite(sp, 1, 0) if s.sym else int(sp))),
                ('reference inside', Eq(s.post.refint[0], Ite(sp, side(s, m, r, False), s.pre.refint[0]) if s.sym else side(s, m, r, False) if sp else s.pre.refint[0])),
                ('reference outside', Eq(s.post.refext[0], Ite(sp, side(s, m, r, True), s.pre.refext[0]) if s.sym else side(s, m, r, True) if sp else s.pre.refext[0]))]
    return Contract('MMG5_isSplit', lib, ['mesh', 'ref', 'refint', 'refext'], ensures, lambda s: req_map(s, s.pre.mesh) + [Or(nomap(s.pre.mesh), known(s, s.pre.mesh, s.pre.ref))],
                    lambda s: [(s.pre.refint, '*', 0, 1), (s.pre.refext, '*', 0, 1)], sizes={'refint': 1, 'refext': 1}, gen=gen_query(lib, ('refint', 'refext')), opts=NONNULL)


def start_ref(lib):
    def ensures(s):
        m, r = s.pre.mesh, s.pre.ref
        if s.sym:
            k = Or(nomap(m), known(s, m, r))
            return [('found iff it is in the map', Eq(s.ret, Ite(k, 1, 0))), ('parent reference', Implies(k, Eq(s.post.pref[0], parent(s, m, r)))),
                    ('nothing stored when it is not found', Implies(Not(k), Eq(s.post.pref[0], s.pre.pref[0])))]
        k = m.info.nmat == 0 or known(s, m, r)
        return [('found iff it is in the map', s.ret == int(k)), ('parent reference', s.post.pref[0] == (parent(s, m, r) if k else s.pre.pref[0]))]

    def requires(s):
        m, r = s.pre.mesh, s.pre.ref
        return req_map(s, m) + [Or(nomap(m), And(inrange(m, r), Or(Eq(code(m, r), 0), known(s, m, r)))) if s.sym else True]
    return Contract('MMG5_getStartRef', lib, ['mesh', 'ref', 'pref'], ensures, requires, lambda s: [(s.pre.pref, '*', 0, 1)], sizes={'pref': 1},
                    gen=gen_query(lib, ('pref',), 0.3), opts=NONNULL)


def is_level(lib):
    def ensures(s):
        m, a, b = s.pre.mesh, s.pre.ref0, s.pre.ref1
        def opposite(f, g): return Or(And(Eq(f, MINUS), Eq(g, PLUS)), And(Eq(f, PLUS), Eq(g, MINUS)))
        if s.sym: q = Ite(nomap(m), Ite(opposite(a, b), 1, 0), Ite(opposite(attrib(m, a), attrib(m, b)), 1, 0))
        else: q = int(opposite(a, b) if m.info.nmat == 0 else opposite(attrib(m, a), attrib(m, b)))
        return [('on the level-set iff the references are those of opposite sides', Eq(s.ret, q))]

    def requires(s):
        m = s.pre.mesh
        return req_map(s, m) + [Or(nomap(m), And(*[And(inrange(m, r), tm.le(0, code(m, r))) for r in (s.pre.ref0, s.pre.ref1)])) if s.sym else True]
    return Contract('MMG5_isLevelSet', lib, ['mesh', 'ref0', 'ref1'], ensures, requires, lambda s: [], gen=gen_query(lib, (), 0.3), opts=NONNULL)


def is_not_split(lib):
    def ensures(s):
        m, r = s.pre.mesh, s.pre.ref
        none = nomap(m)
        q = Ite(split(s, m, r), 0, 1) if s.sym else int(not split(s, m, r))
        return [('everything is split without a map', Implies(none, Eq(s.ret, 0))), ('answers 0 or 1', Or(Eq(s.ret, 0), Eq(s.ret, 1))),
                ('1 iff the map preserves the material', Implies(Not(none), Eq(s.ret, q)))]
    return Contract('MMG5_isNotSplit', lib, ['mesh', 'ref'], ensures, lambda s: req_map(s, s.pre.mesh) + [Or(nomap(s.pre.mesh), known(s, s.pre.mesh, s.pre.ref))],
                    lambda s: [], gen=gen_query(lib, ()), opts=NONNULL)


# ---------------------------------------------------------------- construction of the map
def refs_of(a): return (a.ref, a.rin, a.rex)


def uses(a, r): return Or(Eq(a.ref, r), And(Not(Eq(a.dospl, 0)), Or(Eq(a.rin, r), Eq(a.rex, r))))


def init_map(lib):
    ENT = [('ne', 'tetra'), ('nt', 'tria'), ('na', 'edge')]

    def requires(s):
        m = s.pre.mesh
        i = m.info
        out = [tm.le(0, i.nmat)] + [tm.le(0, getattr(m, n)) for n, _ in ENT]
        out.append(s.ForAll(0, i.nmat, lambda k: And(tm.le(0, i.mat[k].dospl), tm.le(i.mat[k].dospl, 1), Implies(Not(Eq(i.mat[k].dospl, 0)), Not(Eq(i.mat[k].rin, i.mat[k].rex))))))
        # no reference belongs to two materials
        def disjoint(j, k):
            a, b = i.mat[j], i.mat[k]
            return Implies(Not(Eq(j, k)), And(Not(uses(b, a.ref)), Implies(Not(Eq(a.dospl, 0)), And(Not(uses(b, a.rin)), Not(uses(b, a.rex))))))
        out.append(s.ForAll(0, i.nmat, lambda j: s.ForAll(0, i.nmat, lambda k: disjoint(j, k))))
        big = 1 << 31
        out.append(s.ForAll(0, i.nmat, lambda k: And(*[And(tm.le(-big, r), tm.lt(r, big)) for r in refs_of(i.mat[k])])))
        for n, a in ENT: out.append(s.ForAll(1, getattr(m, n) + 1, lambda k: And(tm.le(-big, getattr(m, a)[k].ref), tm.lt(getattr(m, a)[k].ref, big))))
        return out

    def entry(mats, look, off, k):
        """the entries of material k"""
        a = mats[k]
        at = lambda r: look[r - off]
        c = 4 * (k + 1)
        sp = Not(Eq(a.dospl, 0))
        return And(Implies(Not(sp), Eq(at(a.ref), c)),
                   Implies(sp, And(Eq(at(a.rin), c + MINUS), Eq(at(a.rex), c + PLUS), Or(Eq(a.ref, a.rin), Eq(a.ref, a.rex), Eq(at(a.ref), c + 1)))))

    def inb(v, a, k, lo, hi):
        return And(tm.le(lo, a[k].ref), tm.le(a[k].ref, hi))

    def matin(i, k, lo, hi):
        a = i.mat[k]
        return And(tm.le(lo, a.ref), tm.le(a.ref, hi), Implies(Not(Eq(a.dospl, 0)), And(*[And(tm.le(lo, r), tm.le(r, hi)) for r in (a.rin, a.rex)])))

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        i0, i1 = m0.info, m1.info
        v = i1.invmat
        none = Eq(i0.nmat, 0)
        if not s.sym:
            if i0.nmat == 0: return [('accepted', s.ret == 1)]
            if not s.ret: return [('refused only when materials are missing', i0.nmati < i0.nmat)]
        done = And(Eq(s.ret, 1), Not(none))
        out = [('accepted without materials', Implies(none, Eq(s.ret, 1))), ('refused when materials are missing', Implies(And(Not(none), tm.lt(i0.nmati, i0.nmat)), Eq(s.ret, 0)))]
        last = lambda r: And(tm.le(v.offset, r), tm.lt(r, v.offset + v.size))
        out.append(('every material is in the table', Implies(done, s.ForAll(0, i0.nmat, lambda k: matin(i0, k, v.offset, v.offset + v.size - 1)))))
        out.append(('the entries of every material', Implies(done, s.ForAll(0, i0.nmat, lambda k: entry(i0.mat, v.lookup, v.offset, k)))))
        for n, a in ENT:
            out.append(('the references of %s are in the table' % a, Implies(done, s.ForAll(1, getattr(m0, n) + 1, lambda k: last(getattr(m0, a)[k].ref)))))
        out.append(('no other entry', Implies(done, s.ForAll(0, v.size, lambda j: Or(Eq(v.lookup[j], 0), s.Exists(0, i0.nmat, lambda k: uses(i0.mat[k], j + v.offset)))))))
        return out

    def setup(x, st, s):
        m = s.pre.mesh
        i = m.info

        def bounds(L, k, upto):
            """upto: number of the scans finished before this one"""
            lo, hi = L.var('refmin'), L.var('refmax')
            c = L.ctx
            out = [('ordered', And(tm.le(0, hi), tm.le(lo, (1 << 31) - 1)))]
            out.append(('materials', c.ForAll(0, k if upto == 0 else i.nmat, lambda j: matin(i, j, lo, hi))))
            for q, (n, a) in enumerate(ENT):
                if upto > q:
                    out.append((a, c.ForAll(1, k if upto == q + 1 else getattr(m, n) + 1, lambda j: inb(None, getattr(m, a), j, lo, hi))))
            return out
        seen = []

        def stage(L):
            key = id(L.entry)
            if key not in seen: seen.append(key)
            return seen.index(key)
        keep = []

        def inv(L):
            keep.append(L.entry)
            q = stage(L)
            k = L.var('k')
            n = i.nmat if q == 0 else getattr(m, ENT[q - 1][0])
            return [('counter', And(tm.le(0 if q == 0 else 1, k), tm.le(k, n + (0 if q == 0 else 1))))] + bounds(L, k, q)

        def measure(L):
            q = stage(L)
            return (i.nmat if q == 0 else getattr(m, ENT[q - 1][0]) + 1) - L.var('k')

        def fill(L):
            mm = S.View(x, L.st, s.pre.mesh._p)
            v = mm.info.invmat
            c = L.ctx
            k = L.var('k')
            return [('counter', And(tm.le(0, k), tm.le(k, i.nmat))), ('entries', c.ForAll(0, k, lambda j: entry(i.mat, v.lookup, v.offset, j))),
                    ('no other', c.ForAll(0, v.size, lambda j: Or(Eq(v.lookup[j], 0), c.Exists(0, k, lambda q: uses(i.mat[q], j + v.offset)))))]
        loops.use_invariants(x, [(lambda x, names, cells: {'refmin', 'refmax', 'k'} <= names, inv, measure),
                                 (lambda x, names, cells: 'k' in names and bool(cells), fill, lambda L: i.nmat - L.var('k'))])

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        for q in ('tetra', 'tria', 'edge'):
            if q in b:
                for k in range(b[q].count): N.W(mem.lay, b[q].addr + k * mem.lay.sizeof(b[q].ty), b[q].ty).ref = rng.randint(-3, 25)
        gen_map(rng, mem, w, False)
        if rng.random() < 0.2 and w.info.nmat: w.info.nmati -= 1
        w.info.invmat.lookup = 0
        return {'mesh': m}
    return Contract('MMG5_MultiMat_init', lib, ['mesh'], ensures, requires, lambda s: [(s.pre.mesh, ['info.invmat.offset', 'info.invmat.size', 'info.invmat.lookup', 'memCur'])],
                    gen=gen, ex_setup=setup, opts=NONNULL, timeout=40)


# ---------------------------------------------------------------- references given by the level-set
def eok(p): return tm.lt(0, p.v[0])


def signs(s, sol, vs, shift=0):
    z = Fraction(0) if s.sym else 0.
    vals = [sol.m[v] for v in vs]
    return Or(*[tm.lt(z, v) for v in vals]), Or(*[tm.lt(v, z) for v in vals]), And(*[Eq(v, z) for v in vals])


def req_elts(s, m, sol, arr, cnt, nv, cut=None):
    """vertices are vertices; the map knows the reference; no element is crossed by the level-set or lies on it"""
    A = getattr(m, arr)
    def one(k):
        e = A[k]
        pos, neg, zero = signs(s, sol, [e.v[i] for i in range(nv)])
        return And(*[And(tm.le(1, e.v[i]), tm.le(e.v[i], m.np)) for i in range(nv)], Or(nomap(m), known(s, m, e.ref)), Not(zero),
                   Implies(split(s, m, e.ref), Not(And(pos, neg))) if s.sym else not (split(s, m, e.ref) and pos and neg))
    return [tm.le(0, getattr(m, cnt)), tm.le(0, m.np), s.ForAll(1, getattr(m, cnt) + 1, lambda k: s.If(eok(A[k]), lambda: one(k)))]


def setref3(lib):
    def ensures(s):
        m0, m1, sol = s.pre.mesh, s.post.mesh, s.pre.sol
        def f(k):
            e = m0.tetra[k]
            pos, neg, zero = signs(s, sol, [e.v[i] for i in range(4)])
            return Eq(m1.tetra[k].ref, Ite(pos, side(s, m0, e.ref, True), side(s, m0, e.ref, False)) if s.sym else side(s, m0, e.ref, bool(pos)))
        return [('reference of each side', s.ForAll(1, m0.ne + 1, lambda k: s.If(eok(m0.tetra[k]), lambda: f(k)))),
                ('unused elements untouched', s.ForAll(1, m0.ne + 1, lambda k: s.If(Not(eok(m0.tetra[k])), lambda: Eq(m1.tetra[k].ref, m0.tetra[k].ref)))), ('succeeds', Eq(s.ret, 1))]
    return Contract('MMG3D_setref_ls', lib, ['mesh', 'sol'], ensures, lambda s: req_map(s, s.pre.mesh) + req_elts(s, s.pre.mesh, s.pre.sol, 'tetra', 'ne', 4),
                    lambda s: [(s.pre.mesh.tetra, ['ref'], 1, s.pre.mesh.ne + 1)], gen=gen_ls(lib, 'tetra', 'ne', 4), opts=NONNULL)


def setref2(lib):
    def on(s, m, sol, e, i):
        """edge i lies on the level-set and the third vertex does not"""
        z = Fraction(0) if s.sym else 0.
        return And(Eq(sol.m[e.v[(i + 1) % 3]], z), Eq(sol.m[e.v[(i + 2) % 3]], z))

    def ensures(s):
        m0, m1, sol = s.pre.mesh, s.post.mesh, s.pre.sol
        iso2 = Eq(m0.info.iso, 2)
        def f(k):
            e = m0.tria[k]
            pos, neg, zero = signs(s, sol, [e.v[i] for i in range(3)])
            if s.sym: r = Ite(iso2, e.ref, Ite(pos, side(s, m0, e.ref, True), side(s, m0, e.ref, False)))
            else: r = e.ref if m0.info.iso == 2 else side(s, m0, e.ref, bool(pos))
            return Eq(m1.tria[k].ref, r)
        every = lambda g: s.ForAll(1, m0.nt + 1, lambda k: s.If(eok(m0.tria[k]), lambda: g(k, m0.tria[k], m1.tria[k])))
        out = [('reference of each side', s.ForAll(1, m0.nt + 1, lambda k: s.If(eok(m0.tria[k]), lambda: f(k)))), ('succeeds', Eq(s.ret, 1))]
        for i in range(3):
            out.append(('edge %d on the level-set gets its reference' % i, every(lambda k, a, b: Eq(b.edg[i], Ite(on(s, m0, sol, a, i), m0.info.isoref, a.edg[i]) if s.sym else
                                                                                                 m0.info.isoref if on(s, m0, sol, a, i) else a.edg[i]))))
            out.append(('edge %d on the level-set is marked, the others keep their tag' % i, every(lambda k, a, b: Eq(b.tag[i], Ite(on(s, m0, sol, a, i), tm.bitor(a.tag[i], REF), a.tag[i]) if s.sym else
                                                                                                 a.tag[i] | REF if on(s, m0, sol, a, i) else a.tag[i]))))
            for q in (1, 2):
                out.append(('vertex %d of an edge on the level-set' % ((i + q) % 3), every(lambda k, a, b: Implies(on(s, m0, sol, a, i), Eq(m1.point[a.v[(i + q) % 3]].ref, m0.info.isoref)))))
        z = Fraction(0) if s.sym else 0.
        out.append(('only vertices on the level-set get its reference', s.ForAll(1, m0.np + 1, lambda p: Or(Eq(m1.point[p].ref, m0.point[p].ref), And(Eq(sol.m[p], z), Eq(m1.point[p].ref, m0.info.isoref))))))
        return out
    def setup(x, st, s):
        m0, sol = s.pre.mesh, s.pre.sol

        def inv(L):
            c, k = L.ctx, L.var('k')
            q = S.View(x, L.st, s.pre.mesh._p)
            iso2, isoref = Eq(m0.info.iso, 2), m0.info.isoref
            def el(g):
                return c.ForAll(1, m0.nt + 1, lambda j: g(j, And(eok(m0.tria[j]), tm.lt(j, k)), m0.tria[j], q.tria[j]))
            def ref(j, d, a, b):
                pos, neg, zero = signs(s, sol, [a.v[i] for i in range(3)])
                return Eq(b.ref, Ite(And(d, Not(iso2)), Ite(pos, side(s, m0, a.ref, True), side(s, m0, a.ref, False)), a.ref))
            out = [('counter', And(tm.le(1, k), tm.le(k, m0.nt + 1))), ('references', el(ref))]
            for i in range(3):
                out.append(('edge %d' % i, el(lambda j, d, a, b: Eq(b.edg[i], Ite(And(d, on(s, m0, sol, a, i)), isoref, a.edg[i])))))
                out.append(('tag %d' % i, el(lambda j, d, a, b: Eq(b.tag[i], Ite(And(d, on(s, m0, sol, a, i)), tm.bitor(a.tag[i], REF), a.tag[i])))))
                for w in (1, 2):
                    out.append(('vertex %d of edge %d' % (w, i), el(lambda j, d, a, b: Implies(And(d, on(s, m0, sol, a, i)), Eq(q.point[a.v[(i + w) % 3]].ref, isoref)))))
            out.append(('points', c.ForAll(1, m0.np + 1, lambda p: Or(Eq(q.point[p].ref, m0.point[p].ref), And(Eq(sol.m[p], Fraction(0)), Eq(q.point[p].ref, isoref))))))
            out += frame(c, q, m0, 'tria', 'nt', ['ref'] + ['%s[%d]' % (f, i) for f in ('edg', 'tag') for i in range(3)], ['ref'])
            return out
        loops.use_invariants(x, [(lambda x, names, cells: 'k' in names, inv, lambda L: m0.nt + 1 - L.var('k'))])
    return Contract('MMG5_setref_ls', lib, ['mesh', 'sol'], ensures, lambda s: req_map(s, s.pre.mesh) + req_elts(s, s.pre.mesh, s.pre.sol, 'tria', 'nt', 3),
                    lambda s: [(s.pre.mesh.tria, ['ref', 'edg', 'tag'], 1, s.pre.mesh.nt + 1), (s.pre.mesh.point, ['ref'], 1, s.pre.mesh.np + 1)],
                    gen=gen_ls(lib, 'tria', 'nt', 3), ex_setup=setup, opts=NONNULL, timeout=40)


def field(v, f):
    a, _, i = f.partition('[')
    v = getattr(v, a)
    return v[int(i[:-1])] if i else v


def frame(c, q, m0, arr, cnt, fa, fp):
    """a loop over the elements leaves the fields fa of the slots that are not elements, fp of those that are not points"""
    A0, A1 = getattr(m0, arr), getattr(q, arr)
    out = [('other elements', c.Outside(1, getattr(m0, cnt) + 1, lambda j: And(*[Eq(field(A1[j], f), field(A0[j], f)) for f in fa]))),
            ('other points', c.Outside(1, m0.np + 1, lambda j: And(*[Eq(field(q.point[j], f), field(m0.point[j], f)) for f in fp])))]
    return out if fp else out[:1]


def reset(lib, fn, arr, cnt, nv):
    tet = arr == 'tetra'
    used = (lambda e: tm.lt(0, e.v[0])) if tet else (lambda e: Not(Eq(e.v[0], 0)))

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        A0, A1 = getattr(m0, arr), getattr(m1, arr)
        iso = m0.info.isoref
        every = lambda g: s.ForAll(1, getattr(m0, cnt) + 1, lambda k: s.If(used(A0[k]), lambda: g(k, A0[k], A1[k])))
        allk = Or(nomap(m0), s.ForAll(1, getattr(m0, cnt) + 1, lambda k: Implies(used(A0[k]), known(s, m0, A0[k].ref)))) if s.sym else \
            m0.info.nmat == 0 or s.ForAll(1, getattr(m0, cnt) + 1, lambda k: not used(A0[k]) or known(s, m0, A0[k].ref))
        out = [('accepted only with a map of every reference', Implies(Not(Eq(s.ret, 0)), allk)), ('refused iff a reference is not in the map', Or(Eq(s.ret, 1), Eq(s.ret, 0)))]
        if not s.sym and not s.ret: return out
        ok = Not(Eq(s.ret, 0))
        out.append(('initial reference', Implies(ok, every(lambda k, a, b: Eq(b.ref, parent(s, m0, a.ref))))))
        for i in range(nv):
            out.append(('vertex %d forgets the level-set' % i, Implies(ok, every(lambda k, a, b: Eq(m1.point[a.v[i]].ref, Ite(Eq(m0.point[a.v[i]].ref, iso), 0, m0.point[a.v[i]].ref) if s.sym else
                                                                                                   0 if m0.point[a.v[i]].ref == iso else m0.point[a.v[i]].ref)))))
            if not tet:
                out.append(('edge %d forgets the level-set' % i, Implies(ok, every(lambda k, a, b: Eq(b.edg[i], Ite(Eq(a.edg[i], iso), 0, a.edg[i]) if s.sym else 0 if a.edg[i] == iso else a.edg[i])))))
        out.append(('other references kept', s.ForAll(1, m0.np + 1, lambda p: Or(Eq(m1.point[p].ref, m0.point[p].ref), And(Eq(m0.point[p].ref, iso), Eq(m1.point[p].ref, 0))))))
        if tet:
            out.append(('tags of the other vertices kept', s.ForAll(1, m0.np + 1, lambda p: Or(Eq(m1.point[p].tag, m0.point[p].tag), And(Eq(m0.point[p].ref, iso), Eq(m1.point[p].tag, tm.bitand(m0.point[p].tag, 0xffff - CRN - REQ)))))))
        return out

    def requires(s):
        m = s.pre.mesh
        A = getattr(m, arr)
        def one(k):
            e = A[k]
            return And(*[And(tm.le(1, e.v[i]), tm.le(e.v[i], m.np)) for i in range(nv)], Or(nomap(m), And(inrange(m, e.ref), Or(Eq(code(m, e.ref), 0), known(s, m, e.ref)))) if s.sym else True)
        return req_map(s, m) + [tm.le(0, getattr(m, cnt)), tm.le(0, m.np), s.ForAll(1, getattr(m, cnt) + 1, lambda k: s.If(used(A[k]), lambda: one(k)))]
    def setup(x, st, s):
        m0 = s.pre.mesh
        n = getattr(m0, cnt)
        A0 = getattr(m0, arr)
        iso = m0.info.isoref
        mask = 0xffff - CRN - REQ
        fa, fp = ['ref'] + ([] if tet else ['edg[%d]' % i for i in range(3)]), ['ref'] + (['tag'] if tet else [])

        def points(c, q, k):
            A1 = getattr(q, arr)
            hit = lambda p: Eq(m0.point[p].ref, iso)
            out = []
            def one(p):
                kept = And(*[Eq(getattr(q.point[p], f), getattr(m0.point[p], f)) for f in fp])
                done = And(hit(p), Eq(q.point[p].ref, 0), *([Eq(q.point[p].tag, tm.bitand(m0.point[p].tag, mask))] if tet else []))
                return Or(kept, done)
            out.append(('points', c.ForAll(1, m0.np + 1, one)))
            for i in range(nv):
                out.append(('vertex %d' % i, c.ForAll(1, n + 1, lambda j: Implies(And(used(A0[j]), tm.lt(j, k), hit(A0[j].v[i])), Eq(q.point[A0[j].v[i]].ref, 0)))))
                if not tet:
                    out.append(('edge %d' % i, c.ForAll(1, n + 1, lambda j: Eq(A1[j].edg[i], Ite(And(used(A0[j]), tm.lt(j, k), Eq(A0[j].edg[i], iso)), 0, A0[j].edg[i])))))
            return out + frame(c, q, m0, arr, cnt, fa, fp)

        def inv1(L):
            c, k, q = L.ctx, L.var('k'), S.View(x, L.st, s.pre.mesh._p)
            return [('counter', And(tm.le(1, k), tm.le(k, n + 1)))] + points(c, q, k)

        def inv2(L):
            c, k, q = L.ctx, L.var('k'), S.View(x, L.st, s.pre.mesh._p)
            A1 = getattr(q, arr)
            out = [('counter', And(tm.le(1, k), tm.le(k, n + 1)))] + points(c, q, n + 1)
            out.append(('initial references', c.ForAll(1, n + 1, lambda j: Eq(A1[j].ref, Ite(And(used(A0[j]), tm.lt(j, k)), parent(s, m0, A0[j].ref), A0[j].ref)))))
            out.append(('references of the map', Or(nomap(m0), c.ForAll(1, k, lambda j: Implies(used(A0[j]), known(s, m0, A0[j].ref))))))
            return out
        pb = s.pre.mesh.point._p.base
        loops.use_invariants(x, [(lambda x, names, cells: 'k' in names and (pb, 'ref') in cells, inv1, lambda L: n + 1 - L.var('k')),
                                 (lambda x, names, cells: 'k' in names, inv2, lambda L: n + 1 - L.var('k'))])
    return Contract(fn, lib, ['mesh'], ensures, requires, lambda s: [(getattr(s.pre.mesh, arr), ['ref'] + ([] if tet else ['edg']), 1, getattr(s.pre.mesh, cnt) + 1),
                                                                    (s.pre.mesh.point, ['ref'] + (['tag'] if tet else []), 1, s.pre.mesh.np + 1)],
                    gen=gen_ls(lib, arr, cnt, nv, True), ex_setup=setup, opts=NONNULL, timeout=40)


# ---------------------------------------------------------------- level-set on the surface only
EPSD = Fraction(1e-30)
IDIR = [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)]
IARE = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
IARF = [(5, 4, 3), (5, 1, 2), (4, 2, 0), (3, 0, 1)]
FACES_OF = [[f for f in range(4) if e in IARF[f]] for e in range(6)]


def own_xt(s, m):
    """every used tetrahedron has its own extra record"""
    if not s.sym:
        l = [m.tetra[k].xt for k in range(1, m.ne + 1) if m.tetra[k].v[0] > 0 and m.tetra[k].xt]
        return [len(l) == len(set(l))]
    own = lambda r: tm.app('xt_owner!', 'I', r)
    return [s.ForAll(1, m.ne + 1, lambda k: Implies(hasxt(m.tetra[k]), And(tm.lt(0, m.tetra[k].xt), tm.le(m.tetra[k].xt, m.xtmax), Eq(own(m.tetra[k].xt), k))))]


def hasxt(e): return And(tm.lt(0, e.v[0]), Not(Eq(e.xt, 0)))


def zeroed(s, sol, v):
    x = sol.m[v]
    return And(tm.lt(-EPSD, x), tm.lt(x, EPSD)) if s.sym else abs(x) < 1e-30


def setref3s(lib):
    def face(s, sol, e, f): return signs(s, sol, [e.v[i] for i in IDIR[f]])
    def bdy(x, f): return bit(x.ftag[f], BDY)

    def refgoal(s, m0, sol, e, x, f):
        pos, neg, zero = face(s, sol, e, f)
        if s.sym: return Ite(bdy(x, f), Ite(pos, side(s, m0, x.ref[f], True), side(s, m0, x.ref[f], False)), x.ref[f])
        return side(s, m0, x.ref[f], bool(pos)) if bdy(x, f) else x.ref[f]

    def on(s, sol, e, x, ia):
        return And(Or(*[bdy(x, f) for f in FACES_OF[ia]]), zeroed(s, sol, e.v[IARE[ia][0]]), zeroed(s, sol, e.v[IARE[ia][1]]))

    def vert(s, sol, e, x, i):
        """vertex i lies on a boundary face and on the level-set"""
        return And(Or(*[bdy(x, f) for f in range(4) if i in IDIR[f]]), zeroed(s, sol, e.v[i]))

    def ensures(s):
        m0, m1, sol = s.pre.mesh, s.post.mesh, s.pre.sol
        iso = m0.info.isoref
        every = lambda g: s.ForAll(1, m0.ne + 1, lambda k: s.If(hasxt(m0.tetra[k]), lambda: g(m0.tetra[k], m0.xtetra[m0.tetra[k].xt], m1.xtetra[m0.tetra[k].xt])))
        # a face whose three vertices lie on the level-set
        bad = s.Exists(1, m0.ne + 1, lambda k: And(hasxt(m0.tetra[k]), Or(*[And(bdy(m0.xtetra[m0.tetra[k].xt], f), face(s, sol, m0.tetra[k], f)[2]) for f in range(4)])))
        out = [('refused iff a boundary face lies on the level-set', Eq(s.ret, Ite(bad, 0, 1)))]
        ok = Not(Eq(s.ret, 0))
        if not s.sym and not ok: return out
        for f in range(4): out.append(('reference of face %d' % f, Implies(ok, every(lambda e, a, b: Eq(b.ref[f], refgoal(s, m0, sol, e, a, f))))))
        for ia in range(6):
            out.append(('edge %d on the level-set gets its reference' % ia, Implies(ok, every(lambda e, a, b: Eq(b.edg[ia], Ite(on(s, sol, e, a, ia), iso, a.edg[ia]))))))
            out.append(('edge %d on the level-set is marked' % ia, Implies(ok, every(lambda e, a, b: Eq(b.tag[ia], Ite(on(s, sol, e, a, ia), tm.bitor(a.tag[ia], REF) if s.sym else a.tag[ia] | REF, a.tag[ia]))))))
        for i in range(4):
            out.append(('boundary vertex %d on the level-set gets its reference' % i, Implies(ok, every(lambda e, a, b: Implies(vert(s, sol, e, a, i), Eq(m1.point[e.v[i]].ref, iso))))))
        out.append(('only vertices on the level-set get its reference', s.ForAll(1, m0.np + 1, lambda p: Or(Eq(m1.point[p].ref, m0.point[p].ref), And(zeroed(s, sol, p), Eq(m1.point[p].ref, iso))))))
        return out

    def requires(s):
        m, sol = s.pre.mesh, s.pre.sol
        def one(k):
            e = m.tetra[k]
            x = m.xtetra[e.xt]
            def fc(f):
                pos, neg, zero = face(s, sol, e, f)
                if not s.sym: return not bdy(x, f) or ((m.info.nmat == 0 or known(s, m, x.ref[f])) and not (split(s, m, x.ref[f]) and pos and neg))
                return Implies(bdy(x, f), And(Or(nomap(m), known(s, m, x.ref[f])), Implies(split(s, m, x.ref[f]), Not(And(pos, neg)))))
            return And(*[And(tm.le(1, e.v[i]), tm.le(e.v[i], m.np)) for i in range(4)], *[fc(f) for f in range(4)])
        return req_map(s, m) + own_xt(s, m) + [tm.le(0, m.ne), tm.le(0, m.np), s.ForAll(1, m.ne + 1, lambda k: s.If(hasxt(m.tetra[k]), lambda: one(k)))]

    def setup(x, st, s):
        m0, sol = s.pre.mesh, s.pre.sol
        iso = m0.info.isoref
        own = lambda r: tm.app('xt_owner!', 'I', r)

        def inv(L):
            c, k, q = L.ctx, L.var('k'), S.View(x, L.st, s.pre.mesh._p)
            rec = lambda j: (m0.tetra[j], m0.xtetra[m0.tetra[j].xt], q.xtetra[m0.tetra[j].xt])
            def done(g, keep):
                """the records of the elements before k hold g, the other records what they held"""
                return c.ForAll(1, k, lambda j: Implies(hasxt(m0.tetra[j]), g(*rec(j)))), \
                    c.ForAll(0, m0.xtmax + 1, lambda r: Implies(Not(And(tm.le(1, own(r)), tm.lt(own(r), k), hasxt(m0.tetra[own(r)]), Eq(m0.tetra[own(r)].xt, r))), keep(m0.xtetra[r], q.xtetra[r])))
            out = [('counter', And(tm.le(1, k), tm.le(k, m0.ne + 1)))]
            def add(nm, g, keep):
                a, b = done(g, keep)
                out.append((nm, a))
                out.append((nm + ' (others)', b))
            for f in range(4): add('face %d' % f, lambda e, a, b: Eq(b.ref[f], refgoal(s, m0, sol, e, a, f)), lambda a, b: Eq(b.ref[f], a.ref[f]))
            for ia in range(6):
                add('edge %d' % ia, lambda e, a, b: Eq(b.edg[ia], Ite(on(s, sol, e, a, ia), iso, a.edg[ia])), lambda a, b: Eq(b.edg[ia], a.edg[ia]))
                add('tag %d' % ia, lambda e, a, b: Eq(b.tag[ia], Ite(on(s, sol, e, a, ia), tm.bitor(a.tag[ia], REF), a.tag[ia])), lambda a, b: Eq(b.tag[ia], a.tag[ia]))
            for i in range(4): out.append(('vertex %d' % i, c.ForAll(1, k, lambda j: Implies(hasxt(m0.tetra[j]), Implies(vert(s, sol, m0.tetra[j], m0.xtetra[m0.tetra[j].xt], i), Eq(q.point[m0.tetra[j].v[i]].ref, iso))))))
            out.append(('no face on the level-set', c.ForAll(1, k, lambda j: Implies(hasxt(m0.tetra[j]), And(*[Not(And(bdy(m0.xtetra[m0.tetra[j].xt], f), face(s, sol, m0.tetra[j], f)[2])) for f in range(4)])))))
            out.append(('points', c.ForAll(1, m0.np + 1, lambda p: Or(Eq(q.point[p].ref, m0.point[p].ref), And(zeroed(s, sol, p), Eq(q.point[p].ref, iso))))))
            fs = ['ref[%d]' % f for f in range(4)] + ['%s[%d]' % (n, i) for n in ('edg', 'tag') for i in range(6)]
            out.append(('other records', c.Outside(0, m0.xtmax + 1, lambda r: And(*[Eq(field(q.xtetra[r], f), field(m0.xtetra[r], f)) for f in fs]))))
            out.append(('other points', c.Outside(1, m0.np + 1, lambda p: Eq(q.point[p].ref, m0.point[p].ref))))
            return out
        loops.use_invariants(x, [(lambda x, names, cells: 'k' in names, inv, lambda L: m0.ne + 1 - L.var('k'))])
    return Contract('MMG3D_setref_lssurf', lib, ['mesh', 'sol'], ensures, requires,
                    lambda s: [(s.pre.mesh.xtetra, ['ref', 'edg', 'tag'], 0, s.pre.mesh.xtmax + 1), (s.pre.mesh.point, ['ref'], 1, s.pre.mesh.np + 1)],
                    gen=gen_lss(lib), ex_setup=setup, opts=NONNULL, timeout=40)


def lssurf2(lib, fn):
    """MMG5_setref_lssurf, MMG5_resetRef_lssurf: references of the marked edges of the triangles and of the points"""
    setting = fn == 'MMG5_setref_lssurf'
    used = (lambda e: tm.lt(0, e.v[0])) if setting else (lambda e: Not(Eq(e.v[0], 0)))

    def zero(s): return Fraction(0) if s.sym else 0.

    def edge(s, sol, e, i): return signs(s, sol, [e.v[(i + 1) % 3], e.v[(i + 2) % 3]])

    def newref(s, m0, e, i):
        r = e.edg[i]
        if not setting: return Ite(bit(e.tag[i], REF), parent(s, m0, r), r) if s.sym else parent(s, m0, r) if bit(e.tag[i], REF) else r
        pos = edge(s, s.pre.sol, e, i)[0]
        if not s.sym: return side(s, m0, r, bool(pos)) if bit(e.tag[i], REF) else r
        return Ite(bit(e.tag[i], REF), Ite(pos, side(s, m0, r, True), side(s, m0, r, False)), r)

    def kn(s, m, e): return And(*[Implies(bit(e.tag[i], REF), known(s, m, e.edg[i])) for i in range(3)]) if s.sym else all(not bit(e.tag[i], REF) or known(s, m, e.edg[i]) for i in range(3))

    def forgets(s, m0, e, i):
        """vertex i of an element belongs to a marked edge and carries the reference of the level-set"""
        return And(Or(*[bit(e.tag[q], REF) for q in range(3) if q != i]), Eq(m0.point[e.v[i]].ref, m0.info.isoref))

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        iso = m0.info.isoref
        every = lambda g: s.ForAll(1, m0.nt + 1, lambda k: s.If(used(m0.tria[k]), lambda: g(k, m0.tria[k], m1.tria[k])))
        if setting: out, ok = [('succeeds', Eq(s.ret, 1))], True
        else:
            ok = Not(Eq(s.ret, 0))
            allk = Or(nomap(m0), every(lambda k, a, b: kn(s, m0, a))) if s.sym else m0.info.nmat == 0 or every(lambda k, a, b: kn(s, m0, a))
            out = [('accepted only with a map of every reference', Implies(ok, allk)), ('answers 0 or 1', Or(Eq(s.ret, 1), Eq(s.ret, 0))), ('accepted without a map', Implies(nomap(m0), Eq(s.ret, 1)))]
            if not s.sym and not s.ret: return out
        for i in range(3):
            out.append(('reference of edge %d' % i, Implies(ok, every(lambda k, a, b: Eq(b.edg[i], newref(s, m0, a, i))))))
            if not setting: out.append(('vertex %d forgets the level-set' % i, Implies(ok, every(lambda k, a, b: Implies(forgets(s, m0, a, i), Eq(m1.point[a.v[i]].ref, 0))))))
        P = lambda f: s.ForAll(1, m0.np + 1, f)
        if setting:
            z = zero(s)
            out.append(('the vertices on the level-set get its reference', P(lambda p: Implies(Eq(s.pre.sol.m[p], z), Eq(m1.point[p].ref, iso)))))
            out.append(('the other vertices keep theirs', P(lambda p: Or(Eq(s.pre.sol.m[p], z), Eq(m1.point[p].ref, m0.point[p].ref)))))
        else:
            out.append(('other references kept', P(lambda p: Or(Eq(m1.point[p].ref, m0.point[p].ref), And(Eq(m0.point[p].ref, iso), Eq(m1.point[p].ref, 0))))))
        return out

    def requires(s):
        m = s.pre.mesh
        def one(k):
            e = m.tria[k]
            out = [And(tm.le(1, e.v[i]), tm.le(e.v[i], m.np)) for i in range(3)]
            for i in range(3):
                if setting:
                    pos, neg, z = edge(s, s.pre.sol, e, i)
                    if s.sym: q = And(Or(nomap(m), known(s, m, e.edg[i])), Not(z), Implies(split(s, m, e.edg[i]), Not(And(pos, neg))))
                    else: q = (m.info.nmat == 0 or known(s, m, e.edg[i])) and not z and not (split(s, m, e.edg[i]) and pos and neg) if bit(e.tag[i], REF) else True
                else: q = Or(nomap(m), And(inrange(m, e.edg[i]), Or(Eq(code(m, e.edg[i]), 0), known(s, m, e.edg[i])))) if s.sym else True
                out.append(Implies(bit(e.tag[i], REF), q))
            return And(*out)
        return req_map(s, m) + [tm.le(0, m.nt), tm.le(0, m.np), s.ForAll(1, m.nt + 1, lambda k: s.If(used(m.tria[k]), lambda: one(k)))]

    def setup(x, st, s):
        m0 = s.pre.mesh
        iso = m0.info.isoref

        def inv(L):
            c, k, q = L.ctx, L.var('k'), S.View(x, L.st, s.pre.mesh._p)
            out = [('counter', And(tm.le(1, k), tm.le(k, m0.nt + 1)))]
            for i in range(3):
                out.append(('edge %d' % i, c.ForAll(1, m0.nt + 1, lambda j: Eq(q.tria[j].edg[i], Ite(And(used(m0.tria[j]), tm.lt(j, k)), newref(s, m0, m0.tria[j], i), m0.tria[j].edg[i])))))
                if not setting: out.append(('vertex %d' % i, c.ForAll(1, k, lambda j: Implies(And(used(m0.tria[j]), forgets(s, m0, m0.tria[j], i)), Eq(q.point[m0.tria[j].v[i]].ref, 0)))))
            if not setting:
                out.append(('map', Or(nomap(m0), c.ForAll(1, k, lambda j: Implies(used(m0.tria[j]), kn(s, m0, m0.tria[j]))))))
                out.append(('points', c.ForAll(1, m0.np + 1, lambda p: Or(Eq(q.point[p].ref, m0.point[p].ref), And(Eq(m0.point[p].ref, iso), Eq(q.point[p].ref, 0))))))
            return out + frame(c, q, m0, 'tria', 'nt', ['edg[%d]' % i for i in range(3)], [] if setting else ['ref'])
        tb = s.pre.mesh.tria._p.base
        loops.use_invariants(x, [(lambda x, names, cells: 'k' in names and any(b == tb for b, _ in cells), inv, lambda L: m0.nt + 1 - L.var('k'))])

    def gen(rng, mem, c):
        a = gen_ls(lib, 'tria', 'nt', 3, not setting)(rng, mem, c)
        w = N.W(mem.lay, a['mesh'].addr if hasattr(a['mesh'], 'addr') else a['mesh'], TRec('MMG5_Mesh'))
        v = w.info.invmat
        pool = list(range(v.offset, v.offset + v.size)) if w.info.nmat else [2, 3, 0, 5]
        good = [r for r in pool if not w.info.nmat or v.lookup[r - v.offset] >= 4]
        for k in range(1, w.nt + 1):
            for i in range(3):
                w.tria[k].tag[i] = rng.choice((0, REF, REF | BDY, BDY))
                w.tria[k].edg[i] = rng.choice(good if setting or rng.random() < 0.95 else pool)
                if setting and bit(w.tria[k].tag[i], REF):
                    sg = [a['sol'] and N.W(mem.lay, a['sol'].addr if hasattr(a['sol'], 'addr') else a['sol'], TRec('MMG5_Sol')).m[w.tria[k].v[(i + q) % 3]] for q in (1, 2)] if w.tria[k].v[0] > 0 else [1, 1]
                    if sg[0] == 0 and sg[1] == 0 or sg[0] * sg[1] < 0: w.tria[k].tag[i] = BDY
        return a
    return Contract(fn, lib, ['mesh', 'sol'] if setting else ['mesh'], ensures, requires,
                    lambda s: [(s.pre.mesh.tria, ['edg'], 1, s.pre.mesh.nt + 1), (s.pre.mesh.point, ['ref'], 1, s.pre.mesh.np + 1)],
                    gen=gen, ex_setup=setup, opts=NONNULL, timeout=40)


def isbr(lib):
    def ensures(s):
        m = s.pre.mesh
        q = s.Exists(0, m.info.nbr, lambda k: Eq(m.info.br[k], s.pre.ref))
        return [('1 iff the reference is in the table', Eq(s.ret, Ite(q, 1, 0)))]

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        n = rng.randint(0, 4)
        b = mem.alloc(INT, n + 1, 'br')
        for k in range(n + 1): N.poke(b.addr + 4 * k, INT, rng.randint(0, 6))
        w.info.nbr = n
        w.info.br = b.addr
        return {'mesh': m, 'ref': rng.randint(0, 6)}
    return Contract('MMG5_isbr', lib, ['mesh', 'ref'], ensures, lambda s: [tm.le(0, s.pre.mesh.info.nbr), Or(Eq(s.pre.mesh.info.nbr, 0), Not(s.pre.mesh.info.br.isnull()))],
                    lambda s: [], gen=gen, name='MMG5_isbr[%s]' % lib, opts={'nonnull_fields': NONNULL['nonnull_fields'] | {'MMG5_Info.br', 'MMG5_Mesh.info.br'}})


def gen_lss(lib, unknown=False):
    def gen(rng, mem, c):
        a = gen_ls(lib, 'tetra', 'ne', 4)(rng, mem, c)
        lay = mem.lay
        w = N.W(lay, a['mesh'].addr if hasattr(a['mesh'], 'addr') else a['mesh'], TRec('MMG5_Mesh'))
        w.info.ls = rng.choice((0., 0.25, -1.))
        n = w.ne + 1
        b = mem.alloc(TRec('MMG5_xTetra'), n + 1, 'xt')
        G.fill(rng, lay, b)
        w.xtetra = b.addr
        w.xtmax = n
        ids = list(range(1, n + 1))
        rng.shuffle(ids)
        refs = [w.tetra[k].ref for k in range(1, w.ne + 1)]
        pool = [r for r in range(w.info.invmat.offset, w.info.invmat.offset + w.info.invmat.size)] if w.info.nmat else [2, 3, 0, 5]
        known_ = [r for r in pool if not w.info.nmat or (lambda c: c >= 4)(w.info.invmat.lookup[r - w.info.invmat.offset])]
        for k in range(1, w.ne + 1):
            w.tetra[k].xt = ids.pop() if rng.random() < 0.8 else 0
        for r in range(n + 1):
            x = N.W(lay, b.addr + r * lay.sizeof(b.ty), b.ty)
            for f in range(4):
                x.ftag[f] = rng.choice((0, BDY, BDY, BDY | 1))
                x.ref[f] = rng.choice(known_ if not unknown or rng.random() < 0.95 else pool)
            for e in range(6):
                if rng.random() < 0.5: x.edg[e] = w.info.isoref
        return a
    return gen


def reset3s(lib):
    def bdy(x, f): return bit(x.ftag[f], BDY)

    def on(s, m0, x, ia): return And(Or(*[bdy(x, f) for f in FACES_OF[ia]]), Eq(x.edg[ia], m0.info.isoref), True if not s.sym else True)

    def kn(s, m0, x):
        return And(*[Implies(bdy(x, f), known(s, m0, x.ref[f])) for f in range(4)]) if s.sym else all(not bdy(x, f) or known(s, m0, x.ref[f]) for f in range(4))

    def vert(s, m0, x, i): return Or(*[And(on(s, m0, x, ia), True) for ia in range(6) if i in IARE[ia]])
    clear = lambda s, t: tm.bitand(t, 0xffff - REF) if s.sym else t & (0xffff - REF)

    def par(s, m0, x, f):
        if s.sym: return Ite(bdy(x, f), parent(s, m0, x.ref[f]), x.ref[f])
        return parent(s, m0, x.ref[f]) if bdy(x, f) else x.ref[f]

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        every = lambda g: s.ForAll(1, m0.ne + 1, lambda k: s.If(hasxt(m0.tetra[k]), lambda: g(m0.tetra[k], m0.xtetra[m0.tetra[k].xt], m1.xtetra[m0.tetra[k].xt])))
        allk = Or(nomap(m0), every(lambda e, a, b: kn(s, m0, a))) if s.sym else m0.info.nmat == 0 or every(lambda e, a, b: kn(s, m0, a))
        ok = Not(Eq(s.ret, 0))
        out = [('accepted only with a map of every reference', Implies(ok, allk)), ('answers 0 or 1', Or(Eq(s.ret, 1), Eq(s.ret, 0))), ('accepted without a map', Implies(nomap(m0), Eq(s.ret, 1)))]
        if not s.sym and not s.ret: return out
        for f in range(4): out.append(('initial reference of face %d' % f, Implies(ok, every(lambda e, a, b: Eq(b.ref[f], par(s, m0, a, f))))))
        for ia in range(6):
            out.append(('edge %d forgets the level-set' % ia, Implies(ok, every(lambda e, a, b: Eq(b.edg[ia], Ite(on(s, m0, a, ia), 0, a.edg[ia]))))))
            out.append(('mark of edge %d' % ia, Implies(ok, every(lambda e, a, b: Eq(b.tag[ia], Ite(on(s, m0, a, ia), clear(s, a.tag[ia]), a.tag[ia]))))))
        for i in range(4): out.append(('vertex %d forgets the level-set' % i, Implies(ok, every(lambda e, a, b: Implies(vert(s, m0, a, i), Eq(m1.point[e.v[i]].ref, 0))))))
        out.append(('other references kept', s.ForAll(1, m0.np + 1, lambda p: Or(Eq(m1.point[p].ref, m0.point[p].ref), Eq(m1.point[p].ref, 0)))))
        return out

    def requires(s):
        m = s.pre.mesh
        def one(k):
            e = m.tetra[k]
            x = m.xtetra[e.xt]
            return And(*[And(tm.le(1, e.v[i]), tm.le(e.v[i], m.np)) for i in range(4)], *[Implies(bdy(x, f), Or(nomap(m), And(inrange(m, x.ref[f]), Or(Eq(code(m, x.ref[f]), 0), known(s, m, x.ref[f]))))) for f in range(4) if s.sym])
        return req_map(s, m) + own_xt(s, m) + [tm.le(0, m.ne), tm.le(0, m.np), Not(Eq(m.info.isoref, 0)), s.ForAll(1, m.ne + 1, lambda k: s.If(hasxt(m.tetra[k]), lambda: one(k)))]

    def setup(x, st, s):
        m0 = s.pre.mesh
        own = lambda r: tm.app('xt_owner!', 'I', r)

        def inv(L):
            c, k, q = L.ctx, L.var('k'), S.View(x, L.st, s.pre.mesh._p)
            rec = lambda j: (m0.tetra[j], m0.xtetra[m0.tetra[j].xt], q.xtetra[m0.tetra[j].xt])
            out = [('counter', And(tm.le(1, k), tm.le(k, m0.ne + 1)))]
            def add(nm, g, keep):
                out.append((nm, c.ForAll(1, k, lambda j: Implies(hasxt(m0.tetra[j]), g(*rec(j))))))
                out.append((nm + ' (others)', c.ForAll(0, m0.xtmax + 1, lambda r: Implies(Not(And(tm.le(1, own(r)), tm.lt(own(r), k), hasxt(m0.tetra[own(r)]), Eq(m0.tetra[own(r)].xt, r))), keep(m0.xtetra[r], q.xtetra[r])))))
            for f in range(4): add('face %d' % f, lambda e, a, b: Eq(b.ref[f], par(s, m0, a, f)), lambda a, b: Eq(b.ref[f], a.ref[f]))
            for ia in range(6):
                add('edge %d' % ia, lambda e, a, b: Eq(b.edg[ia], Ite(on(s, m0, a, ia), 0, a.edg[ia])), lambda a, b: Eq(b.edg[ia], a.edg[ia]))
                add('tag %d' % ia, lambda e, a, b: Eq(b.tag[ia], Ite(on(s, m0, a, ia), clear(s, a.tag[ia]), a.tag[ia])), lambda a, b: Eq(b.tag[ia], a.tag[ia]))
            for i in range(4): out.append(('vertex %d' % i, c.ForAll(1, k, lambda j: Implies(And(hasxt(m0.tetra[j]), vert(s, m0, m0.xtetra[m0.tetra[j].xt], i)), Eq(q.point[m0.tetra[j].v[i]].ref, 0)))))
            out.append(('map', Or(nomap(m0), c.ForAll(1, k, lambda j: Implies(hasxt(m0.tetra[j]), kn(s, m0, m0.xtetra[m0.tetra[j].xt]))))))
            out.append(('points', c.ForAll(1, m0.np + 1, lambda p: Or(Eq(q.point[p].ref, m0.point[p].ref), Eq(q.point[p].ref, 0)))))
            fs = ['ref[%d]' % f for f in range(4)] + ['%s[%d]' % (n, i) for n in ('edg', 'tag') for i in range(6)]
            out.append(('other records', c.Outside(0, m0.xtmax + 1, lambda r: And(*[Eq(field(q.xtetra[r], f), field(m0.xtetra[r], f)) for f in fs]))))
            out.append(('other points', c.Outside(1, m0.np + 1, lambda p: Eq(q.point[p].ref, m0.point[p].ref))))
            return out
        loops.use_invariants(x, [(lambda x, names, cells: 'k' in names, inv, lambda L: m0.ne + 1 - L.var('k'))])
    return Contract('MMG3D_resetRef_lssurf', lib, ['mesh'], ensures, requires,
                    lambda s: [(s.pre.mesh.xtetra, ['ref', 'edg', 'tag'], 0, s.pre.mesh.xtmax + 1), (s.pre.mesh.point, ['ref'], 1, s.pre.mesh.np + 1)],
                    gen=gen_lss(lib, True), ex_setup=setup, opts=NONNULL, timeout=40)


def gen_ls(lib, arr, cnt, nv, unknown=False):
    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        lay = mem.lay
        refs = gen_map(rng, mem, w)
        sol, ws = G.sol(rng, mem, lib, np=w.np, size=1, typ=1, nm='sol', npmax=w.npmax)
        w.info.isoref = rng.choice((10, 3, 7))
        w.info.iso = rng.choice((1, 1, 1, 2))
        w.info.ls = 0.
        cut = rng.random() < 0.2
        val = lambda: rng.choice((0., 0., 0.5, 1., 2.) if cut else (0., 0., 0.5, -0.5, 1., -2.))
        vals = [val() for _ in range(w.np + 1)]
        for k, v in enumerate(vals): ws.m[k] = v
        for k in range(b['point'].count):
            p = N.W(lay, b['point'].addr + k * lay.sizeof(b['point'].ty), b['point'].ty)
            if rng.random() < 0.4: p.ref = w.info.isoref
        if arr in b:
            B = b[arr]
            for k in range(B.count):
                e = N.W(lay, B.addr + k * lay.sizeof(B.ty), B.ty)
                if w.info.nmat: e.ref = rng.choice(refs) if not unknown or rng.random() < 0.95 else rng.randint(w.info.invmat.offset, w.info.invmat.offset + w.info.invmat.size - 1)
                if rng.random() < 0.15: e.v[0] = 0
                elif not unknown:
                    for _ in range(60):
                        vs = [rng.randint(1, w.np) for _ in range(nv)]
                        sg = {(x > 0) - (x < 0) for x in (vals[q] for q in vs)}
                        if sg != {0} and not (1 in sg and -1 in sg): break
                    else: vs = [0] * nv
                    for q in range(nv): e.v[q] = vs[q]
                if arr == 'tria':
                    for q in range(3):
                        if rng.random() < 0.4: e.edg[q] = w.info.isoref
        a = {'mesh': m}
        if 'sol' in c.params: a['sol'] = sol
        return a
    return gen


def contracts():
    out = []
    for lib in (COMMON,):
        out += [setref3(lib), setref2(lib), reset(lib, 'MMG3D_resetRef_ls', 'tetra', 'ne', 4), reset(lib, 'MMG5_resetRef_ls', 'tria', 'nt', 3)]
        out += [setref3s(lib), reset3s(lib), lssurf2(lib, 'MMG5_setref_lssurf'), lssurf2(lib, 'MMG5_resetRef_lssurf')]
        out += [isbr(l) for l in ('mmg3d', 'mmg2d')]
        out += [is_split(lib), start_ref(lib), is_level(lib), is_not_split(lib), init_map(lib)]
    return out
