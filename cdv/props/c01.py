"""C01 mesh entities: what a setter stores is what the getters return (three libraries, single and array forms)."""
from ..spec import *
from .. import gens as G
from ..gens import INT, DBL

NUL, REQ, CRN, GEO, REFB, BDY, PAR = 0x8000, 4, 32, 2, 1, 16, 8192
# mesh array, record, counter, maximum, vertex cells
ENT = {
    'vertex': ('point', 'np', 'npmax', ['c[0]', 'c[1]', 'c[2]']),
    'tetrahedron': ('tetra', 'ne', 'nemax', ['v[%d]' % i for i in range(4)]),
    'prism': ('prism', 'nprism', None, ['v[%d]' % i for i in range(6)]),
    'triangle': ('tria', 'nt', 'ntmax', ['v[%d]' % i for i in range(3)]),
    'quadrilateral': ('quadra', 'nquad', None, ['v[%d]' % i for i in range(4)]),
    'edge': ('edge', 'na', 'namax', ['a', 'b']),
}
PL = {'vertex': 'vertices', 'tetrahedron': 'tetrahedra', 'prism': 'prisms', 'triangle': 'triangles',
      'quadrilateral': 'quadrilaterals', 'edge': 'edges'}
LIBS = [('MMG3D', 'mmg3d', ['vertex', 'tetrahedron', 'prism', 'triangle', 'quadrilateral', 'edge']),
        ('MMG2D', 'mmg2d', ['vertex', 'triangle', 'quadrilateral', 'edge']),
        ('MMGS', 'mmgs', ['vertex', 'triangle', 'edge'])]


def cells(lib, e):
    c = ENT[e][3]
    return c[:2] if (e == 'vertex' and lib == 'mmg2d') else c


def maxf(lib, e):
    return None if (e == 'edge' and lib == 'mmg2d') else ENT[e][2]


def clears(lib, e):
    """does storing the entity mark its vertices as used"""
    return {'mmg3d': e in ('tetrahedron', 'prism'), 'mmg2d': e in ('triangle', 'quadrilateral', 'edge'),
            'mmgs': e == 'triangle'}[lib]


def det3(a, b, c, d):
    """6 x signed volume of the tetrahedron"""
    u = [b[i] - a[i] for i in range(3)]
    v = [c[i] - a[i] for i in range(3)]
    w = [d[i] - a[i] for i in range(3)]
    return (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]))


def det2(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def pcoords(m, v, d):
    p = m.point[v]
    return [p.cell('c[%d]' % i) for i in range(d)]


def F(x): return Fraction(x) if isinstance(x, float) else x


EPSD2 = Fraction(1e-200)


def orient(s, lib, e, vs, m):
    """(sign>0, sign<0) conditions of the reference orientation"""
    if e == 'tetrahedron':
        d = det3(*[[F(q) for q in pcoords(m, v, 3)] for v in vs])
        return tm.lt(EPSD2, d), tm.lt(d, tm.neg(EPSD2))
    d = det2(*[[F(q) for q in pcoords(m, v, 2)] for v in vs])
    return tm.lt(0, d), tm.lt(d, 0)


def swapped(lib, e, vs):
    vs = list(vs)
    if e == 'tetrahedron': vs[2], vs[3] = vs[3], vs[2]
    else: vs[1], vs[2] = vs[2], vs[1]
    return vs


def oriented(lib, e): return (lib, e) in (('mmg3d', 'tetrahedron'), ('mmg2d', 'triangle'))


def stored_ok(s, lib, e, m0, m1, pos, vals, ref, tag0):
    """entity `pos` of the post mesh holds vals/ref"""
    arr = ENT[e][0]
    cs = cells(lib, e)
    r = getattr(m1, arr)[pos]
    r0 = getattr(m0, arr)[pos]
    out = []
    if oriented(lib, e):
        up, dn = orient(s, lib, e, vals, m0)
        sw = swapped(lib, e, vals)
        out.append(('vertices kept when positively oriented', Implies(up, And(*[Eq(r.cell(c), v) for c, v in zip(cs, vals)]))))
        out.append(('vertices reoriented when negative', Implies(dn, And(*[Eq(r.cell(c), v) for c, v in zip(cs, sw)]))))
        out.append(('no vertex invented', And(*[Or(*[Eq(r.cell(c), v) for v in vals]) for c in cs])))
    else:
        for c, v in zip(cs, vals): out.append(('%s stored' % c, Eq(r.cell(c), v)))
    if ref is not None:
        out.append(('reference stored', Eq(r.ref, Abs(ref) if e == 'tetrahedron' else ref)))
    if e == 'vertex':
        if lib == 'mmg2d':
            t = Ite(Eq(m0.nt, 0), tm.bitand(r0.tag, ~NUL & 0xffff), NUL)
        else: t = NUL
        out.append(('vertex tag reset', Eq(r.tag, t)))
    elif e == 'edge':
        if lib == 'mmg2d': out.append(('edge tag', Eq(r.tag, tm.bitand(r0.tag, REFB + BDY))))
        else: out.append(('edge tag', Eq(r.tag, tm.bitor(r0.tag, REFB))))
    return out


def write_keys(lib, e):
    k = [c.split('[')[0] for c in cells(lib, e)] + ['ref']
    if e == 'vertex': k += ['tag', 'flag', 'tmp']
    if e == 'edge': k += ['tag']
    if lib == 'mmg2d' and e == 'triangle': k += ['edg']
    return sorted(set(k))


def npall(m): return m.npmax + 1


def tags_spec(s, lib, m0, m1, used):
    """tag change of points: NUL removed exactly at the vertices of the stored entity (`used`: list of indices)"""
    def f(p):
        inside = Or(*[Eq(p, v) for v in used])
        t0, t1 = m0.point[p].tag, m1.point[p].tag
        return Eq(t1, Ite(inside, tm.bitand(t0, 0x7fff), t0))
    return [('vertices marked as used, other tags kept', s.ForAll(0, npall(m0), f))]


def set_single(P, lib, e):
    cs = cells(lib, e)
    arr, cnt, mx, _ = ENT[e]
    mx = maxf(lib, e)
    vals = ['x%d' % i for i in range(len(cs))]
    params = ['mesh'] + vals + ['ref', 'pos']

    def V(s): return [getattr(s.pre, v) for v in vals]

    def valid(s):
        m = s.pre.mesh
        c = [Not(Eq(getattr(m, cnt), 0)), tm.le(s.pre.pos, getattr(m, cnt))]
        if mx: c.append(tm.le(s.pre.pos, getattr(m, mx)))
        return And(*c)

    def requires(s):
        m = s.pre.mesh
        r = [tm.le(1, s.pre.pos), tm.le(0, getattr(m, cnt)), tm.le(0, m.npmax), Not(getattr(m, arr).isnull()), Not(m.point.isnull())]
        if e != 'vertex': r += [And(tm.le(1, v), tm.le(v, m.npmax)) for v in V(s)]
        return r

    def ensures(s):
        m0, m1, v = s.pre.mesh, s.post.mesh, V(s)
        ok = valid(s)
        out = [('rejected iff the index is outside the declared size', Implies(Not(ok), Eq(s.ret, 0)))]
        if oriented(lib, e):
            up, dn = orient(s, lib, e, v, m0)
            out.append(('accepted', Implies(And(ok, Or(up, dn)), Eq(s.ret, 1))))
        else: out.append(('accepted', Implies(ok, Eq(s.ret, 1))))
        if s.mode == 'nat' and not ok: return out
        for n, g in stored_ok(s, lib, e, m0, m1, s.pre.pos, v, s.pre.ref, None):
            out.append((n, Implies(ok, g)))
        if clears(lib, e):
            for n, g in tags_spec(s, lib, m0, m1, v): out.append((n, Implies(ok, g)))
        return out

    def assigns(s):
        m = s.pre.mesh
        p = s.pre.pos
        hi = Ite(valid(s), tm.add(p, 1), p)
        a = [(getattr(m, arr), write_keys(lib, e), p, hi)]
        if clears(lib, e): a.append((m.point, 'tag', 0, Ite(valid(s), npall(m), 0)))
        if oriented(lib, e): a.append((m, 'xt', 0, Ite(valid(s), 1, 0)))
        return a

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        n, M = getattr(w, cnt), (getattr(w, mx) if mx else getattr(w, cnt))
        pos = rng.choice([rng.randint(1, max(1, n)), rng.randint(1, max(1, n)), n, n + 1, M, M + 1, M + 5])
        a = {'mesh': m, 'ref': G.rref(rng), 'pos': max(1, pos)}
        vs = [rng.randint(1, w.np) for _ in vals]
        if len(vals) <= w.np and rng.random() < 0.8: vs = rng.sample(range(1, w.np + 1), len(vals))
        for q, v in zip(vals, vs): a[q] = G.rdouble(rng) if e == 'vertex' else v
        return a
    return Contract('%s_Set_%s' % (P, e), lib, params, ensures, requires, assigns, gen=gen, trials=60)


def isflag(rec, kind):
    if kind == 'corner': return s_bit(rec.tag, CRN)
    if kind == 'ridge': return s_bit(rec.tag, GEO)
    if kind == 'req': return s_bit(rec.tag, REQ)
    if kind == 'req3': return And(*[s_bit(rec.cell('tag[%d]' % i), REQ) for i in range(3)])
    if kind == 'req4': return And(*[s_bit(rec.cell('tag[%d]' % i), REQ) for i in range(4)])


def s_bit(t, m): return Not(Eq(tm.bitand(t, m), 0))


FLAGS = {'vertex': ['corner', 'req'], 'tetrahedron': ['req'], 'prism': ['req'], 'triangle': ['req3'],
         'quadrilateral': ['req4'], 'edge': ['ridge', 'req']}
CUR = {'vertex': 'npi', 'tetrahedron': 'nei', 'triangle': 'nti', 'edge': 'nai'}


def get_outs(s, lib, e, rec, ok, outs, flags, ref):
    cs = cells(lib, e)
    o = []
    for c, v in zip(cs, outs):
        o.append(('%s returned' % c, Implies(ok, Eq(v[0], rec.cell(c)))))
    if ref is not None:
        o.append(('reference returned', Or(ref.isnull(), Implies(ok, _lz(ref, lambda: Eq(ref[0], rec.ref))))))
    for k, f in zip(FLAGS[e], flags):
        o.append(('%s flag returned' % k, Or(f.isnull(), Implies(ok, _lz(f, lambda: Eq(f[0], Ite(isflag(rec, k), 1, 0)))))))
    return o


def _lz(v, f):
    n = v.isnull()
    if n is True: return True
    return f()


def get_single(P, lib, e, byidx=False):
    cs = cells(lib, e)
    arr, cnt, mx, _ = ENT[e]
    outs = ['o%d' % i for i in range(len(cs))]
    flags = ['f%d' % i for i in range(len(FLAGS[e]))]
    params = ['mesh'] + outs + ['ref'] + flags + (['idx'] if byidx else [])
    cur = CUR.get(e)

    def idx(s):
        m = s.pre.mesh
        if byidx: return s.pre.idx
        return Ite(Eq(getattr(m, cur), getattr(m, cnt)), 1, tm.add(getattr(m, cur), 1))

    def ok(s):
        i = idx(s)
        return And(tm.le(1, i), tm.le(i, getattr(s.pre.mesh, cnt)))

    def requires(s):
        m = s.pre.mesh
        r = [tm.le(0, getattr(m, cnt)), Not(getattr(m, arr).isnull())]
        if cur and not byidx: r += [tm.le(0, getattr(m, cur)), tm.le(getattr(m, cur), getattr(m, cnt))]
        if lib == 'mmg2d' and e == 'edge':
            k = ok(s)
            r.append(Implies(k, Not(Eq(m.edge[idx(s)].a, 0))) if (s.sym or k) else True)
        return r

    def ensures(s):
        k = ok(s)
        out = [('fails iff no such entity', Eq(s.ret, Ite(k, 1, 0)))]
        if s.mode == 'nat' and not k: return out
        rec = getattr(s.pre.mesh, arr)[idx(s)]
        out += get_outs(s, lib, e, rec, k, [getattr(s.post, o) for o in outs], [getattr(s.post, f) for f in flags], s.post.ref)
        if cur and not byidx: out.append(('cursor advanced', Implies(k, Eq(getattr(s.post.mesh, cur), idx(s)))))
        return out

    def assigns(s):
        a = [(getattr(s.pre, o), '*') for o in outs + flags + ['ref']]
        if cur and not byidx: a.append((s.pre.mesh, cur))
        return a

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        if lib == 'mmg2d' and e == 'edge': pass
        a = {'mesh': m}
        for o in outs: a[o] = G.out(mem, DBL if e == 'vertex' else INT, 1, o, rng)
        for o in flags + ['ref']: a[o] = 0 if rng.random() < 0.2 else G.out(mem, INT, 1, o, rng)
        if byidx: a['idx'] = rng.randint(-1, w.np + 2)
        return a
    fn = '%s_GetByIdx_%s' % (P, e) if byidx else '%s_Get_%s' % (P, e)
    return Contract(fn, lib, params, ensures, requires, assigns, gen=gen, nullable=tuple(flags + ['ref']), trials=50,
                    sizes={o: 1 for o in outs + flags + ['ref']}, opts={'loop_decide': lib == 'mmg2d' and e == 'edge'})


def get_static(P, lib, e):
    """getter whose cursor is a function-static counter: two consecutive calls enumerate consecutive entities"""
    cs = cells(lib, e)
    arr, cnt, mx, _ = ENT[e]
    outs = ['o%d' % i for i in range(len(cs))]
    flags = ['f%d' % i for i in range(len(FLAGS[e]))]
    params = ['mesh'] + outs + ['ref'] + flags

    def requires(s): return [tm.le(1, getattr(s.pre.mesh, cnt)), Not(getattr(s.pre.mesh, arr).isnull())]

    def ensures(s):
        m = s.pre.mesh
        n = getattr(m, cnt)
        outv = [getattr(s.post, o) for o in outs]
        if s.sym:
            # ghost: the counter is the only static of the function
            cur0, cur1 = s.static_cursor()
            k = tm.le(cur1, n)
            o = [('the enumeration state belongs to the mesh', Eq(cur1, cur0)), ('cursor advanced cyclically', Eq(cur1, Ite(Eq(cur0, n), 1, tm.add(cur0, 1)))), ('fails iff exhausted', Eq(s.ret, Ite(k, 1, 0)))]
            rec = getattr(m, arr)[cur1]
            return o + get_outs(s, lib, e, rec, k, outv, [getattr(s.post, f) for f in flags], s.post.ref)
        if not s.ret: return []
        # native: the returned entity is one of the mesh
        for i in range(1, int(n) + 1):
            rec = getattr(m, arr)[i]
            if all(g for _, g in get_outs(s, lib, e, rec, True, outv, [getattr(s.post, f) for f in flags], s.post.ref)): return []
        return [('returned data is that of an entity of the mesh', False)]

    def assigns(s):
        a = [(getattr(s.pre, o), '*') for o in outs + flags + ['ref']]
        if s.sym: a += s.static_views()
        return a

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib, alloc_zero=0)
        a = {'mesh': m}
        for o in outs: a[o] = G.out(mem, INT, 1, o, rng)
        for o in flags + ['ref']: a[o] = 0 if rng.random() < 0.2 else G.out(mem, INT, 1, o, rng)
        return a
    return Contract('%s_Get_%s' % (P, e), lib, params, ensures, requires, assigns, gen=gen, nullable=tuple(flags + ['ref']),
                    trials=40, sizes={o: 1 for o in outs + flags + ['ref']})


def set_array(P, lib, e):
    cs = cells(lib, e)
    n = len(cs)
    arr, cnt, mx, _ = ENT[e]
    params = ['mesh', 'data', 'refs']
    # orientation test inside the loop reads coordinates that the loop does not write

    def dat(s, i, j): return s.pre.data[(i - 1) * n + j]

    def requires(s):
        m = s.pre.mesh
        r = [tm.le(0, getattr(m, cnt)), tm.le(0, m.npmax), Not(getattr(m, arr).isnull()), Not(m.point.isnull())]
        if e != 'vertex':
            r.append(s.ForAll(0, getattr(m, cnt) * n, lambda k: And(tm.le(1, s.pre.data[k]), tm.le(s.pre.data[k], m.npmax))))
        if oriented(lib, e):
            def nd(i):
                up, dn = orient(s, lib, e, [dat(s, i, j) for j in range(n)], m)
                return Or(up, dn)
            r.append(s.ForAll(1, getattr(m, cnt) + 1, nd))
        return r

    def ensures(s):
        m0, m1 = s.pre.mesh, s.post.mesh
        c = getattr(m0, cnt)
        out = [('accepted', Eq(s.ret, 1))]
        k = None

        def each(i):
            vals = [dat(s, i, j) for j in range(n)]
            ref = None
            o = stored_ok(s, lib, e, m0, m1, i, vals, ref, None)
            rr = getattr(m1, arr)[i].ref
            r0 = getattr(m0, arr)[i].ref
            want = lambda: (Abs(s.pre.refs[i - 1]) if e == 'tetrahedron' else s.pre.refs[i - 1])
            nul = s.pre.refs.isnull()
            o.append(('reference stored', And(Implies(nul, Eq(rr, r0)), True if nul is True else Or(nul, Eq(rr, want())))))
            return o
        if s.sym:
            i = tm.fresh('i', 'I')
            for nme, g in each(i):
                out.append((nme, Implies(And(tm.le(1, i), tm.le(i, c)), g)))
        else:
            for i in range(1, int(c) + 1): out += each(i)
        if clears(lib, e):
            def marked(i): return And(*[Not(s_bit(m1.point[dat(s, i, j)].tag, NUL)) for j in range(n)])
            out.append(('vertices marked as used', s.ForAll(1, c + 1, marked)))
            if s.sym:
                def keep(p):
                    t0, t1 = m0.point[p].tag, m1.point[p].tag
                    return Or(Eq(t1, t0), And(Eq(t1, tm.bitand(t0, 0x7fff)),
                                              s.Exists(1, c + 1, lambda i: Or(*[Eq(dat(s, i, j), p) for j in range(n)]))))
                out.append(('other vertex tags kept', s.ForAll(0, npall(m0), keep)))
            else:
                used = {int(s.pre.data[k]) for k in range(int(c) * n)}
                for p in range(int(npall(m0))):
                    t0, t1 = m0.point[p].tag, m1.point[p].tag
                    out.append(('tag of vertex %d' % p, t1 == (t0 & 0x7fff if p in used else t0)))
        return out

    def assigns(s):
        m = s.pre.mesh
        a = [(getattr(m, arr), write_keys(lib, e), 1, tm.add(getattr(m, cnt), 1))]
        if clears(lib, e): a.append((m.point, 'tag', 0, npall(m)))
        if oriented(lib, e): a.append((m, ['xt', 'xp']))
        return a

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        k = getattr(w, cnt)
        d = mem.alloc(DBL if e == 'vertex' else INT, max(1, k * n), 'data')
        if e == 'vertex': G.fill(rng, mem.lay, d)
        else:
            vs = []
            for i in range(k): vs += rng.sample(range(1, w.np + 1), n) if n <= w.np else [rng.randint(1, w.np) for _ in range(n)]
            it = iter(vs + [1])
            G.fill(rng, mem.lay, d, {'': lambda: next(it)})
        r = 0
        if rng.random() < 0.8:
            r = mem.alloc(INT, max(1, k), 'refs')
            G.fill(rng, mem.lay, r, {'': lambda: G.rref(rng)})
        return {'mesh': m, 'data': d, 'refs': r}
    return Contract('%s_Set_%s' % (P, PL[e]), lib, params, ensures, requires, assigns, gen=gen, nullable=('refs',), trials=50)


def get_array(P, lib, e):
    cs = cells(lib, e)
    n = len(cs)
    arr, cnt, mx, _ = ENT[e]
    flags = ['f%d' % i for i in range(len(FLAGS[e]))]
    params = ['mesh', 'data', 'refs'] + flags

    def requires(s): return [tm.le(0, getattr(s.pre.mesh, cnt)), Not(getattr(s.pre.mesh, arr).isnull())]

    def ensures(s):
        m = s.pre.mesh
        c = getattr(m, cnt)
        out = [('succeeds', Eq(s.ret, 1))]

        def each(i):
            rec = getattr(m, arr)[i]
            o = [('%s returned' % q, Eq(s.post.data[(i - 1) * n + j], rec.cell(q))) for j, q in enumerate(cs)]
            o.append(('reference returned', Or(s.post.refs.isnull(), _lz(s.post.refs, lambda: Eq(s.post.refs[i - 1], rec.ref)))))
            for k, f in zip(FLAGS[e], flags):
                f = getattr(s.post, f)
                o.append(('%s flag returned' % k, Or(f.isnull(), _lz(f, lambda: Eq(f[i - 1], Ite(isflag(rec, k), 1, 0))))))
            return o
        if s.sym:
            i = tm.fresh('i', 'I')
            for nme, g in each(i): out.append((nme, Implies(And(tm.le(1, i), tm.le(i, c)), g)))
        else:
            for i in range(1, int(c) + 1): out += each(i)
        return out

    def assigns(s):
        c = getattr(s.pre.mesh, cnt)
        a = [(s.pre.data, '*', 0, c * n), (s.pre.refs, '*', 0, c)]
        return a + [(getattr(s.pre, f), '*', 0, c) for f in flags]

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib)
        k = getattr(w, cnt)
        a = {'mesh': m, 'data': G.out(mem, DBL if e == 'vertex' else INT, k * n + 2, 'data', rng)}
        for o in flags + ['refs']: a[o] = 0 if rng.random() < 0.2 else G.out(mem, INT, k + 2, o, rng)
        return a
    return Contract('%s_Get_%s' % (P, PL[e]), lib, params, ensures, requires, assigns, gen=gen,
                    nullable=tuple(flags + ['refs']), trials=40)


def contracts():
    out = []
    for P, lib, es in LIBS:
        for e in es:
            out.append(set_single(P, lib, e))
            if e in CUR: out.append(get_single(P, lib, e))
            else: out.append(get_static(P, lib, e))
            out.append(set_array(P, lib, e))
            out.append(get_array(P, lib, e))
        out.append(get_single(P, lib, 'vertex', byidx=True))
    return out
