"""C02 solution fields: values stored per vertex are the values returned (scalar, vector, tensor; single, array, i-th field)."""
from ..spec import *
from .. import gens as G
from ..gens import DBL

LIBS = [('MMG3D', 'mmg3d', 3), ('MMG2D', 'mmg2d', 2), ('MMGS', 'mmgs', 3)]
TYPE = {'scalar': 1, 'vector': 2, 'tensor': 3}


def ncomp(k, d): return {'scalar': 1, 'vector': d, 'tensor': d * (d + 1) // 2}[k]


def legal(s, met, pos):
    """position accepted by the setters (documented range 1..np; one slot of slack is kept by the allocation)"""
    return And(Not(Eq(met.np, 0)), tm.le(1, pos), tm.lt(pos, met.npmax), tm.le(pos, met.np))


def base_req(s, met, n):
    return [tm.le(0, met.np), tm.le(met.np, met.npmax), Not(met.m.isnull()), Eq(met.size, n)]


def set_single(P, lib, d, k):
    n = ncomp(k, d)
    vals = ['x%d' % i for i in range(n)]

    def ensures(s):
        m0, m1 = s.pre.met, s.post.met
        ok = legal(s, m0, s.pre.pos)
        out = [('accepted iff the position is valid', Eq(s.ret, Ite(ok, 1, 0)))]
        if s.mode == 'nat' and not ok: return out
        for i, v in enumerate(vals):
            out.append(('component %d stored' % i, Implies(ok, Eq(m1.m[s.pre.pos * n + i], getattr(s.pre, v)))))
        return out

    def assigns(s):
        ok = legal(s, s.pre.met, s.pre.pos)
        lo = s.pre.pos * n
        return [(s.pre.met.m, '*', lo, Ite(ok, lo + n, lo))]

    def gen(rng, mem, c):
        m, w = G.sol(rng, mem, lib, typ=TYPE[k])
        if rng.random() < 0.1: w.np = 0
        a = {'met': m, 'pos': rng.choice([rng.randint(-1, w.npmax + 1), rng.randint(1, max(1, w.np))])}
        for v in vals: a[v] = G.rdouble(rng)
        return a
    return Contract('%s_Set_%sSol' % (P, k), lib, ['met'] + vals + ['pos'], ensures, lambda s: base_req(s, s.pre.met, n), assigns, gen=gen)


def cursor(s, met): return Ite(Eq(met.npi, met.np), 1, met.npi + 1)


def get_single(P, lib, d, k):
    n = ncomp(k, d)
    outs = ['o%d' % i for i in range(n)]

    def ensures(s):
        m0 = s.pre.met
        i = cursor(s, m0)
        ok = tm.le(i, m0.np)
        out = [('fails iff there is no value left', Eq(s.ret, Ite(ok, 1, 0)))]
        if s.mode == 'nat' and not ok: return out
        out.append(('cursor advanced', Implies(ok, Eq(s.post.met.npi, i))))
        for j, o in enumerate(outs):
            out.append(('component %d returned' % j, Implies(ok, Eq(getattr(s.post, o)[0], m0.m[i * n + j]))))
        return out

    def assigns(s): return [(getattr(s.pre, o), '*') for o in outs] + [(s.pre.met, 'npi')]

    def gen(rng, mem, c):
        m, w = G.sol(rng, mem, lib, typ=TYPE[k])
        if rng.random() < 0.1: w.np = w.npi = 0
        a = {'met': m}
        for o in outs: a[o] = G.out(mem, DBL, 1, o, rng)
        return a
    return Contract('%s_Get_%sSol' % (P, k), lib, ['met'] + outs, ensures,
                    lambda s: base_req(s, s.pre.met, n) + [tm.le(0, s.pre.met.npi), tm.le(s.pre.met.npi, s.pre.met.np)], assigns,
                    gen=gen, sizes={o: 1 for o in outs})


def array(P, lib, d, k, setter):
    n = ncomp(k, d)

    def ensures(s):
        m0, m1 = s.pre.met, s.post.met
        if setter:
            ok = Not(Eq(m0.np, 0))
            out = [('accepted iff the field is sized', Eq(s.ret, Ite(ok, 1, 0)))]
            out.append(('every value stored', s.ForAll(0, m0.np * n, lambda q: Eq(m1.m[q + n], s.pre.data[q]))))
        else:
            out = [('accepted', Eq(s.ret, 1))]
            out.append(('every value returned', s.ForAll(0, m0.np * n, lambda q: Eq(s.post.data[q], m0.m[q + n]))))
        return out

    def assigns(s):
        if setter: return [(s.pre.met.m, '*', n, s.pre.met.np * n + n)]
        return [(s.pre.data, '*', 0, s.pre.met.np * n)]

    def gen(rng, mem, c):
        m, w = G.sol(rng, mem, lib, typ=TYPE[k])
        if rng.random() < 0.1: w.np = 0
        return {'met': m, 'data': G.out(mem, DBL, w.np * n + 1, 'data', rng)}
    return Contract('%s_%s_%sSols' % (P, 'Set' if setter else 'Get', k), lib, ['met', 'data'], ensures,
                    lambda s: base_req(s, s.pre.met, n), assigns, gen=gen)


def ith(P, lib, d, setter, single):
    """dispatch of the i-th field of an array of fields on its type"""
    params = ['sol', 'i', 'v'] + (['pos'] if single else [])

    def requires(s):
        psl = s.pre.sol[s.pre.i - 1]
        r = [tm.le(1, s.pre.i), tm.le(0, psl.np), tm.le(psl.np, psl.npmax), Not(psl.m.isnull()), tm.le(1, psl.type), tm.le(psl.type, 3),
             Eq(psl.size, Ite(Eq(psl.type, 1), 1, Ite(Eq(psl.type, 2), d, d * (d + 1) // 2)))]
        if single and not setter: r += [tm.le(1, s.pre.pos), tm.le(s.pre.pos, psl.np)]
        return r

    def ensures(s):
        p0, p1 = s.pre.sol[s.pre.i - 1], s.post.sol[s.pre.i - 1]
        out = []
        if single and setter: ok = legal(s, p0, s.pre.pos)
        elif setter: ok = Not(Eq(p0.np, 0))
        else: ok = True
        out.append(('accepted iff valid', Eq(s.ret, Ite(ok, 1, 0))))
        if s.mode == 'nat' and not ok: return out
        for k, t in TYPE.items():
            n = ncomp(k, d)
            is_t = Eq(p0.type, t)
            if s.mode == 'nat' and not is_t: continue
            c = And(ok, is_t)
            if single:
                for j in range(n):
                    g = Eq(p1.m[s.pre.pos * n + j], s.pre.v[j]) if setter else Eq(s.post.v[j], p0.m[s.pre.pos * n + j])
                    out.append(('%s component %d %s' % (k, j, 'stored' if setter else 'returned'), Implies(c, g)))
            else:
                f = (lambda q: Eq(p1.m[q + n], s.pre.v[q])) if setter else (lambda q: Eq(s.post.v[q], p0.m[q + n]))
                out.append(('%s values %s' % (k, 'stored' if setter else 'returned'), Implies(c, s.ForAll(0, p0.np * n, f))))
        return out

    def assigns(s):
        p0 = s.pre.sol[s.pre.i - 1]
        size = Ite(Eq(p0.type, 1), 1, Ite(Eq(p0.type, 2), d, d * (d + 1) // 2))
        if single:
            if setter: return [(p0.m, '*', s.pre.pos * size, Ite(legal(s, p0, s.pre.pos), s.pre.pos * size + size, s.pre.pos * size))]
            return [(s.pre.v, '*', 0, size), (p0, 'npi')]
        if setter: return [(p0.m, '*', size, p0.np * size + size)]
        return [(s.pre.v, '*', 0, p0.np * size)]

    def gen(rng, mem, c):
        nf = rng.randint(1, 4)
        arr = mem.alloc(N.TRec('MMG5_Sol'), nf, 'sols')
        lay = mem.lay
        W = N.W(lay, arr.addr, N.TRec('MMG5_Sol'))
        np = rng.randint(1, 6) if rng.random() > 0.1 or not setter else 0
        npmax = np + rng.randint(1, 3)
        for f in range(nf):
            w = W[f]
            w.np, w.npmax, w.dim, w.ver = np, npmax, d, 2
            w.type = rng.choice((1, 2, 3))
            w.size = {1: 1, 2: d, 3: d * (d + 1) // 2}[w.type]
            b = mem.alloc(DBL, w.size * (npmax + 1), 'sols.m%d' % f)
            G.fill(rng, lay, b)
            w.m = b.addr
        i = rng.randint(1, nf)
        a = {'sol': arr, 'i': i, 'v': G.out(mem, DBL, 6 * (np + 1), 's', rng)}
        if single: a['pos'] = rng.randint(1, max(1, np)) if rng.random() < 0.7 or not setter else rng.randint(-1, npmax + 1)
        return a
    fn = '%s_%s_ith%s_inSolsAtVertices' % (P, 'Set' if setter else 'Get', 'Sol' if single else 'Sols')
    return Contract(fn, lib, params, ensures, requires, assigns, gen=gen)


def contracts():
    out = []
    for P, lib, d in LIBS:
        for k in TYPE:
            out += [set_single(P, lib, d, k), get_single(P, lib, d, k), array(P, lib, d, k, True), array(P, lib, d, k, False)]
        for setter in (True, False):
            for single in (True, False): out.append(ith(P, lib, d, setter, single))
    return out
