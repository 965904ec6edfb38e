"""C08 pools of points and elements: no number is handed out twice, a deleted number is handed out again."""
from ..spec import *
from .. import gens as G, loops
from ..gens import INT, DBL

NUL, BDY = 0x8000, 16
# library -> kind -> (array, record, link cell, head, counter, maximum)
POOL = {
    'mmg3d': {'Pt': ('point', 'MMG5_Point', 'tmp', 'npnil', 'np', 'npmax'), 'Elt': ('tetra', 'MMG5_Tetra', 'v[3]', 'nenil', 'ne', 'nemax')},
    'mmg2d': {'Pt': ('point', 'MMG5_Point', 'tmp', 'npnil', 'np', 'npmax'), 'Elt': ('tria', 'MMG5_Tria', 'v[2]', 'nenil', 'nt', 'ntmax')},
    'mmgs': {'Pt': ('point', 'MMG5_Point', 'tmp', 'npnil', 'np', 'npmax'), 'Elt': ('tria', 'MMG5_Tria', 'v[2]', 'nenil', 'nt', 'ntmax')},
}


class Ghost:
    """ghost description of a pool: which slots are in use, rank of every free slot in the list, its predecessor"""
    def __init__(g, used, pos, pred, length, last, fresh):
        g.used, g.pos, g.pred, g.length, g.last, g.fresh = used, pos, pred, length, last, fresh

    def free(g, k): return Not(g.used(k))


def cellof(e, key): return e.cell(key)


def ok(kind, e):
    """MG_VOK / MG_EOK"""
    return tm.lt(e.tag, NUL) if kind == 'Pt' else tm.lt(0, e.cell('v[0]'))


def memo(f):
    def h(s, *a):
        if '_gh' not in s.__dict__: s._gh = f(s, *a)
        return s._gh
    return h


@memo
def ghost0(s, lib, kind):
    """ghost state before the call"""
    if s.sym:
        U = lambda k: tm.not_(tm.eq(tm.app('ghost_used', 'I', k), 0))
        return Ghost(U, lambda k: tm.app('ghost_pos', 'I', k), lambda k: tm.app('ghost_pred', 'I', k), tm.sym('ghost_len', 'I'), tm.sym('ghost_last', 'I'),
                     tm.sym('ghost_fresh', 'I'))
    arr, rec, link, head, cnt, mx = POOL[lib][kind]
    m = s.pre.mesh
    A = getattr(m, arr)
    pos, pred = {}, {}
    k, prev, n = int(getattr(m, head)), 0, 0
    M = int(getattr(m, mx))
    while k and k not in pos and 1 <= k <= M:
        pos[k] = n; pred[k] = prev
        prev, k, n = k, int(A[k].cell(link)), n + 1
    fresh = M + 1
    for q in sorted(pos, reverse=True):
        if pos[q] == n - 1 - (M - 1 - q) and q == fresh - 1 - (1 if fresh == M + 1 and q < M else 0): fresh = q
    last = M if M in pos else M - 1
    fresh = last + 1
    while fresh - 1 in pos and pos[fresh - 1] == n - 1 - (last - (fresh - 1)) and (fresh - 1 > int(getattr(m, cnt))): fresh -= 1
    return Ghost(lambda k: int(k) not in pos, lambda k: pos.get(int(k), -5), lambda k: pred.get(int(k), -5), n, last, fresh)


def inv(s, m, lib, kind, g):
    arr, rec, link, head, cnt, mx = POOL[lib][kind]
    A = getattr(m, arr)
    h, n, M = getattr(m, head), getattr(m, cnt), getattr(m, mx)
    nx = lambda k: A[k].cell(link)
    rng = lambda f: s.ForAll(1, g.last + 1, f)
    out = [('the counter lies inside the array', And(tm.le(0, n), tm.le(n, g.last), tm.le(M - 1, g.last), tm.le(g.last, M))),
           ('the head of the list is a free slot', And(Eq(Eq(h, 0), Eq(g.length, 0)) if not s.sym else tm.and_(Implies(Eq(h, 0), Eq(g.length, 0)), Implies(Eq(g.length, 0), Eq(h, 0))),
                                                       tm.le(0, g.length),
                                                       Implies(Not(Eq(h, 0)), And(tm.le(1, h), tm.le(h, g.last), g.free(h), Eq(g.pos(h), 0))))),
           ('every free slot is in the list', rng(lambda k: Implies(g.free(k), And(tm.le(0, g.pos(k)), tm.lt(g.pos(k), g.length))))),
           ('the list goes on with a free slot', rng(lambda k: s.If(And(g.free(k), Not(Eq(nx(k), 0))),
                                                                    lambda: And(tm.le(1, nx(k)), tm.le(nx(k), g.last), g.free(nx(k)), Eq(g.pos(nx(k)), g.pos(k) + 1))))),
           ('the list ends at its last slot only', rng(lambda k: Implies(g.free(k), And(Implies(Eq(nx(k), 0), Eq(g.pos(k), g.length - 1)),
                                                                                        Implies(Eq(g.pos(k), g.length - 1), Eq(nx(k), 0)))))),
           ('every free slot but the head is linked', rng(lambda k: s.If(And(g.free(k), Not(Eq(k, h))), lambda:
                                                                         And(tm.le(1, g.pred(k)), tm.le(g.pred(k), g.last), g.free(g.pred(k)), s.If(tm.le(1, g.pred(k)), lambda: Eq(nx(g.pred(k)), k)),
                                                                             Eq(g.pos(g.pred(k)), g.pos(k) - 1))))),
           ('the counter covers every slot in use', rng(lambda k: Implies(g.used(k), tm.le(k, n)))),
           ]
    if kind == 'Elt': out.append(('free slots hold no element', rng(lambda k: Implies(g.free(k), Not(ok(kind, A[k]))))))
    else:
        out += [('slots never used are linked in order', And(tm.lt(n, g.fresh), tm.le(g.fresh, g.last + 1),
                 rng(lambda k: Implies(tm.le(g.fresh, k), And(g.free(k), Eq(g.pos(k), g.length - 1 - (g.last - k))))))),
                ('free slots among the points in use are marked', rng(lambda k: Implies(And(g.free(k), tm.lt(k, g.fresh)), Not(ok(kind, A[k])))))]
    return out


def pool_req(lib, kind):
    def requires(s):
        m = s.pre.mesh
        arr, rec, link, head, cnt, mx = POOL[lib][kind]
        return [Not(getattr(m, arr).isnull())] + [g for _, g in inv(s, m, lib, kind, ghost0(s, lib, kind))]
    return requires


def gen_pool(lib, kind, extra):
    """random pool, reached by a random history of creations and deletions"""
    def gen(rng, mem, c):
        lay = mem.lay
        arr, rec, link, head, cnt, mx = POOL[lib][kind]
        m, w, blocks = G.mesh(rng, mem, lib, np=rng.randint(1, 6), alloc_zero=0)
        b = blocks[arr]
        M = b.count - 1
        used, lst = list(range(1, rng.randint(0, M) + 1)), None
        n = len(used)
        setattr(w, mx, M)
        lst = list(range(n + 1, M)) if n < M else []
        if n == M - 1: lst = [M]
        fresh = {k: True for k in lst}
        for _ in range(rng.randint(0, 12)):
            if used and rng.random() < 0.5:
                k = rng.choice(used); used.remove(k); lst.insert(0, k); fresh.pop(k, None)
                if k == n:
                    while n and n not in used: n -= 1
            elif lst:
                k = lst.pop(0); used.append(k); n = max(n, k); fresh.pop(k, None)
        setattr(w, cnt, n)
        setattr(w, head, lst[0] if lst else 0)
        R = TRec(rec)
        for k in range(M + 1):
            e = N.W(lay, b.addr + k * lay.sizeof(R), R)
            if k in lst or k > n or (k and k not in used):
                ctypes_zero(b.addr + k * lay.sizeof(R), lay.sizeof(R))
                if kind == 'Pt' and k not in fresh: e.tag = NUL
                nx = 0
                if k in lst and lst.index(k) + 1 < len(lst): nx = lst[lst.index(k) + 1]
                if link == 'tmp': e.tmp = nx
                else: e.v[int(link[2])] = nx
            else:
                if kind == 'Pt': e.tag = rng.choice((0, 0, BDY, 2, 4)); e.tmp = 0; e.xp = rng.randint(0, max(0, w.xpmax))
                else: e.v[0] = rng.randint(1, 5)
        w.adja = 0
        if rng.random() < 0.8:
            ab = mem.alloc(INT, 5 * (max(w.nemax, w.ntmax) + 2), 'mesh.adja')
            G.fill(rng, lay, ab)
            w.adja = ab.addr
        a = {'mesh': m}
        extra(a, rng, mem, w, used, M, lst)
        return a
    return gen


def ctypes_zero(a, n):
    import ctypes
    ctypes.memset(a, 0, n)


def new(lib, P, kind):
    arr, rec, link, head, cnt, mx = POOL[lib][kind]
    params = {'Elt': ['mesh'], 'Pt': {'mmg3d': ['mesh', 'c', 'tag', 'src'], 'mmg2d': ['mesh', 'c', 'tag'], 'mmgs': ['mesh', 'c', 'n']}[lib]}[kind]
    nc = 2 if lib == 'mmg2d' else 3

    def g1(s, g):
        r = s.ret
        return Ghost(lambda k: Or(g.used(k), Eq(k, r)), lambda k: g.pos(k) - 1, g.pred, g.length - 1, g.last, Ite(tm.le(g.fresh, r), r + 1, g.fresh))

    def requires(s):
        q = pool_req(lib, kind)(s)
        if kind == 'Pt' and lib != 'mmgs': q += [tm.lt(s.pre.tag, NUL), tm.le(0, s.pre.tag)]
        if lib == 'mmg3d' and kind == 'Pt':
            q += [tm.le(0, s.pre.mesh.xp), tm.le(s.pre.mesh.xp, s.pre.mesh.xpmax), Not(s.pre.mesh.xpoint.isnull())]
        return q

    def ensures(s):
        g = ghost0(s, lib, kind)
        m0, m1, r = s.pre.mesh, s.post.mesh, s.ret
        A0, A1 = getattr(m0, arr), getattr(m1, arr)
        none = Eq(getattr(m0, head), 0)
        bdy = And(bit(s.pre.tag, BDY)) if lib == 'mmg3d' and kind == 'Pt' else False
        full = Implies(Eq(r, 0), s.ForAll(1, g.last + 1, lambda k: g.used(k)))
        out = [('refused only when every slot is in use', Or(full, And(bdy, tm.le(m0.xpmax, m0.xp)))),
               ('refused when every slot is in use', Implies(none, Eq(r, 0))),
               ('the number returned was not in use', Implies(Not(Eq(r, 0)), And(tm.le(1, r), tm.le(r, g.last), g.free(r)))),
               ('the counter grows just enough', Implies(Not(Eq(r, 0)), Eq(getattr(m1, cnt), tm.ite(tm.lt(getattr(m0, cnt), r), r, getattr(m0, cnt))) if s.sym else
                                                         getattr(m1, cnt) == max(getattr(m0, cnt), r)))]
        nz = Not(Eq(r, 0))
        if not s.sym and r == 0: return out
        out.append(('the link of the slot is cleared', Implies(nz, Eq(A1[r].cell(link), 0))))
        if kind == 'Pt':
            for i in range(nc): out.append(('coordinate %d of the new point' % i, Implies(nz, Eq(A1[r].cell('c[%d]' % i), s.pre.c[i]))))
            if lib != 'mmgs': out.append(('tag of the new point', Implies(nz, Eq(A1[r].tag, s.pre.tag))))
            else: out.append(('the new point is valid', Implies(nz, ok(kind, A1[r]))))
            if lib == 'mmg3d':
                out.append(('a surface point gets a fresh surface record', Implies(And(nz, bdy), And(Eq(A1[r].xp, m1.xp), Eq(m1.xp, m0.xp + 1), tm.le(m1.xp, m1.xpmax)))))
                out.append(('another point gets none', Implies(And(nz, Not(bdy)), And(Eq(A1[r].xp, 0), Eq(m1.xp, m0.xp)))))
                out.append(('reference and marks are reset', Implies(nz, And(Eq(A1[r].ref, 0), Eq(A1[r].flag, 0), Eq(A1[r].tagdel, 0)))))
        G2 = g1(s, g)
        for nm, q in inv(s, m1, lib, kind, G2): out.append(('after the creation: ' + nm, Implies(nz, q)))
        return out

    def assigns(s):
        m, r = s.pre.mesh, s.ret
        A = getattr(m, arr)
        out = [(m, [head, cnt] + (['xp', 'xpoint', 'xpmax', 'memCur'] if lib == 'mmg3d' and kind == 'Pt' else []))]
        if kind == 'Pt': out.append((A, '*', getattr(m, head), getattr(m, head) + 1))
        else: out.append((A, [link, 'mark', 'ref', 'base', 'edg'] if lib == 'mmg2d' else [link, 'mark'], getattr(m, head), getattr(m, head) + 1))
        return out

    def extra(a, rng, mem, w, used, M, lst):
        if kind == 'Pt':
            a['c'] = G.out(mem, DBL, nc, 'c', rng)
            if 'tag' in params: a['tag'] = rng.choice((0, 2, 4, BDY, BDY + 2, 1))
            if 'src' in params: a['src'] = 1
            if 'n' in params: a['n'] = G.out(mem, DBL, 3, 'n', rng) if rng.random() < 0.7 else 0
            if lib == 'mmg3d':
                w.xp = min(w.xp, max(0, w.xpmax - 1))
                if not w.xpoint: w.xpoint = mem.alloc(TRec('MMG5_xPoint'), w.xpmax + 2, 'mesh.xpoint').addr
    return Contract('%s_new%s' % (P, kind), lib, params, ensures, requires, assigns, gen=gen_pool(lib, kind, extra),
                    sizes={'c': nc, 'n': 3}, nullable=('n',) if lib == 'mmgs' else (), opts={'nonnull_fields': {'MMG5_Mesh.' + arr, 'MMG5_Mesh.xpoint'}})


def delete(lib, P, kind):
    arr, rec, link, head, cnt, mx = POOL[lib][kind]
    idx = 'ip' if kind == 'Pt' else 'iel'

    def requires(s):
        g = ghost0(s, lib, kind)
        i, A = getattr(s.pre, idx), getattr(s.pre.mesh, arr)
        q = pool_req(lib, kind)(s) + [tm.le(1, i), tm.le(i, g.last), g.used(i), tm.lt(i, g.fresh) if kind == 'Pt' else True,
                                      s.ForAll(1, g.last + 1, lambda k: Implies(g.used(k), ok(kind, A[k])))]
        if kind == 'Pt' and lib == 'mmg3d': q += [Not(s.pre.mesh.xpoint.isnull()), tm.le(0, A[i].xp), tm.le(A[i].xp, s.pre.mesh.xpmax)]
        return q

    def ensures(s):
        g = ghost0(s, lib, kind)
        i = getattr(s.pre, idx)
        m0, m1 = s.pre.mesh, s.post.mesh
        h0 = getattr(m0, head)
        G2 = Ghost(lambda k: And(g.used(k), Not(Eq(k, i))), lambda k: Ite(Eq(k, i), 0, g.pos(k) + 1), lambda k: Ite(Eq(k, h0), i, g.pred(k)), g.length + 1, g.last, g.fresh)
        n1 = getattr(m1, cnt)
        A1 = getattr(m1, arr)
        out = [('after the deletion: ' + nm, q) for nm, q in inv(s, m1, lib, kind, G2)]
        out.append(('the deleted number is the next one handed out', Eq(getattr(m1, head), i)))
        out.append(('the deleted slot is not valid any more', Not(ok(kind, A1[i]))))
        out.append(('the counter is the greatest number in use after the last one is deleted',
                    Implies(Eq(i, getattr(m0, cnt)), Or(Eq(n1, 0), G2.used(n1)))))
        out.append(('the counter is unchanged otherwise', Implies(Not(Eq(i, getattr(m0, cnt))), Eq(n1, getattr(m0, cnt)))))
        if kind == 'Elt':
            out.append(('accepted', Eq(s.ret, 1)))
            nf = 4 if lib == 'mmg3d' else 3
            if s.sym or not m1.adja.isnull():
                for q in range(nf): out.append(('adjacency %d cleared' % q, Or(m0.adja.isnull(), Eq(m1.adja[nf * (i - 1) + 1 + q], 0))))
        return out

    def assigns(s):
        m, i = s.pre.mesh, getattr(s.pre, idx)
        out = [(m, [head, cnt]), (getattr(m, arr), '*', i, i + 1)]
        if kind == 'Elt':
            nf = 4 if lib == 'mmg3d' else 3
            out.append((m.adja, '*', nf * (i - 1) + 1, nf * i + 1))
        elif lib == 'mmg3d': out.append((m.xpoint, '*', getattr(m, arr)[i].xp, getattr(m, arr)[i].xp + 1))
        return out

    def extra(a, rng, mem, w, used, M, lst):
        a[idx] = rng.choice(used) if used else 1

    def setup(x, st, s):
        mb = s.pre.mesh._p.base
        gs = []

        def loop_inv(L):
            L.ctx.pre, L.ctx.prest = s.pre, s.prest
            if not gs: gs.append(ghost0(Ghosted(L.ctx), lib, kind))
            g = gs[0]
            i = getattr(s.pre, idx)
            m = S.View(x, L.st, s.pre.mesh._p)
            n = getattr(m, cnt)
            return [('the counter stays inside the array', And(tm.le(0, n), tm.le(n, getattr(s.pre.mesh, cnt)))),
                    ('the slots above the counter are free', L.ctx.ForAll(1, g.last + 1, lambda k: Implies(And(g.used(k), Not(Eq(k, i))), tm.le(k, n))))]
        loops.use_invariants(x, [(lambda x, names, cells: (mb, cnt) in cells and len(cells) == 1, loop_inv,
                                  lambda L: getattr(S.View(x, L.st, s.pre.mesh._p), cnt))])
    return Contract('%s_del%s' % (P, kind), lib, ['mesh', idx], ensures, requires, assigns, gen=gen_pool(lib, kind, extra), ex_setup=setup,
                    opts={'nonnull_fields': {'MMG5_Mesh.' + arr, 'MMG5_Mesh.xpoint'}})


class Ghosted:
    def __init__(s, c): s.sym = True


def alloc(lib, P):
    kinds = ('Pt', 'Elt')

    def requires(s):
        m = s.pre.mesh
        q = [tm.le(0, m.memCur), tm.le(0, m.na), tm.le(0, m.nprism), tm.le(0, m.nquad), tm.le(0, m.nt)]
        for kind in kinds:
            arr, rec, link, head, cnt, mx = POOL[lib][kind]
            q += [tm.le(0, getattr(m, cnt)), tm.le(getattr(m, cnt), getattr(m, mx)), tm.le(1, getattr(m, mx)), tm.le(getattr(m, mx), 100000000)]
        return q

    def ensures(s):
        m1 = s.post.mesh
        done = Not(Eq(s.ret, 0))
        out = []
        for kind in kinds:
            arr, rec, link, head, cnt, mx = POOL[lib][kind]
            n, M = getattr(s.pre.mesh, cnt), getattr(s.pre.mesh, mx)
            last = Ite(tm.lt(n, M - 1), M - 1, M)
            g = Ghost(lambda k, n=n: tm.le(k, n), lambda k, n=n: k - n - 1, lambda k: k - 1, last - n, last, n + 1)
            if s.sym or s.ret:
                for nm, q in inv(s, m1, lib, kind, g): out.append(('%s: %s' % ('points' if kind == 'Pt' else 'elements', nm), Implies(done, q)))
        return out

    def gen(rng, mem, c):
        m, w, b = G.mesh(rng, mem, lib, np=rng.randint(1, 6))
        for f in ('point', 'tetra', 'tria', 'edge', 'prism', 'quadra'): setattr(w, f, 0)
        for kind in kinds:
            arr, rec, link, head, cnt, mx = POOL[lib][kind]
            setattr(w, mx, max(1, getattr(w, cnt) + rng.randint(0, 4)))
        return {'mesh': m}
    return Contract('%s_setMeshSize_alloc' % P, lib, ['mesh'], ensures, requires, None, gen=gen)


def contracts():
    out = []
    for P, lib in (('MMG3D', 'mmg3d'), ('MMG2D', 'mmg2d'), ('MMGS', 'mmgs')):
        for kind in ('Pt', 'Elt'):
            out += [new(lib, P, kind), delete(lib, P, kind)]
        out.append(alloc(lib, P))
    return out
