"""C12 hash tables of edges and faces: what is stored under a key is found under it, everything else is untouched."""
from ..spec import *
from ..spec import Contract, program, N, TRec, TPtr, TInt, _verify
from .. import gens as G, loops
from ..gens import INT

KA, KB = 7, 11


class Kind:
    def __init__(t, name, rec, cell, arr, ident, data):
        t.name, t.rec, t.cell, t.arr, t.ident, t.data = name, rec, cell, arr, ident, data
        t.fields = ident + data


EDGE = Kind('edge', 'MMG5_Hash', 'MMG5_hedge', 'item', ('a', 'b'), ('k', 's'))
FACE = Kind('face', 'MMG5_Hash', 'MMG5_hedge', 'item', ('a', 'b', 's'), ('k',))
GEOM = Kind('geom', 'MMG5_HGeom', 'MMG5_hgeom', 'geom', ('a', 'b'), ('ref', 'tag'))
U16 = TInt(16, False)


def mn(a, b): return Ite(tm.le(a, b), a, b)
def mx(a, b): return Ite(tm.le(a, b), b, a)
def kcode(a, b): return tm.add(tm.mul(KA, a), tm.mul(KB, b))


class Tab:
    """a table and the ghost functions that describe it: bucket and rank of a cell, last cell of a bucket, cell at a rank, cell of a key"""
    def __init__(g, s, t, h, ghost):
        g.s, g.t, g.h = s, t, h
        g.bk, g.rk, g.tl, g.at, g.idx = ghost

    @property
    def arr(g): return getattr(g.h, g.t.arr)

    def cell(g, j): return g.arr[j]

    def used(g, j):
        h = g.h
        return Or(And(tm.lt(j, h.siz), Not(Eq(g.cell(j).a, 0))), And(tm.le(h.siz, j), tm.lt(j, h.nxt)))

    def key(g, a, b): return tm.imod(kcode(a, b), g.h.siz)

    def inv(g):
        s, h, t = g.s, g.h, g.t
        C = g.cell
        allc = lambda f: s.ForAll(0, h.nxt, lambda j: s.If(g.used(j), lambda: f(j)))
        out = [('sizes', And(tm.le(1, h.siz), tm.le(h.siz, h.nxt), tm.le(h.nxt, h.max - 1))),
               ('the free cells are chained in order', s.ForAll(h.nxt, h.max, lambda j: Eq(C(j).nxt, j + 1))),
               ('a bucket starts at its head', s.ForAll(0, h.siz, lambda j: s.If(g.used(j), lambda: And(Eq(g.bk(j), j), Eq(g.rk(j), 0))))),
               ('every cell lies in the bucket of its key', allc(lambda j: And(tm.le(1, C(j).a), tm.le(C(j).a, C(j).b), Eq(g.bk(j), g.key(C(j).a, C(j).b)), tm.le(0, g.bk(j)), tm.lt(g.bk(j), h.siz),
                                                                              tm.le(0, g.rk(j)), s.If(And(tm.le(0, g.bk(j)), tm.lt(g.bk(j), h.siz)), lambda: g.used(g.bk(j)))))),
               ('the chain goes on in the same bucket', allc(lambda j: s.If(Not(Eq(C(j).nxt, 0)), lambda: And(tm.le(h.siz, C(j).nxt), tm.lt(C(j).nxt, h.nxt), Eq(g.bk(C(j).nxt), g.bk(j)),
                                                                                                             Eq(g.rk(C(j).nxt), g.rk(j) + 1))))),
               ('the chain ends at the last cell of the bucket only', allc(lambda j: And(tm.le(g.rk(j), g.rk(g.tl(g.bk(j)))), s.If(Eq(C(j).nxt, 0), lambda: Eq(j, g.tl(g.bk(j))))))),
               ('last cell of a bucket', allc(lambda j: And(tm.le(0, g.tl(g.bk(j))), tm.lt(g.tl(g.bk(j)), h.nxt),
                                                            s.If(And(tm.le(0, g.tl(g.bk(j))), tm.lt(g.tl(g.bk(j)), h.nxt)), lambda: And(g.used(g.tl(g.bk(j))), Eq(C(g.tl(g.bk(j))).nxt, 0),
                                                                                                                                     Eq(g.bk(g.tl(g.bk(j))), g.bk(j))))))),
               ('one cell per rank', allc(lambda j: Eq(g.at(g.bk(j), g.rk(j)), j))),
               ('one cell per key', allc(lambda j: Eq(g.idx(*[getattr(C(j), f) for f in t.ident]), j)))]
        return out

    def present(g, ids):
        s, p = g.s, g.idx(*ids)
        return And(tm.le(0, p), tm.lt(p, g.h.nxt), s.If(And(tm.le(0, p), tm.lt(p, g.h.nxt)), lambda: And(g.used(p), *[Eq(getattr(g.cell(p), f), v) for f, v in zip(g.t.ident, ids)])))

    def bounds(g):
        """values the table may hold (part of the precondition, not of the goals)"""
        s, h, t = g.s, g.h, g.t
        return [tm.le(h.max, 100000000), Not(g.arr.isnull())] + \
            [s.ForAll(0, h.nxt, lambda j: s.If(g.used(j), lambda: And(tm.lt(g.cell(j).a, 1 << 30), tm.lt(g.cell(j).b, 1 << 30))))]


def ghost0(s, t, h):
    """ghost functions of the state before the call"""
    if s.sym:
        A = lambda n: (lambda *a: tm.app('hash_%s!' % n, 'I', *a))
        return A('bucket'), A('rank'), A('tail'), A('at'), A('cell')
    if '_gh' not in s.__dict__:
        bk, rk, tl, at, idx = {}, {}, {}, {}, {}
        arr = getattr(h, t.arr)
        siz, nxt = int(h.siz), int(h.nxt)
        for b in range(siz):
            j, r = b, 0
            while arr[j].a and j not in bk:
                bk[j], rk[j], tl[b], at[b, r] = b, r, j, j
                idx[tuple(int(getattr(arr[j], f)) for f in t.ident)] = j
                j, r = int(arr[j].nxt), r + 1
                if not siz <= j < nxt: break
        D = lambda d, one=True: (lambda *a: d.get(a[0] if one else tuple(int(v) for v in a), -7))
        s._gh = D(bk), D(rk), D(tl), D(at, False), D(idx, False)
    return s._gh


def tab0(s, t): return Tab(s, t, s.pre.hash, ghost0(s, t, s.pre.hash))


def ids_of(s, t, p):
    if t is FACE: return (mn(p.ia, mn(p.ib, p.ic)), mx(p.ia, mx(p.ib, p.ic)), p.ia + p.ib + p.ic)
    return (mn(p.a, p.b), mx(p.a, p.b))


def tab1(s, t, ids):
    """after the insertion of ids"""
    g = tab0(s, t)
    key = g.key(ids[0], ids[1])
    head = g.used(key)
    r = Ite(head, g.h.nxt, key)
    rank = (lambda: Ite(head, g.rk(g.tl(key)) + 1, 0))
    if not s.sym: rank = (lambda v=(g.rk(g.tl(key)) + 1 if head else 0): v)
    pt = lambda f, c, v: (lambda *a: Ite(c(*a), v() if callable(v) else v, f(*a)))
    same = lambda *w: (lambda *a: And(*[Eq(p, q) for p, q in zip(a, w)]))
    gh = pt(g.bk, same(r), key), pt(g.rk, same(r), rank), pt(g.tl, same(key), r), pt(g.at, same(key, rank()), r), pt(g.idx, same(*ids), r)
    return Tab(s, t, s.post.hash, gh), r


def same_cells(s, t, g0, h1, but=None, fields=None, hi=None):
    A1 = getattr(h1, t.arr)
    out = []
    for f in fields or t.fields + ('nxt',):
        out.append(('%s of the other cells' % f, s.ForAll(0, g0.h.nxt if hi is None else hi, lambda j: s.If(And(g0.used(j), *([Not(Eq(j, but))] if but is not None else [])),
                                                                                                    lambda: Eq(getattr(A1[j], f), getattr(g0.cell(j), f))))))
    return out


def header(s, t): return [('sizes kept', And(*[Eq(getattr(s.post.hash, f), getattr(s.pre.hash, f)) for f in ('siz', 'max', 'nxt')]))]


def requires(t, args, mesh=False, more=None):
    def f(s):
        g = tab0(s, t)
        ids = ids_of(s, t, s.pre)
        out = g.bounds() + [q for _, q in g.inv()]
        out += [And(tm.le(1, getattr(s.pre, a)), tm.lt(getattr(s.pre, a), 1 << 29)) for a in args]
        if mesh: out += [tm.le(0, s.pre.mesh.memCur), tm.lt(s.pre.mesh.memCur, s.pre.mesh.memMax), tm.le(s.pre.mesh.memMax, 1 << 50), tm.le(0, s.pre.mesh.gap), tm.le(s.pre.mesh.gap, 1)]
        if s.sym:      # remainder of a division: proved by lemma()
            k = g.key(ids[0], ids[1])
            out += [tm.mk('<=', 'B', 0, k), tm.lt(k, g.h.siz)]
        return out + (more(s, g) if more else [])
    return f


def lemma(x, fn):
    a, m = tm.sym('code', 'I'), tm.sym('modulus', 'I')
    r = tm.mk('tmod', 'I', a, m)
    x.obls.append(S.Obl('lemma: a key is the number of a bucket', [tm.le(0, a), tm.le(1, m)], And(tm.le(0, r), tm.lt(r, m)), None, 'lemma', fn))


def setup(t, fn, style):
    def f(x, st, s):
        lemma(x, fn)
        g = tab0(s, t)
        ids = ids_of(s, t, s.pre)
        key = g.key(ids[0], ids[1])

        def cursor(L):
            c = None
            for k in sorted(names0[0]):
                if k not in L.ids: continue
                v = L.st.env[L.ids[k]]
                if isinstance(v, tuple) or v is S.UNDEF: continue
                if S.is_ptr(v):
                    al = [(c_, p) for c_, p in S.alts(v) if p.base]
                    o = al[-1][1].off
                    for c_, p in reversed(al[:-1]): o = Ite(c_, p.off, o)
                    return o
                c = v
            if c is None: raise Unsupported('no cursor')
            return c

        def inv(L):
            c, p, pr = cursor(L), g.idx(*ids), g.present(ids)
            there = And(tm.le(0, c), tm.lt(c, g.h.nxt), g.used(c), Eq(g.bk(c), key))
            out = [('the cursor stays in the bucket', there if style == 'tested' else Or(there, And(Eq(c, key), Not(g.used(key)))))]
            if style == 'tested': out.append(('not found so far', Implies(pr, tm.lt(g.rk(c), g.rk(p)))))
            else: out.append(('not found so far', Implies(pr, tm.le(g.rk(c), g.rk(p)))))
            return out
        names0 = [()]

        def sel(x, names, cells):
            names0[0] = names
            return not any(k == 'nxt' for _, k in cells)      # not the loop that chains the new cells
        loops.use_invariants(x, [(sel, inv, lambda L: g.rk(g.tl(key)) - g.rk(cursor(L)))])
    return f


class HashContract(Contract):
    """verified with the cursor of the loop on the last cell compared, else with the cursor on the cell to compare"""
    def verify_with(c, r, timeout):
        first = None
        for style in ('tested', 'to test'):
            c.ex_setup = setup(c.t, c.fn, style) if c.loop else (lambda x, st, s: lemma(x, c.fn))
            q = type(r)(c)
            try: _verify(c, q, timeout)
            except Unsupported as e:
                q.undecided = 'unsupported: %s' % e
            if first is None: first = q
            if not q.undecided and not q.refuted and not q.unknown:
                first = q
                break
            if not c.loop: break
        r.__dict__.update(first.__dict__)


# ---------------------------------------------------------------- native tables
def gen_table(rng, mem, t, big=False):
    lay = mem.lay
    hb = mem.alloc(TRec(t.rec), 1, 'hash')
    w = N.W(lay, hb.addr, TRec(t.rec))
    siz = rng.randint(1, 5)
    mxx = siz + rng.randint(1, 5)
    esz = lay.sizeof(TRec(t.cell))
    import ctypes
    src = ctypes.create_string_buffer(esz * (mxx + 1))
    addr = N.heap_copy(ctypes.addressof(src), esz, mxx + 1)
    b = mem.adopt(addr, TRec(t.cell), mxx + 1, 'hash.' + t.arr)
    C = lambda j: N.W(lay, addr + j * esz, TRec(t.cell))
    for j in range(siz, mxx): C(j).nxt = j + 1
    nxt, keys = siz, []
    for _ in range(rng.choice((0, 1, 3, 6, 9))):
        v = sorted(rng.randint(1, 6) for _ in range(3))
        if t is FACE: ids = (v[0], v[2], sum(v))
        else: ids = (v[0], v[2])
        if any(ids == q for q, _ in keys): continue
        key = (KA * ids[0] + KB * ids[1]) % siz
        j = key
        if C(j).a:
            if nxt >= mxx - 1 and rng.random() < 0.9: continue
            if nxt >= mxx: continue
            if nxt + 1 > mxx - 1: continue
            while C(j).nxt: j = C(j).nxt
            C(j).nxt = nxt
            j = nxt
            nxt += 1
        c = C(j)
        for f, q in zip(t.ident, ids): setattr(c, f, q)
        for f in t.data: setattr(c, f, rng.choice((0, 1, 2, 5, 16, 64)))
        c.nxt = 0
        keys.append((ids, tuple(v)))
    w.siz, w.max, w.nxt = siz, mxx, nxt
    setattr(w, t.arr, addr)
    return hb, keys


def gen_keys(rng, t, keys):
    if keys and rng.random() < 0.5:
        v = list(rng.choice(keys)[1])
    else: v = [rng.randint(1, 6) for _ in range(3)]
    if t is FACE:
        rng.shuffle(v)
        return {'ia': v[0], 'ib': v[1], 'ic': v[2]}
    v = [min(v), max(v)]
    rng.shuffle(v)
    return {'a': v[0], 'b': v[1]}


def gen_mesh(rng, mem):
    m, w, b = G.mesh(rng, mem, 'mmg3d')
    w.memCur = 1000; w.memMax = rng.choice((10 ** 7, 10 ** 7, 10 ** 7, 1030, 1090))
    w.gap = rng.choice((0, 0.2, 0.5))
    return m


# ---------------------------------------------------------------- contracts
def insert(fn, t, params, stored, rets, mesh_gen=None, more=None):
    """rets: (value when present, value when inserted); stored(s) -> {field: value}"""
    args = [p for p in params if p in ('a', 'b', 'ia', 'ib', 'ic')]

    def ensures(s):
        ids = ids_of(s, t, s.pre)
        g0 = tab0(s, t)
        pr, p = g0.present(ids), g0.idx(*ids)
        g1, r = tab1(s, t, ids)
        old, new, full = rets(s, g0, p, pr)
        A1 = getattr(s.post.hash, t.arr)
        out = [('the return value tells what was done', Ite(pr, Eq(s.ret, old) if s.sym or pr else True, Or(Eq(s.ret, new), Eq(s.ret, full))))]
        done = And(Not(pr), Eq(s.ret, new), *([Not(Eq(s.ret, full))]))
        I = lambda nm, f: out.append((nm, s.If(done, f)))
        n_ = lambda nm, lst: [I('%s: %s' % (nm, a), (lambda b=b: b)) for a, b in lst] if s.sym else None
        if s.sym or done:
            I('stored', lambda: And(*[Eq(getattr(A1[r], f), v) for f, v in list(zip(t.ident, ids)) + list(stored(s).items())]))
            out += [('inserted, ' + a, Implies(done, b)) for a, b in g1.inv()]
            out += [('inserted, ' + a, Implies(done, b)) for a, b in same_cells(s, t, g0, s.post.hash, fields=t.fields)]
            out.append(('inserted, number of buckets kept', Implies(done, Eq(s.post.hash.siz, s.pre.hash.siz))))
        if s.sym or pr:
            out += [('present, ' + a, Implies(pr, b)) for a, b in header(s, t) + present_cells(s, t, g0, p)]
        return out

    def present_cells(s, t, g0, p):
        upd = on_present(s, g0, p) if on_present else {}
        A1 = getattr(s.post.hash, t.arr)
        out = same_cells(s, t, g0, s.post.hash, fields=[f for f in t.fields + ('nxt',) if f not in upd])
        for f, v in upd.items():
            out += same_cells(s, t, g0, s.post.hash, but=p, fields=[f])
            out.append(('%s of the entry' % f, Eq(getattr(A1[p], f), v)))
        return out
    on_present = None
    if fn == 'MMG5_hashEdgeTag': on_present = lambda s, g0, p: {'k': s.ret}      # which is the former value with the tags added

    def gen(rng, mem, c):
        h, keys = gen_table(rng, mem, t)
        a = {'mesh': gen_mesh(rng, mem), 'hash': h, **gen_keys(rng, t, keys)}
        for p in params:
            if p == 'k': a[p] = rng.randint(1, 50)
            if p == 'ref': a[p] = rng.randint(0, 5)
            if p == 'tag': a[p] = rng.choice((1, 2, 16, 48))
        return a

    def assigns(s):
        return [(s.pre.mesh, ['memCur']), (s.pre.hash, '*'), (tab0(s, t).arr, '*', 0, s.pre.hash.max + 1)]
    c = HashContract(fn, 'mmg3d', params, ensures, requires(t, args, True, more), assigns, gen=gen, trials=600)
    c.t, c.loop = t, True
    return c


def lookup(fn, t, params, result, upd=None, more=None, outs=()):
    args = [p for p in params if p in ('a', 'b', 'ia', 'ib', 'ic')]

    def ensures(s):
        ids = ids_of(s, t, s.pre)
        g0 = tab0(s, t)
        pr, p = g0.present(ids), g0.idx(*ids)
        out = []
        for nm, got, there in result(s, g0, p):
            out.append((nm, Eq(got, Ite(pr, there() if s.sym or pr else 0, 0))))
        if upd:
            u = upd(s, g0, p) if s.sym or pr else {}
            A1 = getattr(s.post.hash, t.arr)
            for f in t.fields + ('nxt',):
                if f in u:
                    out += same_cells(s, t, g0, s.post.hash, but=p, fields=[f])
                    out.append(('%s of the entry' % f, Implies(pr, Eq(getattr(A1[p], f), u[f])) if s.sym or pr else True))
                    out += [('absent, ' + a, Implies(Not(pr), b)) for a, b in same_cells(s, t, g0, s.post.hash, fields=[f])]
                else: out += same_cells(s, t, g0, s.post.hash, fields=[f])
            out += header(s, t)
        return out

    def assigns(s):
        out = [(getattr(s.pre, o), '', 0, 1) for o in outs]
        if upd: out.append((tab0(s, t).arr, list(upd(s, tab0(s, t), 0)), 0, s.pre.hash.nxt))
        return out

    def gen(rng, mem, c):
        h, keys = gen_table(rng, mem, t)
        a = {'hash': h, **gen_keys(rng, t, keys)}
        for p in params:
            if p in outs: a[p] = G.out(mem, U16 if p == 'tag' else INT, 1, p, rng)
            elif p == 'k': a[p] = rng.randint(1, 50)
            elif p == 'ref': a[p] = rng.randint(0, 5)
            elif p == 'tag': a[p] = rng.choice((1, 2, 16, 48))
        return a
    c = HashContract(fn, 'mmg3d', params, ensures, requires(t, args, False, more), assigns, gen=gen, trials=600, sizes={o: 1 for o in outs})
    c.t, c.loop = t, True
    return c


def new(fn, t):
    def ensures(s):
        h = s.post.hash
        A = getattr(h, t.arr)
        ok = Eq(s.ret, 1)
        D = lambda f: s.If(ok, f)
        return [('result', Or(Eq(s.ret, 1), Eq(s.ret, 0))),
                ('sizes', Implies(ok, And(Eq(h.siz, s.pre.hsiz + 1), Eq(h.max, s.pre.hmax + 2), Eq(h.nxt, h.siz)))),
                ('every bucket is empty', D(lambda: s.ForAll(0, h.siz, lambda j: And(Eq(A[j].a, 0), Eq(A[j].nxt, 0))))),
                ('the free cells are chained in order', D(lambda: s.ForAll(h.nxt, h.max, lambda j: Eq(A[j].nxt, j + 1)))),
                ('the rest of the cells is blank', D(lambda: s.ForAll(0, h.max + 1, lambda j: And(*[Eq(getattr(A[j], f), 0) for f in t.fields]))))]

    def req(s):
        m = s.pre.mesh
        return [tm.le(0, s.pre.hsiz), tm.le(s.pre.hsiz, s.pre.hmax), tm.le(s.pre.hmax, 90000000), tm.le(0, m.memCur), tm.lt(m.memCur, m.memMax), tm.le(m.memMax, 1 << 50)]

    def gen(rng, mem, c):
        hb = mem.alloc(TRec(t.rec), 1, 'hash')
        G.fill(rng, mem.lay, hb)
        m = gen_mesh(rng, mem)
        a = rng.randint(0, 9)
        return {'mesh': m, 'hash': hb, 'hsiz': a, 'hmax': a + rng.randint(0, 9)}
    return Contract(fn, 'mmg3d', ['mesh', 'hash', 'hsiz', 'hmax'], ensures, req, lambda s: [(s.pre.mesh, ['memCur']), (s.pre.hash, '*')], gen=gen, trials=200)


def tagged(s, g): return [s.ForAll(0, g.h.nxt, lambda j: s.If(g.used(j), lambda: And(tm.le(0, g.cell(j).k), tm.lt(g.cell(j).k, 65536)))), tm.le(1, s.pre.tag), tm.lt(s.pre.tag, 65536)]


def contracts():
    out = [new('MMG5_hashNew', EDGE), new('MMG5_hNew', GEOM)]
    out.append(insert('MMG5_hashEdge', EDGE, ['mesh', 'hash', 'a', 'b', 'k'], lambda s: {'k': s.pre.k}, lambda s, g, p, pr: (1, 2, 0)))
    out.append(insert('MMG5_hashEdgeTag', EDGE, ['mesh', 'hash', 'a', 'b', 'tag'], lambda s: {'k': s.pre.tag},
                      lambda s, g, p, pr: ((tm.bitor(g.cell(p).k, s.pre.tag) if s.sym else int(g.cell(p).k) | s.pre.tag if pr else 0), s.pre.tag, 0), more=tagged))
    out.append(insert('MMG5_hashFace', FACE, ['mesh', 'hash', 'ia', 'ib', 'ic', 'k'], lambda s: {'k': s.pre.k}, lambda s, g, p, pr: (g.cell(p).k if s.sym or pr else 0, -1, 0),
                      more=lambda s, g: [s.ForAll(0, g.h.nxt, lambda j: s.If(g.used(j), lambda: tm.le(1, g.cell(j).k)))]))
    out.append(insert('MMG5_hEdge', GEOM, ['mesh', 'hash', 'a', 'b', 'ref', 'tag'], lambda s: {'ref': s.pre.ref, 'tag': s.pre.tag}, lambda s, g, p, pr: (1, 1, 0)))
    out.append(lookup('MMG5_hashGet', EDGE, ['hash', 'a', 'b'], lambda s, g, p: [('value stored for the edge', s.ret, lambda: g.cell(p).k)]))
    out.append(lookup('MMG5_hashGetFace', FACE, ['hash', 'ia', 'ib', 'ic'], lambda s, g, p: [('value stored for the face', s.ret, lambda: g.cell(p).k)]))
    out.append(lookup('MMG5_hashUpdate', EDGE, ['hash', 'a', 'b', 'k'], lambda s, g, p: [('found', s.ret, lambda: 1)], upd=lambda s, g, p: {'k': s.pre.k}))
    out.append(lookup('MMG5_hGet', GEOM, ['hash', 'a', 'b', 'ref', 'tag'], lambda s, g, p: [('found', s.ret, lambda: 1), ('reference', s.post.ref[0], lambda: g.cell(p).ref),
                                                                                         ('tags', s.post.tag[0], lambda: g.cell(p).tag)], outs=('ref', 'tag')))
    out.append(lookup('MMG5_hTag', GEOM, ['hash', 'a', 'b', 'ref', 'tag'], lambda s, g, p: [('found', s.ret, lambda: 1)],
                      upd=lambda s, g, p: {'ref': Ite(Eq(s.pre.ref, 0), g.cell(p).ref, s.pre.ref), 'tag': tm.bitor(g.cell(p).tag, s.pre.tag) if s.sym else int(g.cell(p).tag) | s.pre.tag}))
    return out
