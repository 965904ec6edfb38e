"""C06: splitting patterns of a tetrahedron"""
import ctypes, random, math
from itertools import permutations, product
from ..spec import *
from .. import simplex as sx
from ..spec import Contract, program, frame, discharge, fun_params

ASSUMPTIONS = ['the element, point and boundary-data arrays have room for the new entities (the reallocation branches are not entered)',
               'the quality and interpolation routines called by the splits write nothing but their result']
IARE = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
FACES = [[i for i in range(4) if i != f] for f in range(4)]
FLAGS = {
    'split1': [1, 2, 4, 8, 16, 32],
    'split2sf': [48, 24, 40, 6, 34, 36, 20, 5, 17, 9, 3, 10],
    'split2': [33, 18, 12],
    'split3': [11, 21, 38, 56],
    'split3cone': [7, 25, 42, 52],
    'split3op': [35, 19, 13, 37, 22, 28, 26, 14, 49, 50, 44, 41],
    'split4sf': [23, 29, 53, 60, 57, 58, 27, 15, 43, 39, 54, 46],
    'split4op': [30, 45, 51],
    'split5': [62, 61, 59, 55, 47, 31],
    'split6': [63],
}
NOREF = 0xfffe


def marked_of(flag): return {IARE[e] for e in range(6) if flag >> e & 1}


def label_error(children, flag, rank, bar=False):
    m = marked_of(flag)
    return sx.tiling(children, 3) or sx.edge_error(children, m, 3) or sx.face_error(children, m, rank)


def data_goals(s, par, child, lab, combo):
    """expected data of the faces and edges of a child; par/child: accessors of (field, index)"""
    out = []
    for f in range(4):
        F = sx.locate([lab[j] for j in range(4) if j != f], 3)
        if len(F) == 3:
            P = ({0, 1, 2, 3} - set(F)).pop()
            out.append(('face %d inherits the data of face %d' % (f, P), s.And(
                s.Eq(child('ref', f), par('ref', P)), s.Eq(child('ftag', f), par('ftag', P)),
                s.Eq(bit_of(s, child('ori', None), f), bit_of(s, par('ori', None), P)))))
        else:
            out.append(('interior face %d carries no data' % f, s.And(s.Eq(child('ref', f), 0), s.Eq(child('ftag', f), 0),
                                                                     s.Eq(bit_of(s, child('ori', None), f), 1))))
    for e, (a, b) in enumerate(IARE):
        L = sx.locate([lab[a], lab[b]], 3)
        if len(L) == 2:
            P = IARE.index(L)
            out.append(('edge %d inherits the data of edge %d' % (e, P), s.And(s.Eq(child('edg', e), par('edg', P)),
                                                                              s.Eq(child('tag', e), par('tag', P)))))
        elif len(L) == 3:
            P = ({0, 1, 2, 3} - set(L)).pop()
            out.append(('edge %d inside face %d has its tag without the reference bit' % (e, P), s.And(
                s.Eq(child('edg', e), 0), s.Eq(child('tag', e), noref(s, par('ftag', P))))))
        else:
            out.append(('interior edge %d carries no data' % e, s.And(s.Eq(child('edg', e), 0), s.Eq(child('tag', e), 0))))
    return out


def bit_of(s, v, i):
    if s.mode == 'nat': return (int(v) >> i) & 1
    return tm.ite(tm.eq(tm.bitand(v, 1 << i), 0), 0, 1)


def noref(s, v):
    if s.mode == 'nat':
        v = int(v) & NOREF
        return v
    return tm.bitand(v, NOREF)


def rebuilt_list(x, st, mb, arr, link, cnt, mx, n):
    """the list of free slots the code builds after it enlarged the array"""
    ld = lambda key: x.load1(st, mb, key, 0, None)
    tb = [q.base for _, q in S.alts(x.load1(st, mb, arr, 0, None)) if q.base]
    if len(tb) != 1: raise Unsupported('table of the mesh')
    head, last = ld('nenil'), tm.sub(ld(mx), 1)
    o = tm.fresh('o', 'I')
    nx = lambda k: x.load1(st, tb[0], link, k, None)
    x.oblige(st, tm.and_(tm.eq(head, tm.add(ld(cnt), 1)), tm.le(head, tm.add(last, 1))), 'the new list of free elements starts after the last element', n.line, 'ensures')
    x.oblige(st, tm.implies(tm.and_(tm.le(head, o), tm.lt(o, last)), tm.eq(nx(o), tm.add(o, 1))), 'the new free elements are linked in order', n.line, 'ensures')
    x.oblige(st, tm.implies(tm.and_(tm.le(head, last), tm.lt(x.oldmax, last)), 
             tm.and_(tm.or_(tm.eq(nx(last), 0), tm.and_(tm.eq(nx(last), tm.add(last, 1)), tm.eq(nx(tm.add(last, 1)), 0))), tm.eq(x.load1(st, tb[0], 'v[0]', last, None), 0))),
             'the list of free elements ends inside the array', n.line, 'ensures')


def new_element(x, st, a, n):
    i = st.ghost.get('nalloc', 0)
    if not isinstance(i, int): raise Unsupported('number of allocations')
    st.ghost['nalloc'] = i + 1
    if x.enl == ('elements', i): return 0
    r = tm.fresh('elt', 'I')
    tm.DISTINCT.add(r.id)
    mb = a[0].base
    if x.enl and x.enl[0] == 'elements' and i == x.enl[1] + 1: rebuilt_list(x, st, mb, 'tetra', 'v[3]', 'ne', 'nemax', n)
    cur, lim = x.load1(st, mb, 'ne', 0, None), x.load1(st, mb, 'nemax', 0, None)
    st.asm += [tm.mk('<=', 'B', 1, r), tm.le(r, lim)]
    x.store1(st, mb, 'ne', 0, tm.ite(tm.lt(cur, r), r, cur))
    x.newidx.append(r)
    return r


def fresh_real(name):
    return lambda x, st, a, n: tm.fresh(name, 'R')


def noop(x, st, a, n): return 1


QUAL = {q: fresh_real('qual') for q in ('MMG5_orcal', 'MMG5_caltet_iso', 'MMG5_caltet33_ani', 'MMG5_caltet_ani', 'MMG5_caltet')}
POLICY = {**QUAL, 'MMG3D_newElt': new_element,
          'MMG5_interp4bar': noop, 'MMG5_interp4bar33_ani': noop}


def current_tables(x, st, v):
    """the block(s) a pointer of the mesh may designate on this path"""
    al = [(c, q) for c, q in S.alts(v) if q.base]
    if len(al) > 1:
        h = list(st.pc) + list(st.asm)
        al = [(c, q) for c, q in al if prove.satisfiable(h + [c], 5) != prove.z3.unsat]
    return list(dict.fromkeys(q.base for _, q in al))


class Group:
    def __init__(s, name): s.name, s.g = name, []


class Split(Contract):
    moves = True                # executions with full arrays

    def __init__(c, fn, kind, flag, glob=False, native=True):
        Contract.__init__(c, fn, 'mmg3d', [], name='%s[%s]' % (fn, flag), trials=400)
        c.kind, c.flag, c.glob = kind, flag, glob
        c.native = native
        c.opts = {}
        c.policy = POLICY
        c.ran = []
        c.cost = 10 if kind in ('split4sf', 'split4op', 'split3op', 'split3cone', 'split5') else 2

    # ---------------------------------------------------------------- symbolic
    def combos(c):
        yield None                                  # no boundary data at all
        for m in range(1, 16): yield m

    def enlargements(c, nkids):
        """allocations at which the element array / the boundary array is full and has to move"""
        for i in sorted({0, nkids - 2}):
            yield ('elements', i)
            yield ('boundary data', i)

    def setup(c, perm, combo, enl=None):
        """-> executor, state, args of one execution: order of the vertices, set of boundary faces"""
        tm.DISTINCT.clear(); tm.ORDER.clear(); tm.ORDERLOG.clear()
        P = program(c.lib)
        f = P.find(c.fn)
        if f is None: raise Unsupported('function %s not found' % c.fn)
        tu, fn = f
        x = S.Exec(P, dict(c.policy))
        x.newidx = []
        x.enl = enl
        x.exempt_alloc_fail = bool(enl)        # a split that runs out of memory half way is not described
        x.nonnull_fields = {'MMG5_Mesh.tetra', 'MMG5_Mesh.xtetra', 'MMG5_Mesh.point'}
        x.base_tu = tu
        x.fnstack.append((tu, '', fn, None))
        st = S.St()
        ps = fun_params(fn)
        names = [p.name for p in ps]
        args = {}
        hyp = []
        for p in ps:
            if isinstance(p.ty, TPtr):
                b = x.new_block(p.name, p.ty.to, 1 if isinstance(p.ty.to, TRec) else None)
                args[p.name] = S.Ptr(b, 0, '', None, p.ty.to)
            else: args[p.name] = x.load_conv(tm.sym('p_' + p.name, x.storesort(p.ty)), p.ty)
        I64 = fun_params(fn)
        mesh = S.View(x, st, args['mesh'])
        k = tm.sym('gnp_k0', 'I')
        X = tm.sym('gnn_X', 'I')
        hyp += [tm.mk('<=', 'B', 1, k), tm.mk('<=', 'B', 100 if enl else 1, X)]
        tm.DISTINCT.add(k.id)
        tb, xb = mesh.tetra._p.base, mesh.xtetra._p.base
        c.tb, c.xb = tb, xb
        mb = args['mesh'].base
        t0 = tm.sym('gnn_a', 'I')
        xt0 = tm.add(X, t0)
        tm.GNN[0] = True
        for q in ('a', 'b', 'c', 'd'): hyp.append(tm.mk('<=', 'B', 0, tm.sym('gnn_' + q, 'I')))
        x.store1(st, mb, 'xt', 0, xt0)
        if enl and enl[0] == 'boundary data': x.store1(st, mb, 'xtmax', 0, tm.add(xt0, enl[1]))
        else: x.store1(st, mb, 'xtmax', 0, tm.add(tm.add(xt0, 16), tm.sym('gnn_b', 'I')))
        ne = tm.add(k, tm.sym('gnn_c', 'I'))
        for q in c.others(x): ne = tm.add(ne, q)
        x.store1(st, mb, 'ne', 0, ne)
        x.store1(st, mb, 'nemax', 0, tm.add(ne, tm.sym('gnn_d', 'I')))
        x.oldmax = tm.add(ne, tm.sym('gnn_d', 'I'))
        hyp += [tm.lt(Fraction(0), x.load1(st, mb, 'gap', 0, None)), tm.le(0, x.load1(st, mb, 'memCur', 0, None))]
        if enl:   # the usual growth of 20 %, far from the limits of the memory and of the integer type: the arrays do not move twice in one split
            x.store1(st, mb, 'gap', 0, Fraction(1, 5))
            tot = tm.add(x.load1(st, mb, 'nemax', 0, None), x.load1(st, mb, 'xtmax', 0, None))
            hyp += [tm.le(tot, 10 ** 8), tm.le(tm.add(x.load1(st, mb, 'memCur', 0, None), tm.mul(10000, tot)), x.load1(st, mb, 'memMax', 0, None))]
        v = [tm.sym('vert%d' % i, 'I') for i in range(4)]
        ip = {}
        for e in range(6):
            if c.flag >> e & 1 or c.kind == 'bar':
                ip[e] = tm.sym('ip%d' % e, 'I')
        labs = {}
        for i in range(4): labs[v[i].id] = ('v', i)
        for e, t in ip.items(): labs[t.id] = ('e',) + IARE[e]
        for t in v + list(ip.values()): tm.DISTINCT.add(t.id); hyp.append(tm.le(1, t))
        rank = {perm[i]: i for i in range(4)}
        order = list(v)
        if c.glob:
            order = [tm.sym('glob%d' % i, 'I') for i in range(4)]
            for i in range(4): x.store1(st, args['vGlobNum'].base, '', i, order[i])
        for i in range(4): tm.ORDER[order[i].id] = rank[i]
        for i in range(3): hyp.append(tm.lt(order[perm[i]], order[perm[i + 1]]) if False else tm.mk('<=', 'B', tm.add(order[perm[i]], 1), order[perm[i + 1]]))
        for i in range(4): x.store1(st, tb, 'v[%d]' % i, k, v[i])
        x.store1(st, tb, 'flag', k, c.flag)
        x.store1(st, tb, 'xt', k, 0 if combo is None else X)
        if combo is not None:
            for F in range(4):
                if combo >> F & 1:
                    r = x.load1(st, xb, 'ref[%d]' % F, X, None)
                    g = x.load1(st, xb, 'ftag[%d]' % F, X, None)
                    hyp.append(tm.or_(tm.not_(tm.eq(r, 0)), tm.not_(tm.eq(g, 0))))
                else:
                    x.store1(st, xb, 'ref[%d]' % F, X, 0)
                    x.store1(st, xb, 'ftag[%d]' % F, X, 0)
        c.place(x, st, args, k, ip, tb, labs, hyp)
        st.asm += hyp
        memo = {}

        def dec(s2, cnd):
            if not isinstance(cnd, T): return cnd
            if any('isnull' in y.a[0] or y.a[0].startswith('p_') for y in tm.syms(cnd)): return cnd
            key = (cnd.id, tuple(getattr(q, 'id', 0) for q in s2.pc), tuple(getattr(q, 'id', 0) for q in s2.asm))
            if key not in memo: memo[key] = x.ask(s2, cnd)
            return memo[key]
        x.solver_decide = dec
        ctx = dict(x=x, st=st, tu=tu, fn=fn, args=[args[n] for n in names], k=k, X=X, xt0=xt0, labs=labs, rank=rank, tb=tb, xb=xb, mb=mb)
        return ctx

    def others(c, x): return []

    def place(c, x, st, args, k, ip, tb, labs, hyp):
        args['k'] = k
        for e in range(6): x.store1(st, args['vx'].base, '', e, ip.get(e, 0))

    def orders(c):
        """orders of the vertices; one that agrees with every comparison made by an earlier execution follows its path"""
        return list(permutations(range(4)))

    def verify_with(c, r, timeout):
        nrun = 0
        for combo in c.combos():
            logs = []
            for perm in c.orders():
                rank = {perm[i]: i for i in range(4)}
                if any(all(rank_lt(rank, perm0, a, b) for a, b in lg) for perm0, lg in logs): continue
                k = c.setup(perm, combo)
                n0 = len(tm.ORDERLOG)
                c.one(k, combo, r, timeout, '%s order %s faces %s' % (c.name, ''.join(map(str, perm)), 'none' if combo is None else format(combo, '04b')))
                logs.append((perm, [(perm[a], perm[b]) for a, b in set(tm.ORDERLOG)]))
                nrun += 1
                if combo == 15:
                    for enl in c.enlargements(c.nkids):
                        if len(logs) > 1: break
                        k = c.setup(perm, combo, enl)
                        c.one(k, combo, r, timeout, '%s order %s %s enlarged at allocation %d' % (c.name, ''.join(map(str, perm)), *enl))
                        nrun += 1
        tm.DISTINCT.clear(); tm.ORDER.clear()
        r.reach = nrun

    def one(c, k, combo, r, timeout, tag):
        x, st = k['x'], k['st']
        q = st.clone()
        rets = x.run_fn(k['tu'], k['fn'], list(k['args']), q)
        if not rets: raise Unsupported('no return path')
        r.inlined |= x.inlined
        obls = list(x.obls)
        for qs, ret in rets:
            if x.enl and isinstance(ret, T):        # what follows is for the splits that found the memory they need
                qs = qs.clone()
                qs.pc.append(tm.not_(tm.eq(ret, 0)))
            hyp = list(qs.pc) + list(qs.asm)
            goals = c.post(k, qs, ret, combo, x)
            for nm, g in goals: obls.append(S.Obl('%s / %s' % (tag, nm), hyp, tm.truth(g), None, 'ensures', c.fn))
            if x.enl and is_zero(ret): continue
            for nm, g in c.frame(k, qs, x): obls.append(S.Obl('%s / frame %s' % (tag, nm), hyp, tm.truth(g), None, 'frame', c.fn))
        for o in obls:
            discharge(o, timeout)
            r.obls.append(o)
            if o.status == 'refuted': r.refuted.append(o)
            elif o.status != 'proved': r.unknown.append(o)

    def vertex(c, k, t, hyp=None):
        return k['labs'].get(t.id) if isinstance(t, T) else None

    def children(c, k, qs, x):
        return [k['k']] + [i for i in x.newidx if not any(i is y for y in x.newpts)] if hasattr(x, 'newpts') else [k['k']] + list(x.newidx)

    def post(c, k, qs, ret, combo, x):
        s = Ctx('sym'); s.x = x
        out = []
        if x.enl and is_zero(ret): return [('refused for lack of memory', True)]
        cur = lambda st, f: current_tables(x, st, x.load1(st, k['mb'], f, 0, None))
        tb, xb = k['tb'], k['xb']
        T2, X2 = cur(qs, 'tetra'), cur(qs, 'xtetra')
        if len(T2) != 1 or len(X2) != 1: raise Unsupported('tables of the mesh')

        def ld(st, b, key, o):
            if st is qs: b = T2[0] if b == tb else X2[0] if b == xb else b
            t = x.load1(st, b, key, o, None)
            while x.enl and isinstance(t, T) and t.op == 'ite':
                d = x.ask(st, t.a[0])
                if not isinstance(d, bool): break
                t = t.a[1] if d else t.a[2]
            return t
        out.append(('the split succeeds', tm.not_(tm.eq(ret, 0))))
        kids = c.children(k, qs, x)
        c.nkids = len(kids)
        labels = []
        for n, i in enumerate(kids):
            l = []
            for j in range(4):
                t = ld(qs, tb, 'v[%d]' % j, i)
                q = c.vertex(k, t)
                if q is None:
                    out.append(('vertex %d of child %d is a vertex of the parent or the point of a marked edge' % (j, n), False))
                    return out
                l.append(q)
            labels.append(tuple(l))
        err = label_error(labels, c.eff_flag(), k['rank'])
        out.append(('the children tile the parent and cut its edges and faces as their neighbours do' + (': ' + err if err else ''), err is None))
        if err: return out
        used = []
        for n, (i, lab) in enumerate(zip(kids, labels)):
            g = [tm.eq(ld(qs, tb, 'ref', i), ld(k['st'], tb, 'ref', k['k'])), tm.eq(ld(qs, tb, 'tag', i), ld(k['st'], tb, 'tag', k['k'])),
                 tm.eq(ld(qs, tb, 'flag', i), 0)]
            out.append(('child %d inherits reference and tag, and is unmarked' % n, tm.and_(*g)))
            bnd = combo is not None and any(
                len(F) == 3 and combo >> ({0, 1, 2, 3} - set(F)).pop() & 1
                for F in (sx.locate([lab[j] for j in range(4) if j != f], 3) for f in range(4)))
            xi = ld(qs, tb, 'xt', i)
            if not bnd:
                out.append(('child %d has no boundary face and no boundary record' % n, tm.eq(xi, 0)))
                continue
            out.append(('child %d has a boundary record' % n, tm.and_(tm.or_(tm.eq(xi, k['X']), tm.and_(
                tm.lt(k['xt0'], xi), tm.le(xi, ld(qs, k['mb'], 'xt', 0)))), *[tm.not_(tm.eq(xi, u)) for u in used])))
            used.append(xi)
            key = lambda f, j: f if j is None else '%s[%d]' % (f, j)
            par = lambda f, j: ld(k['st'], xb, key(f, j), k['X'])
            chi = lambda f, j: ld(qs, xb, key(f, j), xi)
            for nm, g in data_goals(s, par, chi, lab, combo): out.append(('child %d: %s' % (n, nm), g))
        out.append(('as many new boundary records as needed', tm.eq(ld(qs, k['mb'], 'xt', 0), tm.add(k['xt0'], max(0, len(used) - 1)))))
        if not x.enl: out.append(('room left in the boundary data', tm.eq(ld(qs, k['mb'], 'xtmax', 0), ld(k['st'], k['mb'], 'xtmax', 0))))
        else: out.append(('the boundary records fit in their array', tm.le(ld(qs, k['mb'], 'xt', 0), ld(qs, k['mb'], 'xtmax', 0))))
        return out

    def eff_flag(c): return c.flag

    def frame(c, k, qs, x):
        tb, xb, mb = k['tb'], k['xb'], k['mb']
        if x.enl:
            # the arrays may have moved: every other element and record keeps its value in the new array
            for f, b, own, lim in (('tetra', tb, [k['k']] + list(x.newidx), 'ne'), ('xtetra', xb, [k['X']] + [tm.add(k['xt0'], i) for i in range(1, 9)], 'xt')):
                b2 = current_tables(x, qs, x.load1(qs, mb, f, 0, None))[0]
                for key in [q for bb, q in list(qs.heap) if bb == b2]:
                    ch, old = qs.heap[(b2, key)], k['st'].heap.get((b, key)) or x.init_chain(b, key)
                    if b == b2 and (ch is old or chain_within(ch, old, own)): continue
                    o = tm.fresh('o', 'I')
                    yield '%s.%s' % (f, key), tm.or_(tm.lt(o, 1), tm.lt(x.load1(k['st'], mb, lim, 0, None), o), *[tm.eq(o, i) for i in own],
                                                     tm.eq(S.read(ch, o), S.read(old, o)))
            return
        ok = {tb: [k['k']] + list(x.newidx), xb: [k['X']] + [tm.add(k['xt0'], i) for i in range(1, 9)], mb: None}
        for (base, key), ch in qs.heap.items():
            if base < 0: continue
            bl = x.blocks[base]
            if bl.const is not None: continue
            old = k['st'].heap.get((base, key)) or x.init_chain(base, key)
            if ch is old: continue
            if base == mb:
                if key in ('xt', 'ne', 'nenil'): continue
                yield 'mesh.%s' % key, tm.eq(S.read(ch, 0), S.read(old, 0)) if not S.is_ptr(S.read(ch, 0)) else S.ptr_eq(S.read(ch, 0), S.read(old, 0))
                continue
            if base in ok:
                o = tm.fresh('o', 'I')
                g = tm.or_(*[tm.eq(o, i) for i in ok[base]])
                if chain_within(ch, old, ok[base]): continue
                yield '%s.%s' % (bl.name, key), tm.or_(g, tm.eq(S.read(ch, o), S.read(old, o)))
                continue
            o = tm.fresh('o', 'I')
            yield '%s.%s' % (bl.name, key), tm.eq(S.read(ch, o), S.read(old, o))

    # ---------------------------------------------------------------- executions
    def native_child(c, seed, trials, so, budget, only=None, hint=None):
        tu, fn = program(c.lib).find(c.fn)
        lib = N.load(so)
        lay = N.Lay(tu)
        qual = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p)(lambda a, b, t: 1.0)
        ctypes.c_void_p.in_dll(lib, 'MMG5_caltet').value = ctypes.cast(qual, ctypes.c_void_p).value
        cf = getattr(lib, c.fn)
        ps = fun_params(fn)
        cf.restype = N.ctype(tu.ptype(tu.funs[c.fn]['type']['qualType']).ret)
        cf.argtypes = [N.ctype(p.ty) for p in ps]
        done = 0
        hits = {}
        for t in range(trials):
            if only is not None and t not in only: continue
            rng = random.Random('%s/%s/%d' % (seed, c.name, t))
            w = World(lay, rng)
            bad, ret = c.trial(w, rng, cf, ps, t)
            done += 1
            hits[str(ret)] = hits.get(str(ret), 0) + 1
            if bad: return {'fail': bad, 'trial': t, 'seed': seed, 'args': w.desc(), 'done': done, 'hits': hits, 'ret': str(ret)}
        return {'done': done, 'rejected': 0, 'hits': hits}

    def nat_args(c, w, rng, ps, perm):
        a = {'mesh': w.mesh.addr, 'met': w.met.addr, 'k': w.k, 'vx': w.vx(c.flag), 'metRidTyp': rng.randrange(2), 'vGlobNum': 0}
        if c.glob:
            b = w.mem.alloc(TInt(w.iw, True), 4, 'glob')
            base = 100 * rng.randrange(1, 9)
            step = rng.randrange(1, 9)
            for i in range(4): N.poke(b.addr + i * w.iw // 8, TInt(w.iw, True), base + perm.index(i) * step)
            a['vGlobNum'] = b.addr
        return a

    def trial(c, w, rng, cf, ps, t):
        perm = rng.sample(range(4), 4)
        combo = rng.choice([None] + list(range(1, 16)))
        w.build(perm if not c.glob else rng.sample(range(4), 4), combo, c.flag, rng)
        if c.moves and rng.random() < 0.4: w.full(rng.choice(('elements', 'elements', 'boundary data')), rng.randrange(0, 6))
        a = c.nat_args(w, rng, ps, perm)
        rank = {perm[i]: i for i in range(4)}
        w.snap()
        with N.quiet(): ret = cf(*[a[p.name] for p in ps])
        return c.judge(w, ret, rank, combo), ret

    def judge(c, w, ret, rank, combo):
        if ret == 0: return 'ensures "the split succeeds" is false'
        s = Ctx('nat')
        kids = w.kids()
        labels = []
        for i in kids:
            l = [w.lab.get(w.M.tetra[i].v[j]) for j in range(4)]
            if None in l: return 'ensures "vertices of the children" is false'
            labels.append(tuple(l))
        err = label_error(labels, c.eff_flag(), rank)
        if err: return 'the children do not tile the parent: ' + err
        used = []
        for n, (i, lab) in enumerate(zip(kids, labels)):
            t = w.M.tetra[i]
            if t.ref != w.ptet['ref'] or t.tag != w.ptet['tag'] or t.flag != 0: return 'child %d does not inherit reference and tag' % n
            bnd = combo is not None and any(
                len(F) == 3 and combo >> ({0, 1, 2, 3} - set(F)).pop() & 1
                for F in (sx.locate([lab[j] for j in range(4) if j != f], 3) for f in range(4)))
            if not bnd:
                if t.xt: return 'child %d without boundary face has a boundary record' % n
                continue
            if t.xt in used or not (t.xt == w.X or w.xt0 < t.xt <= w.M.xt): return 'child %d: boundary record %d' % (n, t.xt)
            used.append(t.xt)
            xr = w.M.xtetra[t.xt]
            par = lambda f, j: w.pxt[f if j is None else '%s[%d]' % (f, j)]
            chi = lambda f, j: getattr(xr, f) if j is None else getattr(xr, f)[j]
            for nm, g in data_goals(s, par, chi, lab, combo):
                if not g: return 'child %d: %s: false' % (n, nm)
        if w.M.xt != w.xt0 + max(0, len(used) - 1): return 'boundary record count'
        return w.frame(set(kids), set(used) | {w.X})


def rank_lt(rank, perm0, a, b): return rank[a] < rank[b]


def chain_within(ch, old, allowed):
    while ch is not old:
        if ch.kind == 'store':
            if not any(tm.eq(ch.d[0], i) is True for i in allowed): return False
            ch = ch.prev
        elif ch.kind == 'ite':
            return chain_within(ch.d[1], old, allowed) and chain_within(ch.d[2], old, allowed)
        else: return False
        if ch is None: return old is None
    return True


class World:
    """a native mesh holding one tetrahedron to split"""
    NE, NX, NP = 24, 40, 16

    def __init__(w, lay, rng):
        w.lay = lay
        w.enl = None
        w.mem = N.NMem(lay)
        w.iw = dict(lay.tu.fields('MMG5_Tetra'))['ref'].w

    def build(w, perm, combo, flag, rng):
        lay, mem = w.lay, w.mem
        w.mesh = mem.alloc(TRec('MMG5_Mesh'), 1, 'mesh')
        w.met = mem.alloc(TRec('MMG5_Sol'), 1, 'met')
        w.tet = mem.alloc(TRec('MMG5_Tetra'), w.NE, 'tetra')
        w.xtet = mem.alloc(TRec('MMG5_xTetra'), w.NX, 'xtetra')
        w.pts = mem.alloc(TRec('MMG5_Point'), w.NP, 'point')
        M = w.M = N.W(lay, w.mesh.addr, TRec('MMG5_Mesh'))
        M.tetra = w.tet.addr; M.xtetra = w.xtet.addr; M.point = w.pts.addr
        M.ne = w.NE - 12; M.nemax = w.NE - 1; M.nenil = w.NE - 11; M.np = 11; M.npmax = w.NP - 1; M.npnil = 12
        M.ver = 2; M.dim = 3
        for i in range(M.nenil, w.NE): M.tetra[i].v[3] = i + 1 if i < w.NE - 1 else 0
        for i in range(12, w.NP): M.point[i].tmp = i + 1 if i < w.NP - 1 else 0
        # vertices: increasing global indices along perm, edge points above
        ids = sorted(rng.sample(range(1, 12), 10))
        vid = [0] * 4
        pool = ids[:]
        rng.shuffle(pool)
        vs = sorted(pool[:4])
        for r, i in enumerate(perm): vid[i] = vs[r]
        co = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
        w.lab = {}
        for i in range(4):
            w.lab[vid[i]] = ('v', i)
            for q in range(3): M.point[vid[i]].c[q] = co[i][q] + rng.uniform(-.1, .1)
            M.point[vid[i]].tag = 0
        w.ep = {}
        for e, p in enumerate(pool[4:]):
            a, b = IARE[e]
            w.ep[e] = p
            if flag >> e & 1: w.lab[p] = ('e', a, b)
            t = rng.uniform(.3, .7)
            for q in range(3): M.point[p].c[q] = (1 - t) * M.point[vid[a]].c[q] + t * M.point[vid[b]].c[q]
        w.k = rng.randrange(1, M.ne + 1)
        t = M.tetra[w.k]
        for i in range(4): t.v[i] = vid[i]
        t.ref = rng.randrange(1, 50); t.tag = rng.choice((0, 4, 1024)); t.flag = flag
        M.xt = w.xt0 = rng.randrange(3, 10)
        M.xtmax = w.xt0 + 20
        w.X = rng.randrange(1, w.xt0 + 1)
        t.xt = 0 if combo is None else w.X
        x = M.xtetra[w.X]
        for f in range(4):
            if combo is not None and combo >> f & 1:
                m = rng.randrange(3)
                x.ref[f] = rng.randrange(1, 9) if m != 1 else 0
                x.ftag[f] = rng.choice((1, 2, 16, 17, 4, 33)) if m != 0 else 0
        for e in range(6):
            x.tag[e] = rng.randrange(0, 64); x.edg[e] = rng.randrange(0, 9)
        x.ori = rng.randrange(16)
        w.ptet = {'ref': t.ref, 'tag': t.tag}
        w.pxt = {}
        s = mem.snap()
        v = N.NView(s, w.xtet.addr + w.X * lay.sizeof(TRec('MMG5_xTetra')), TRec('MMG5_xTetra'))
        for k in v.fields(): w.pxt[k] = v.cell(k)
        w.nenil0 = M.nenil
        w.ids = (vid, dict(w.ep))

    def full(w, what, q):
        """the array of elements / of boundary records has room for q more entries only (and can be enlarged)"""
        M = w.M
        M.gap = 0.5; M.memCur = 10 ** 6; M.memMax = 10 ** 9
        w.enl = what
        if what == 'elements':
            M.nemax = M.ne + q
            M.nenil = M.ne + 1 if q else 0
            M.tetra = N.heap_copy(w.tet.addr, w.lay.sizeof(TRec('MMG5_Tetra')), M.nemax + 1)
            if q: M.tetra[M.nemax].v[3] = 0
        else:
            M.xtmax = M.xt + q
            M.xtetra = N.heap_copy(w.xtet.addr, w.lay.sizeof(TRec('MMG5_xTetra')), M.xtmax + 1)
        w.ne0 = M.ne

    def free_list(w):
        """what is wrong with the list of free elements"""
        M = w.M
        i, last = M.nenil, M.ne
        while i:
            if not last < i <= M.nemax: return 'the list of free elements holds number %d (elements up to %d, array up to %d, after number %d)' % (i, M.ne, M.nemax, last)
            if M.tetra[i].v[0]: return 'free element %d has a vertex' % i
            last, i = i, M.tetra[i].v[3]
        if last < M.nemax - 1: return 'the list of free elements ends at %d before the end %d of the array' % (last, M.nemax)

    def moved_frame(w, kids, xs):
        M, lay = w.M, w.lay
        for name, ty, new, n, own in (('tetra', 'MMG5_Tetra', M.tetra, w.ne0, kids), ('xtetra', 'MMG5_xTetra', M.xtetra, w.xt0, xs)):
            old = {'tetra': w.tet, 'xtetra': w.xtet}[name].addr
            if (w.enl == 'elements') != (name == 'tetra'): continue
            z = lay.sizeof(TRec(ty))
            for i in range(1, n + 1):
                if i not in own and ctypes.string_at(N.addr_of(new) + i * z, z) != ctypes.string_at(old + i * z, z): return '%s[%d] changed when the array was enlarged' % (name, i)
        if M.ne > M.nemax or M.xt > M.xtmax: return 'the counts leave the arrays'
        return w.free_list() if w.enl == 'elements' else None

    def vx(w, flag):
        b = w.mem.alloc(TInt(w.iw, True), 6, 'vx')
        for e in range(6): N.poke(b.addr + e * w.iw // 8, TInt(w.iw, True), w.ep[e] if flag >> e & 1 else 0)
        return b.addr

    def snap(w): w.pre = w.mem.snap()

    def kids(w):
        if w.enl: return [w.k] + list(range(w.ne0 + 1, w.M.ne + 1))
        out = [w.k]
        i = w.nenil0
        while i != w.M.nenil:
            out.append(i); i += 1
        return out

    def frame(w, kids, xs):
        if w.enl:
            bad = w.moved_frame(kids, xs)
            if bad: return 'array enlarged: ' + bad
        now = w.mem.live()
        for b, d in w.pre.blocks:
            cur = now.get(b.addr, b.size)
            if cur == d or b.name in ('mesh', 'point'): continue
            esz = w.lay.sizeof(b.ty)
            for i in range(b.count):
                if cur[i * esz:(i + 1) * esz] == d[i * esz:(i + 1) * esz]: continue
                if b.name == 'tetra' and i in kids or b.name == 'xtetra' and i in xs: continue
                return 'frame: %s[%d] changed' % (b.name, i)
        return None

    def desc(w): return {'vertices': w.ids[0], 'edge points': w.ids[1], 'tetra': w.k}


class Bar(Split):
    """split of a tetrahedron at an interior point"""
    def __init__(c): Split.__init__(c, 'MMG5_split4bar', 'bar', 0)

    def orders(c): return [(0, 1, 2, 3)]

    def place(c, x, st, args, k, ip, tb, labs, hyp):
        args['k'] = k
        c.labs = labs

        def newpt(x2, s2, a, n):
            r = tm.sym('barpt', 'I')
            tm.DISTINCT.add(r.id)
            s2.asm.append(tm.le(1, r))
            labs[r.id] = ('c',)
            return r
        x.policy['MMG3D_newPt'] = newpt
        x.store1(st, args['mesh'].base, 'adja', 0, S.null())

    def nat_args(c, w, rng, ps, perm):
        return {'mesh': w.mesh.addr, 'met': w.met.addr, 'k': w.k, 'metRidTyp': rng.randrange(2)}

    def judge(c, w, ret, rank, combo):
        w.lab[ret] = ('c',)
        return Split.judge(c, w, ret, rank, combo)


class Shell(Split):
    """one element of the shell of a split edge"""
    def __init__(c, flag, side):
        Split.__init__(c, 'MMG5_split1b_eltspl', 'shell', flag, native=False)
        c.side = side
        c.name += side

    def place(c, x, st, args, k, ip, tb, labs, hyp):
        e = c.flag.bit_length() - 1
        j = tm.sym('gnp_jel', 'I')
        tm.DISTINCT.add(j.id)
        hyp.append(tm.le(1, j))
        x.newidx.append(j)
        args['ip'] = ip[e]
        kk = args['k']
        x.store1(st, args['list'].base, '', kk, tm.add(tm.mul(6, k), e))
        x.store1(st, args['newtet'].base, '', kk, j if c.side == '+' else tm.neg(j))
        for key, cty in x.flat(TRec('MMG5_Tetra')): x.store1(st, tb, key, j, x.load1(st, tb, key, k, cty))

    def frame(c, k, qs, x):
        for nm, g in Split.frame(c, k, qs, x):
            if not nm.startswith('tau'): yield nm, g


class Sim(Split):
    """simulation of a split: accepts only when every element the split creates has a positive volume"""
    def __init__(c, kind, flag):
        Split.__init__(c, 'MMG3D_%s_sim' % kind, kind, flag)
        c.policy = {'MMG5_orvol': c.orvol}
        c.real = Split('MMG5_' + kind, kind, flag)
        c.cost = 3

    def orvol(c, x, st, a, n):
        r = tm.fresh('vol', 'R')
        l = st.ghost.get('quads', ())
        if not isinstance(l, tuple) or (l and l[0] == 'ite'): raise Unsupported('merged list of simulated elements')
        q = tuple(x.load(st, x.padd(a[1], j), TInt(32, True)) for j in range(4))
        st.ghost['quads'] = l + ((q, r),)
        return r

    def combos(c): yield None

    def prepare(c):
        tu_of(c)
        tu_of(c.real)

    def one(c, k, combo, r, timeout, tag):
        log = list(tm.ORDERLOG)
        perm = sorted(range(4), key=lambda i: k['rank'][i])
        Split.one(c, k, combo, r, timeout, tag)

    def reallabels(c, rank):
        perm = sorted(range(4), key=lambda i: rank[i])
        sv = (set(tm.DISTINCT), dict(tm.ORDER), list(tm.ORDERLOG))
        k2 = c.real.setup(perm, None)
        x = k2['x']
        rets = x.run_fn(k2['tu'], k2['fn'], list(k2['args']), k2['st'].clone())
        out = []
        for i in [k2['k']] + list(x.newidx):
            l = tuple(c.vertex(k2, x.load1(rets[0][0], k2['tb'], 'v[%d]' % j, i, None)) for j in range(4))
            out.append(l)
        lg = list(tm.ORDERLOG)
        tm.DISTINCT.clear(); tm.DISTINCT.update(sv[0]); tm.ORDER.clear(); tm.ORDER.update(sv[1])
        tm.ORDERLOG[:] = sv[2] + lg
        return None if len(rets) != 1 or any(None in l for l in out) else out

    def post(c, k, qs, ret, combo, x):
        if is_zero(ret): return [('refusal', True)]
        gl = qs.ghost.get('quads', ())
        if isinstance(gl, tuple) and gl and gl[0] == 'ite': raise Unsupported('merged list of simulated elements')
        quads = [tuple(c.vertex(k, t) for t in q) for q, v in gl]
        if any(None in q for q in quads): return [('simulated elements have the vertices of the parent or points of marked edges', False)]
        parent = tuple(('v', i) for i in range(4))
        kids = [(q, v) for q, (_, v) in zip(quads, gl) if q != parent]
        err = label_error([q for q, _ in kids], c.flag, k['rank'])
        out = [('the simulated elements tile the parent and cut its edges and faces as its neighbours do' + (': ' + err if err else ''), err is None)]
        out.append(('every simulated element has a positive volume when the split is accepted', tm.and_(*[tm.lt(Fraction(0), v) for _, v in kids])))
        real = c.reallabels(k['rank'])
        same = real is not None and {frozenset(q) for q in real} == {frozenset(q) for q, _ in kids}
        out.append(('the simulated elements are those the split creates', same))
        return out

    def frame(c, k, qs, x):
        for (base, key), ch in qs.heap.items():
            if base < 0: continue
            bl = x.blocks[base]
            if bl.const is not None: continue
            old = k['st'].heap.get((base, key)) or x.init_chain(base, key)
            if ch is old or base == k['tb'] and chain_within(ch, old, [0]): continue
            o = tm.fresh('o', 'I')
            g = tm.eq(S.read(ch, o), S.read(old, o))
            yield '%s.%s' % (bl.name, key), tm.or_(tm.eq(o, 0), g) if base == k['tb'] else g

    def trial(c, w, rng, cf, ps, t):
        perm = rng.sample(range(4), 4)
        w.build(perm, None, c.flag, rng)
        far = rng.choice((0, 0.1, 0.4, 0.8))
        for e, p in w.ep.items():
            for q in range(3): w.M.point[p].c[q] = w.M.point[p].c[q] + rng.uniform(-far, far)
        a = c.nat_args(w, rng, ps, perm)
        w.snap()
        with N.quiet(): ret = cf(*[a[p.name] for p in ps])
        f = w.frame({0}, set())
        if f: return f, ret
        if ret:
            lib = c.lib_
            with N.quiet(): lib(*[w.mesh.addr, w.met.addr, w.k, a['vx'], 1])
            for n, i in enumerate(w.kids()):
                co = [[w.M.point[w.M.tetra[i].v[j]].c[q] for q in range(3)] for j in range(4)]
                m = [[co[j][q] - co[0][q] for q in range(3)] for j in (1, 2, 3)]
                v = sx.det(m)
                if v <= 0: return 'the simulation accepts a split whose element %d has volume %g' % (n, v / 6), ret
        return None, ret

    def native_child(c, seed, trials, so, budget, only=None, hint=None):
        tu, fn = program(c.lib).find(c.real.fn)
        c.lib_ = getattr(N.load(so), c.real.fn)
        c.lib_.restype = N.ctype(tu.ptype(tu.funs[c.real.fn]['type']['qualType']).ret)
        c.lib_.argtypes = [N.ctype(p.ty) for p in fun_params(fn)]
        return Split.native_child(c, seed, trials, so, budget, only, hint)


def is_zero(v): return isinstance(v, int) and v == 0


def contracts():
    out = []
    for kind, flags in FLAGS.items():
        for f in flags: out.append(Sim(kind, f))
    for kind, flags in FLAGS.items():
        for f in flags:
            out.append(Split('MMG5_' + kind, kind, f))
            if kind in ('split2sf', 'split3cone', 'split4op'): out.append(Split('MMG5_%s_globNum' % kind, kind, f, glob=True))
    out.append(Bar())
    out += [Shell(1 << e, q) for e in range(6) for q in '+-']
    from . import dispatch
    return out + dispatch.for_c06()
