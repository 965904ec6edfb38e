"""C07: splitting patterns of a triangle (2D and surface)"""
import ctypes, random
from itertools import product
from ..spec import *
from .. import simplex as sx
from ..spec import Contract, program, discharge, fun_params
from .c06 import chain_within, is_zero, fresh_real, rebuilt_list

ASSUMPTIONS = ['a new element is an unused element of the array (pool contracts), the neighbourhood of the split triangle is reciprocal']
EDG = [(1, 2), (0, 2), (0, 1)]        # edge e is opposite to vertex e
NXT, PRV = [1, 2, 0], [2, 0, 1]
FIELDS = ('ref',)


def marked_of(flag): return {EDG[e] for e in range(3) if flag >> e & 1}


def elab(e): return ('e',) + EDG[e]


def tri_error(kids, flag):
    return sx.tiling(kids, 2) or (sx.edge_error(kids, marked_of(flag), 2) if flag is not None else None)


class Acc:
    """accessors of the tables before (False) and after (True): the same postcondition is proved symbolically and evaluated on executions"""


class SymAcc(Acc):
    def __init__(a, x, pre, post, blocks):
        a.x, a.st, a.b = x, (pre, post), blocks
        a.s = Ctx('sym'); a.s.x = x

    def get(a, tab, key, i, post):
        st = a.st[post]
        b = a.blk(tab, post)
        t = a.x.load1(st, b, key, i, None)
        while key.startswith('v[') and isinstance(t, T) and t.op == 'ite':
            d = a.x.ask(st, t.a[0])
            if not isinstance(d, bool): break
            t = t.a[1] if d else t.a[2]
        return t

    def blk(a, tab, post):
        mb = a.b['mesh']
        p = a.x.load1(a.st[post], mb, tab, 0, None)
        q = [q for c, q in S.alts(p) if q.base]
        if len(q) != 1: raise Unsupported('table %s' % tab)
        return q[0].base

    def mesh(a, key, post): return a.x.load1(a.st[post], a.b['mesh'], key, 0, None)

    def vid(a, t): return t.id if isinstance(t, T) else ('c', t)


class NatAcc(Acc):
    def __init__(a, w, pre, post):
        a.w, a.sn = w, (pre, post)
        a.s = Ctx('nat')

    def get(a, tab, key, i, post):
        b = {'tria': a.w.tri, 'point': a.w.pts, 'adja': a.w.adj}[tab]
        if tab == 'adja': return a.sn[post].scalar(b.addr + i * a.w.iw // 8, TInt(a.w.iw, True))
        return N.NView(a.sn[post], b.addr + i * a.w.lay.sizeof(b.ty), b.ty).cell(key)

    def mesh(a, key, post): return N.NView(a.sn[post], a.w.mesh.addr, a.w.mesh.ty).cell(key)

    def vid(a, t): return t


def post_goals(A, P, new, conf):
    """P: parents [(elt, {vertex id: label}, marked flag)]; new: new elements; conf: point rule, adjacency description or None"""
    s = A.s
    out = []
    owner = {}
    labels = {}
    for i in [p[0] for p in P] + list(new):
        vs = [A.get('tria', 'v[%d]' % j, i, True) for j in range(3)]
        for n, (k, labs, flag) in enumerate(P):
            l = tuple(labs.get(A.vid(v)) for v in vs)
            if None not in l and not (i is not k and any(i is p[0] for p in P)):
                owner.setdefault(n, []).append((i, l, tuple(A.vid(v) for v in vs)))
                break
        else:
            out.append(('the vertices of the children are vertices of the parent or new points', False))
            return out
    for n, (k, labs, flag) in enumerate(P):
        kids = owner.get(n, [])
        err = tri_error([l for _, l, _ in kids], flag)
        out.append(('the children tile triangle %d and cut its marked edges only%s' % (n, ': ' + err if err else ''), err is None))
        if err: return out
        for m, (i, lab, _) in enumerate(kids):
            who = 'child %d of triangle %d' % (m, n)
            out.append(('%s inherits the reference' % who, s.Eq(A.get('tria', 'ref', i, True), A.get('tria', 'ref', k, False))))
            out.append(('%s is unmarked' % who, s.Eq(A.get('tria', 'flag', i, True), 0)))
            for e in range(3):
                L = sx.locate([lab[j] for j in range(3) if j != e], 2)
                g, t = A.get('tria', 'edg[%d]' % e, i, True), A.get('tria', 'tag[%d]' % e, i, True)
                if len(L) == 2:
                    q = EDG.index(L)
                    out.append(('%s: edge %d inherits the data of edge %d' % (who, e, q), s.And(
                        s.Eq(g, A.get('tria', 'edg[%d]' % q, k, False)), s.Eq(t, A.get('tria', 'tag[%d]' % q, k, False)))))
                else: out.append(('%s: interior edge %d carries no data' % (who, e), s.And(s.Eq(g, 0), s.Eq(t, 0))))
    # new points
    k, labs, flag = P[0]
    for e, ip in conf['points'].items():
        g, t = A.get('tria', 'edg[%d]' % e, k, False), A.get('tria', 'tag[%d]' % e, k, False)
        r0, r1 = A.get('point', 'ref', ip, False), A.get('point', 'ref', ip, True)
        t0, t1 = A.get('point', 'tag', ip, False), A.get('point', 'tag', ip, True)
        if conf['rule'] == 'ref':
            out.append(('the point of edge %d gets the reference of the edge' % e, s.And(s.Eq(t1, t0), s.Eq(r1, A.ite(A.lt(0, g), g, r0)))))
        elif conf['rule'] == 'reftag':
            out.append(('the point of edge %d gets the reference and tag of the edge' % e,
                        s.And(s.Eq(t1, A.ite(s.Eq(t, 0), t0, t)), s.Eq(r1, A.ite(s.Eq(g, 0), r0, g)))))
    # adjacency
    if conf.get('adj') is not None:
        sides = {}
        for n in owner:
            for i, lab, vs in owner[n]:
                for e in range(3):
                    sides.setdefault(frozenset(vs[j] for j in range(3) if j != e), []).append((n, i, lab, e))
        cell = lambda i, e: 3 * (i - 1) + 1 + e if isinstance(i, int) else tm.add(tm.mul(3, i), e - 2)
        code = lambda i, e: 3 * i + e if isinstance(i, int) else tm.add(tm.mul(3, i), e)
        for key, l in sides.items():
            if len(l) == 2:
                for (n, i, lab, e), (n2, i2, lab2, e2) in (l, l[::-1]):
                    out.append(('adjacency of edge %d of a child of triangle %d' % (e, n), s.Eq(A.get('adja', '', cell(i, e), True), code(i2, e2))))
                continue
            n, i, lab, e = l[0]
            L = sx.locate([lab[j] for j in range(3) if j != e], 2)
            q = EDG.index(L)
            nb = conf['adj'][n].get(q)
            out.append(('outer adjacency of edge %d of a child of triangle %d' % (e, n), s.Eq(A.get('adja', '', cell(i, e), True), 0 if nb is None else code(*nb))))
            if nb is not None:
                out.append(('adjacency of the neighbour across edge %d of triangle %d' % (q, n), s.Eq(A.get('adja', '', cell(*nb), True), code(i, e))))
    return out


SymAcc.ite = lambda a, c, x, y: tm.ite(c, x, y)
SymAcc.lt = lambda a, x, y: tm.lt(x, y)
NatAcc.ite = lambda a, c, x, y: x if c else y
NatAcc.lt = lambda a, x, y: x < y

CFG = {
    'MMG2D_split1': ('mmg2d', 'vx', (1, 2, 4), 'ref'), 'MMG2D_split2': ('mmg2d', 'vx', (6, 5, 3), 'ref'), 'MMG2D_split3': ('mmg2d', 'vx', (7,), 'ref'),
    'MMGS_split1': ('mmgs', 'vx', (1, 2, 4), 'ref'), 'MMGS_split2': ('mmgs', 'vx', (6, 5, 3), 'ref'), 'MMGS_split3': ('mmgs', 'vx', (7,), 'ref'),
}
SIMS = {'MMG2D_split1_sim': 'MMG2D_split1', 'MMG2D_split2_sim': 'MMG2D_split2', 'MMG2D_split3_sim': 'MMG2D_split3',
        'MMGS_split1_sim': 'MMGS_split1', 'MMG5_split2_sim': 'MMGS_split2', 'MMGS_split3_sim': 'MMGS_split3'}


class Tri(Contract):
    def __init__(c, fn, lib, flag, rule, shell=False):
        Contract.__init__(c, fn, lib, [], name='%s[%s]' % (fn, flag), trials=300)
        c.flag, c.rule, c.shell = flag, rule, shell
        c.native = True
        c.policy = {}
        c.cost = 12 if shell else 2

    def scenarios(c):
        """(neighbourhood, number of the first allocation that needs the arrays to be enlarged)"""
        n = {1: 1, 2: 2, 3: 3}[bin(c.flag).count('1')]
        for fail in [None] + list(range(n)): yield None, fail

    def setup(c, nbh, fail):
        tm.DISTINCT.clear(); tm.ORDER.clear(); tm.ORDERLOG.clear()
        tm.GNN[0] = True
        Pg = program(c.lib)
        f = Pg.find(c.fn)
        if f is None: raise Unsupported('function %s not found' % c.fn)
        tu, fn = f
        x = S.Exec(Pg, dict(c.policy))
        x.newidx = []
        x.nonnull_fields = {'MMG5_Mesh.tria', 'MMG5_Mesh.point'} | ({'MMG5_Mesh.adja'} if c.shell else set())
        x.base_tu = tu
        x.fnstack.append((tu, '', fn, None))
        st = S.St()
        ps = fun_params(fn)
        args = {}
        hyp = []
        for p in ps:
            if isinstance(p.ty, TPtr):
                b = x.new_block(p.name, p.ty.to, 1 if isinstance(p.ty.to, TRec) else None)
                args[p.name] = S.Ptr(b, 0, '', None, p.ty.to)
            else: args[p.name] = x.load_conv(tm.sym('p_' + p.name, x.storesort(p.ty)), p.ty)

        def const(n):
            t = tm.sym('gnp_' + n, 'I')
            tm.DISTINCT.add(t.id)
            hyp.append(tm.mk('<=', 'B', 1, t))
            return t
        mesh = S.View(x, st, args['mesh'])
        mb = args['mesh'].base
        k = const('k')
        K = dict(x=x, st=st, tu=tu, fn=fn, args=args, names=[p.name for p in ps], k=k, mb=mb, hyp=hyp, const=const, mesh=mesh, fail=fail)
        tb, pb = mesh.tria._p.base, mesh.point._p.base
        K.update(tb=tb, pb=pb)
        v = [const('v%d' % i) for i in range(3)]
        ips = {e: const('ip%d' % e) for e in range(3) if c.flag >> e & 1}
        labs = {v[i].id: ('v', i) for i in range(3)}
        for e, t in ips.items(): labs[t.id] = elab(e)
        K.update(v=v, ips=ips, labs=labs)
        for i in range(3): x.store1(st, tb, 'v[%d]' % i, k, v[i])
        x.store1(st, tb, 'flag', k, c.flag)
        K['elts'] = [k]
        K['P'] = [(k, labs, c.flag)]
        K['conf'] = {'points': ips, 'rule': c.rule, 'adj': None}
        c.place(K, nbh)
        nt = 0
        for e in K['elts']: nt = tm.add(nt, e)
        nt = tm.add(nt, const_nn('a', hyp))
        ntmax = tm.add(nt, const_nn('b', hyp))
        x.store1(st, mb, 'nt', 0, nt); x.store1(st, mb, 'ntmax', 0, ntmax)
        x.oldmax = ntmax
        hyp.append(tm.lt(Fraction(0), x.load1(st, mb, 'gap', 0, None)))
        hyp.append(tm.le(0, x.load1(st, mb, 'memCur', 0, None)))
        count = [0]

        def newelt(x2, s2, a, n):
            i = s2.ghost.get('nalloc', 0)
            s2.ghost['nalloc'] = i + 1
            if fail is not None and i == fail: return 0
            if fail is not None and i == fail + 1: rebuilt_list(x2, s2, mb, 'tria', 'v[2]', 'nt', 'ntmax', n)
            r = tm.sym('gnp_new%d' % i, 'I')
            tm.DISTINCT.add(r.id)
            s2.asm.append(tm.mk('<=', 'B', 1, r))
            cur, lim = x2.load1(s2, mb, 'nt', 0, None), x2.load1(s2, mb, 'ntmax', 0, None)
            s2.asm.append(tm.le(r, lim))
            x2.store1(s2, mb, 'nt', 0, tm.ite(tm.lt(cur, r), r, cur))
            if not any(r is y for y in x2.newidx): x2.newidx.append(r)
            return r
        x.policy['MMG2D_newElt'] = x.policy['MMGS_newElt'] = newelt
        st.asm += hyp
        return K

    def place(c, K, nbh):
        x, st, args = K['x'], K['st'], K['args']
        args['k'] = K['k']
        if 'i' in args: args['i'] = c.flag.bit_length() - 1
        if 'vx' in args:
            for e in range(3): x.store1(st, args['vx'].base, '', e, K['ips'].get(e, 0))

    def verify_with(c, r, timeout):
        n = 0
        for nbh, fail in c.scenarios():
            K = c.setup(nbh, fail)
            x, st = K['x'], K['st']
            tag = '%s%s%s' % (c.name, '' if nbh is None else ' neighbours %s' % (nbh,), '' if fail is None else ' enlarging at allocation %d' % fail)
            rets = x.run_fn(K['tu'], K['fn'], [K['args'][m] for m in K['names']], st.clone())
            if not rets: raise Unsupported('no return path')
            r.inlined |= x.inlined
            r.loops.update(x.loopstats)
            obls = list(x.obls)
            for qs, ret in rets:
                hyp = list(qs.pc) + list(qs.asm)
                for nm, g in c.post(K, qs, ret): obls.append(S.Obl('%s / %s' % (tag, nm), hyp, tm.truth(g), None, 'ensures', c.fn))
                for nm, g in c.frame(K, qs, ret): obls.append(S.Obl('%s / frame %s' % (tag, nm), hyp, tm.truth(g), None, 'frame', c.fn))
            for o in obls:
                discharge(o, timeout)
                r.obls.append(o)
                if o.status == 'refuted': r.refuted.append(o)
                elif o.status != 'proved': r.unknown.append(o)
            n += 1
        tm.DISTINCT.clear()
        r.reach = n

    def new(c, K, qs):
        n = qs.ghost.get('nalloc', 0)
        l = [tm.sym('gnp_new%d' % i, 'I') for i in range(n) if i != K['fail']]
        return l

    def post(c, K, qs, ret):
        if is_zero(ret):
            return [('the split succeeds when memory is available', K['fail'] is not None)]
        A = SymAcc(K['x'], K['st'], qs, {'mesh': K['mb']})
        return [('success is reported', tm.eq(ret, 1))] + post_goals(A, K['P'], c.new(K, qs), K['conf'])

    def frame(c, K, qs, ret):
        x, st = K['x'], K['st']
        if is_zero(ret): return
        mb = K['mb']
        A = SymAcc(x, st, qs, {'mesh': mb})
        own = [p[0] for p in K['P']] + c.new(K, qs) + [0]
        tabs = {}
        for tab in ('tria', 'point', 'adja'):
            if tab == 'adja' and not c.shell: continue
            tabs[A.blk(tab, False)] = (tab, A.blk(tab, True))
        cells = []
        if c.shell:
            for n, (e, labs, flag) in enumerate(K['P']): cells += [tm.add(tm.mul(3, e), q - 2) for q in range(3)]
            for e in c.new(K, qs): cells += [tm.add(tm.mul(3, e), q - 2) for q in range(3)]
            for d in K['conf']['adj']:
                for nb in d.values():
                    if nb is not None: cells.append(tm.add(tm.mul(3, nb[0]), nb[1] - 2))
        okp = list(K['conf']['points'].values())
        for b, (tab, b2) in tabs.items():
            for key in [k2 for (bb, k2) in list(qs.heap) if bb == b2]:
                ch = qs.heap[(b2, key)]
                old = st.heap.get((b, key)) or x.init_chain(b, key)
                if ch is old: continue
                ok = own if tab == 'tria' else cells if tab == 'adja' else okp if key in ('ref', 'tag') else []
                if b == b2 and chain_within(ch, old, ok): continue
                o = tm.fresh('o', 'I')
                lim = x.load1(st, mb, 'nt', 0, None)
                g = [tm.eq(o, i) for i in ok]
                if tab == 'tria': g.append(tm.lt(lim, o))
                elif tab == 'adja': g.append(tm.lt(tm.scale(3, lim), o))
                yield '%s.%s' % (tab, key), tm.or_(tm.lt(o, 0), *g, tm.eq(S.read(ch, o), S.read(old, o)))
        for (base, key), ch in qs.heap.items():
            if base < 0 or any(base in (b, t[1]) for b, t in tabs.items()): continue
            bl = x.blocks[base]
            if bl.const is not None or bl.name.startswith(('alloc', 'realloc')): continue
            if base == mb:
                if key in ('memCur', 'nenil', 'ntmax', 'tria', 'adja', 'nt', 'gap'): continue
            old = st.heap.get((base, key)) or x.init_chain(base, key)
            if ch is old: continue
            if not c.shell and x.blocks[base].name.endswith('adja'): continue
            o = 0 if base == mb else tm.fresh('o', 'I')
            u, w = S.read(ch, o), S.read(old, o)
            yield '%s.%s' % (bl.name, key), S.ptr_eq(u, w) if S.is_ptr(u) else tm.eq(u, w)

    # ---------------------------------------------------------------- executions
    def native_child(c, seed, trials, so, budget, only=None, hint=None):
        tu, fn = program(c.lib).find(c.fn)
        lib = N.load(so)
        lay = N.Lay(tu)
        cf = getattr(lib, c.fn)
        ps = fun_params(fn)
        cf.restype = N.ctype(tu.ptype(tu.funs[c.fn]['type']['qualType']).ret)
        cf.argtypes = [N.ctype(p.ty) for p in ps]
        c.extra(lib)
        done, hits = 0, {}
        for t in range(trials):
            if only is not None and t not in only: continue
            rng = random.Random('%s/%s/%d' % (seed, c.name, t))
            w = World(lay, rng)
            bad, ret = c.trial(w, rng, cf, ps)
            done += 1
            hits[str(ret)] = hits.get(str(ret), 0) + 1
            if bad: return {'fail': bad, 'trial': t, 'seed': seed, 'args': w.desc(), 'done': done, 'hits': hits, 'ret': str(ret)}
        return {'done': done, 'rejected': 0, 'hits': hits}

    def extra(c, lib): pass

    def trial(c, w, rng, cf, ps):
        w.build(c.flag, c.shell, rng, interior=c.flag == 0)
        if rng.random() < 0.4: w.full(rng.randrange(0, 3))
        a = c.nat_args(w)
        pre = w.mem.snap()
        with N.quiet(): ret = cf(*[a[p.name] for p in ps])
        if w.enl:
            bad = w.back()
            if bad: return 'array enlarged: ' + bad, ret
        return c.judge(w, pre, ret), ret

    def nat_args(c, w):
        return {'mesh': w.mesh.addr, 'met': w.met.addr, 'sol': w.met.addr, 'k': w.k, 'vx': w.vx(), 'i': c.flag.bit_length() - 1}

    def judge(c, w, pre, ret):
        post = w.mem.snap()
        A = NatAcc(w, pre, post)
        if ret == 0: return 'ensures "the split succeeds" is false'
        if ret != 1: return 'returned %d' % ret
        return w.check(A, c.rule, c.shell)


def const_nn(n, hyp):
    t = tm.sym('gnn_' + n, 'I')
    hyp.append(tm.mk('<=', 'B', 0, t))
    return t


class Shell(Tri):
    """split of an edge and of both triangles that share it, adjacency included"""
    def __init__(c, fn, lib, i, rule):
        Tri.__init__(c, fn, lib, 1 << i, rule, shell=True)
        c.i = i

    def scenarios(c):
        """neighbourhood: j (or None), local index of the neighbours through the edges that change owner"""
        nb = (None, 0, 1, 2)
        for m in nb: yield ((None, m, None, False), None)
        for j in range(3):
            for m, m2 in product(nb, nb): yield ((j, m, m2, False), None)
            for m, m2 in product(range(3), range(3)):
                if m != m2: yield ((j, m, m2, True), None)       # the same triangle behind both
        yield (None, 0, None, False), 0
        for fail in (0, 1): yield (1, 2, 0, False), fail

    def place(c, K, nbh):
        j, m, m2, same = nbh
        x, st, args, const, hyp = K['x'], K['st'], K['args'], K['const'], K['hyp']
        args['k'], args['i'], args['ip'] = K['k'], c.i, K['ips'][c.i]
        tb = K['tb']
        ab = K['mesh'].adja._p.base
        K['ab'] = ab
        cell = lambda e, q: tm.add(tm.mul(3, e), q - 2)
        code = lambda e, q: tm.add(tm.mul(3, e), q)
        i, i1, i2 = c.i, NXT[c.i], PRV[c.i]
        adj0 = {}
        jel = None
        if j is not None:
            jel = const('jel')
            K['elts'].append(jel)
            adj0[i] = (jel, j)
        mel = None
        if m is not None:
            mel = const('mel')
            K['elts'].append(mel)
            adj0[i1] = (mel, m)
        o = const('oth')
        K['elts'].append(o)
        adj0[i2] = (o, 1)
        for q in range(3): x.store1(st, ab, '', cell(K['k'], q), code(*adj0[q]) if q in adj0 else 0)
        if mel is not None: x.store1(st, ab, '', cell(mel, m), code(K['k'], i1))
        x.store1(st, ab, '', cell(o, 1), code(K['k'], i2))
        adjs = [adj0]
        if j is not None:
            j1, j2 = NXT[j], PRV[j]
            w = const('w')
            vs = {j: w, j1: K['v'][i2], j2: K['v'][i1]}
            for q in range(3): x.store1(st, tb, 'v[%d]' % q, jel, vs[q])
            labs = {vs[q].id: ('v', q) for q in range(3)}
            labs[K['ips'][i].id] = elab(j)
            adj1 = {j: (K['k'], i)}
            if m2 is not None:
                mel2 = mel if same else const('mel2')
                if not same: K['elts'].append(mel2)
                adj1[j2] = (mel2, m2)
            o2 = const('oth2')
            K['elts'].append(o2)
            adj1[j1] = (o2, 2)
            for q in range(3): x.store1(st, ab, '', cell(jel, q), code(*adj1[q]) if q in adj1 else 0)
            if m2 is not None: x.store1(st, ab, '', cell(mel2, m2), code(jel, j2))
            x.store1(st, ab, '', cell(o2, 2), code(jel, j1))
            adjs.append(adj1)
            K['P'].append((jel, labs, 1 << j))
        K['conf']['adj'] = adjs


    def nat_args(c, w): return {'mesh': w.mesh.addr, 'k': w.k, 'i': c.i, 'ip': w.ip[c.i]}


class Bar(Tri):
    """insertion of a point inside a triangle"""
    def __init__(c):
        Tri.__init__(c, 'MMG2D_splitbar', 'mmg2d', 0, None, shell=True)
        c.policy = {'MMG2D_quickarea': c.area}
        c.name = 'MMG2D_splitbar'

    def area(c, x, st, a, n):
        r = tm.fresh('area', 'R')
        l = st.ghost.get('quads', ())
        offs = []
        for p in a:
            al = [q for q0, q in S.alts(p) if q.base]
            if len(al) != 1 or al[0].path not in ('c', 'c[0]'): raise Unsupported('area of other points')
            offs.append(al[0].off)
        st.ghost['quads'] = l + ((tuple(offs), r),)
        return r

    def scenarios(c):
        for m in product((None, 0, 1, 2), repeat=2):
            yield m, None
        yield (1, 2), 0
        yield (1, 2), 1

    def place(c, K, nbh):
        x, st, args, const, hyp = K['x'], K['st'], K['args'], K['const'], K['hyp']
        ip = const('ip')
        args['k'], args['ip'] = K['k'], ip
        K['labs'][ip.id] = ('c',)
        ab = K['mesh'].adja._p.base
        cell = lambda e, q: tm.add(tm.mul(3, e), q - 2)
        code = lambda e, q: tm.add(tm.mul(3, e), q)
        adj = {}
        for e, m in ((0, nbh[0]), (2, nbh[1]), (1, 2)):
            if m is None: continue
            t = const('n%d' % e)
            K['elts'].append(t)
            adj[e] = (t, m)
            x.store1(st, ab, '', cell(t, m), code(K['k'], e))
        for q in range(3): x.store1(st, ab, '', cell(K['k'], q), code(*adj[q]) if q in adj else 0)
        K['conf']['adj'] = [adj]

    def post(c, K, qs, ret):
        quads = [tuple(K['labs'].get(t.id) if isinstance(t, T) else None for t in q) for q, v in qs.ghost.get('quads', ())]
        out = []
        if is_zero(ret):
            bad = [tm.lt(v, Fraction(1)) for _, v in qs.ghost.get('quads', ())]
            return [('refused only for a nearly flat child or without memory', K['fail'] is not None or tm.or_(*bad))]
        err = tri_error(quads, None) if all(None not in q for q in quads) else 'other points'
        out.append(('the areas of the three children are checked' + (': ' + err if err else ''), err is None))
        out.append(('the children have a positive area', tm.and_(*[tm.lt(Fraction(0), v) for _, v in qs.ghost['quads']])))
        return out + Tri.post(c, K, qs, ret)

    def nat_args(c, w): return {'mesh': w.mesh.addr, 'k': w.k, 'ip': w.ip['c']}

    def judge(c, w, pre, ret):
        if ret == 0: return None
        return Tri.judge(c, w, pre, ret)


class Sim(Tri):
    """a simulation evaluates the triangles the split creates and accepts only if none is flat or inverted"""
    def __init__(c, fn, real, flag):
        lib, _, _, _ = CFG[real]
        Tri.__init__(c, fn, lib, flag, 'ref')
        c.real = Tri(real, lib, flag, 'ref')
        c.policy = {'MMG2D_quickcal': c.area, 'MMG5_nonUnitNorPts': c.normal}

    def prepare(c):
        for f in (c.fn, c.real.fn):
            if program(c.lib).find(f) is None: raise Unsupported('function %s not found' % f)

    def scenarios(c): yield None, None

    def rec(c, x, st, q, r):
        l = st.ghost.get('quads', ())
        if not isinstance(l, tuple) or (l and l[0] == 'ite'): raise Unsupported('merged list of simulated elements')
        st.ghost['quads'] = l + ((q, r),)

    def area(c, x, st, a, n):
        r = tm.fresh('area', 'R')
        c.rec(x, st, tuple(x.load(st, x.field_elt(a[1], 'v', j), TInt(32, True)) if hasattr(x, 'field_elt') else S.View(x, st, a[1]).v[j] for j in range(3)), r)
        return r

    def normal(c, x, st, a, n):
        r = [tm.fresh('nor', 'R') for _ in range(3)]
        for j in range(3): x.store(st, x.padd(a[4], j), r[j], TFlt(64))
        c.rec(x, st, tuple(a[1:4]), tuple(r))
        return 1

    def post(c, K, qs, ret):
        if is_zero(ret): return [('refusal', True)]
        gl = qs.ghost.get('quads', ())
        if isinstance(gl, tuple) and gl and gl[0] == 'ite': raise Unsupported('merged list of simulated elements')
        quads = [tuple(K['labs'].get(t.id) if isinstance(t, T) else None for t in q) for q, v in gl]
        if any(None in q for q in quads): return [('simulated elements have the vertices of the parent or new points', False)]
        parent = tuple(('v', i) for i in range(3))
        kids = [(q, v) for q, (_, v) in zip(quads, gl) if q != parent]
        err = tri_error([q for q, _ in kids], c.flag)
        out = [('the simulated elements tile the parent and cut its marked edges only' + (': ' + err if err else ''), err is None)]
        if kids and isinstance(kids[0][1], tuple):
            ref = [v for q, (_, v) in zip(quads, gl) if q == parent]
            if not ref: return out + [('the normal of the parent is evaluated', False)]
            dot = lambda a, b: tm.add(tm.add(tm.mul(a[0], b[0]), tm.mul(a[1], b[1])), tm.mul(a[2], b[2]))
            for n, (q, v) in enumerate(kids):
                out.append(('simulated element %d is not flat and not folded back when the split is accepted' % n,
                            tm.and_(tm.lt(Fraction(0), dot(v, v)), tm.le(Fraction(0), dot(ref[0], v)))))
        else:
            out.append(('every simulated element has a positive area when the split is accepted', tm.and_(*[tm.lt(Fraction(0), v) for _, v in kids])))
        real = c.reallabels()
        out.append(('the simulated elements are those the split creates', real is not None and {frozenset(q) for q in real} == {frozenset(q) for q, _ in kids}))
        return out

    def reallabels(c):
        sv = set(tm.DISTINCT)
        K = c.real.setup(None, None)
        x = K['x']
        rets = x.run_fn(K['tu'], K['fn'], [K['args'][m] for m in K['names']], K['st'].clone())
        tm.DISTINCT.update(sv)
        res = None
        for qs, ret in rets:
            if is_zero(ret): continue
            out = []
            for i in [K['k']] + c.real.new(K, qs):
                t = [x.load1(qs, K['tb'], 'v[%d]' % j, i, None) for j in range(3)]
                out.append(tuple(K['labs'].get(u.id) if isinstance(u, T) else None for u in t))
            if res is not None and res != out: return None
            res = out
        return None if res is None or any(None in l for l in res) else res

    def frame(c, K, qs, ret):
        for (base, key), ch in qs.heap.items():
            if base < 0: continue
            bl = K['x'].blocks[base]
            if bl.const is not None: continue
            old = K['st'].heap.get((base, key)) or K['x'].init_chain(base, key)
            if ch is old or base == K['tb'] and chain_within(ch, old, [0]): continue
            o = tm.fresh('o', 'I')
            g = tm.eq(S.read(ch, o), S.read(old, o))
            yield '%s.%s' % (bl.name, key), tm.or_(tm.eq(o, 0), g) if base == K['tb'] else g

    def extra(c, lib):
        tu, fn = program(c.lib).find(c.real.fn)
        c.lib_ = getattr(lib, c.real.fn)
        c.lib_.restype = N.ctype(tu.ptype(tu.funs[c.real.fn]['type']['qualType']).ret)
        c.lib_.argtypes = [N.ctype(p.ty) for p in fun_params(fn)]
        c.rnames = [p.name for p in fun_params(fn)]

    def trial(c, w, rng, cf, ps):
        w.build(c.flag, False, rng)
        far = rng.choice((0, 0.1, 0.4, 0.8))
        for e, p in w.ip.items():
            for q in range(2): w.M.point[p].c[q] = w.M.point[p].c[q] + rng.uniform(-far, far)
        a = c.nat_args(w)
        pre = w.mem.snap()
        with N.quiet(): ret = cf(*[a[p.name] for p in ps])
        f = w.frame(pre, w.mem.snap(), {0}, set(), set())
        if f: return f, ret
        if ret:
            old = None
            with N.quiet(): c.lib_(*[a[m] for m in c.rnames])
            for i in w.kids(False):
                co = [[w.M.point[w.M.tria[i].v[j]].c[q] for q in range(2)] for j in range(3)]
                v = (co[1][0] - co[0][0]) * (co[2][1] - co[0][1]) - (co[1][1] - co[0][1]) * (co[2][0] - co[0][0])
                if v <= 0: return 'the simulation accepts a split whose element %d has area %g' % (i, v / 2), ret
        return None, ret


class World:
    """a native mesh: a triangle, its three neighbours (some missing), each possibly with other neighbours"""
    NT, NP = 24, 14

    def __init__(w, lay, rng):
        w.lay = lay
        w.enl = False
        w.mem = N.NMem(lay)
        w.iw = dict(lay.tu.fields('MMG5_Tria'))['ref'].w

    def build(w, flag, shell, rng, interior=False):
        lay, mem = w.lay, w.mem
        w.flag = flag
        w.mesh = mem.alloc(TRec('MMG5_Mesh'), 1, 'mesh')
        w.met = mem.alloc(TRec('MMG5_Sol'), 1, 'met')
        w.tri = mem.alloc(TRec('MMG5_Tria'), w.NT, 'tria')
        w.pts = mem.alloc(TRec('MMG5_Point'), w.NP, 'point')
        w.adj = mem.alloc(TInt(w.iw, True), 3 * w.NT + 5, 'adja')
        M = w.M = N.W(lay, w.mesh.addr, TRec('MMG5_Mesh'))
        M.tria = w.tri.addr; M.point = w.pts.addr; M.adja = w.adj.addr
        M.nt = 8; M.ntmax = w.NT - 1; M.nenil = 9; M.np = 12; M.npmax = w.NP - 1; M.npnil = 13
        M.ver = 2; M.dim = 3; M.base = rng.randrange(5); M.gap = 0.2
        for i in range(9, w.NT): M.tria[i].v[2] = i + 1 if i < w.NT - 1 else 0
        ids = rng.sample(range(1, 13), 12)
        vid = ids[:3]
        w.opp = ids[3:6]
        co = [(0, 0), (1, 0), (0, 1)]
        for i in range(3):
            for q in range(2): M.point[vid[i]].c[q] = co[i][q] + rng.uniform(-.1, .1)
        for p in ids: M.point[p].ref = rng.randrange(9); M.point[p].tag = rng.choice((0, 0, 1, 2, 4, 16))
        w.ip = {}
        for e in range(3):
            p = ids[6 + e]
            a, b = EDG[e]
            t = rng.uniform(.3, .7)
            for q in range(2): M.point[p].c[q] = (1 - t) * M.point[vid[a]].c[q] + t * M.point[vid[b]].c[q]
            if flag >> e & 1: w.ip[e] = p
        if interior:
            p = ids[10]
            bb = [rng.random() + .1 for _ in range(3)]
            for q in range(2): M.point[p].c[q] = sum(bb[i] * M.point[vid[i]].c[q] for i in range(3)) / sum(bb)
            w.ip['c'] = p
        els = rng.sample(range(1, 9), 8)
        w.k = els[0]
        w.nb = {}
        for j in range(1, 9):
            t = M.tria[j]
            for q in range(3):
                t.v[q] = ids[rng.randrange(12)]; t.edg[q] = rng.randrange(3); t.tag[q] = rng.choice((0, 0, 1, 2, 16, 4))
            t.ref = rng.randrange(1, 9); t.flag = rng.randrange(8); t.base = rng.randrange(5)
        t = M.tria[w.k]
        for i in range(3): t.v[i] = vid[i]
        t.flag = flag
        w.vid = vid
        A = w.adjset
        w.par = [(w.k, {vid[i]: ('v', i) for i in range(3)}, flag if not interior else None)]
        for e, p in w.ip.items(): w.par[0][1][p] = ('c',) if e == 'c' else elab(e)
        w.adjs = [{}]
        for e in range(3):
            if rng.random() < .25:
                A(w.k, e, 0); continue
            jel, j = els[1 + e], rng.randrange(3)
            A(w.k, e, 3 * jel + j); A(jel, j, 3 * w.k + e)
            w.adjs[0][e] = (jel, j)
            tj = M.tria[jel]
            tj.v[j] = w.opp[e]; tj.v[NXT[j]] = vid[PRV[e]]; tj.v[PRV[j]] = vid[NXT[e]]
            if shell and flag == 1 << e:
                d = {j: (w.k, e)}
                for n, q in enumerate((NXT[j], PRV[j])):
                    if rng.random() < .25: A(jel, q, 0)
                    else:
                        mel, m = els[4 + n], rng.randrange(3)
                        A(jel, q, 3 * mel + m); A(mel, m, 3 * jel + q)
                        d[q] = (mel, m)
                w.adjs.append(d)
                l = {tj.v[q]: ('v', q) for q in range(3)}
                l[w.ip[e]] = elab(j)
                w.par.append((jel, l, 1 << j))
        w.nenil0 = M.nenil

    def full(w, q):
        """the array of triangles has room for q more only (and can be enlarged)"""
        M = w.M
        M.gap = 0.5; M.memCur = 10 ** 6; M.memMax = 10 ** 9
        w.enl = True
        M.ntmax = M.nt + q
        M.nenil = M.nt + 1 if q else 0
        M.tria = N.heap_copy(w.tri.addr, w.lay.sizeof(TRec('MMG5_Tria')), M.ntmax + 1)
        if q: M.tria[M.ntmax].v[2] = 0
        M.adja = N.heap_copy(w.adj.addr, w.iw // 8, 3 * M.ntmax + 5)
        w.nt0 = M.nt

    def back(w):
        """the list of free triangles of the arrays that moved; their contents brought back where the checks look for them"""
        M = w.M
        if not w.nt0 <= M.nt <= M.ntmax: return 'the number of triangles leaves the array'
        i, last = M.nenil, M.nt
        while i:
            if not last < i <= M.ntmax: return 'the list of free triangles holds number %d (triangles up to %d, array up to %d, after number %d)' % (i, M.nt, M.ntmax, last)
            if M.tria[i].v[0]: return 'free triangle %d has a vertex' % i
            last, i = i, M.tria[i].v[2]
        if last < M.ntmax - 1: return 'the list of free triangles ends at %d before the end %d of the array' % (last, M.ntmax)
        n = min(M.nt, w.NT - 1) + 1
        ctypes.memmove(w.tri.addr, N.addr_of(M.tria), n * w.lay.sizeof(TRec('MMG5_Tria')))
        ctypes.memmove(w.adj.addr, N.addr_of(M.adja), (3 * (n - 1) + 1) * w.iw // 8)

    def adjset(w, k, e, v): N.poke(w.adj.addr + (3 * (k - 1) + 1 + e) * w.iw // 8, TInt(w.iw, True), v)

    def vx(w):
        b = w.mem.alloc(TInt(w.iw, True), 3, 'vx')
        for e in range(3): N.poke(b.addr + e * w.iw // 8, TInt(w.iw, True), w.ip.get(e, 0))
        return b.addr

    def kids(w, parents=True):
        if w.enl: return [w.k] + list(range(w.nt0 + 1, w.M.nt + 1))
        out = [w.k]
        i = w.nenil0
        while i != w.M.nenil:
            out.append(i); i += 1
        return out

    def check(w, A, rule, shell):
        conf = {'points': {e: p for e, p in w.ip.items() if e != 'c'}, 'rule': rule, 'adj': w.adjs if shell else None}
        for nm, g in post_goals(A, w.par, w.kids()[1:], conf):
            if not g: return 'ensures "%s" is false' % nm
        el = {p[0] for p in w.par} | set(w.kids()) | {0}
        cells = {3 * (i - 1) + 1 + e for i in el if i for e in range(3)} if shell else set()
        if shell:
            for d in w.adjs: cells |= {3 * (b[0] - 1) + 1 + b[1] for b in d.values()}
        return w.frame(A.sn[0], A.sn[1], el, set(conf['points'].values()) if rule else set(), cells)

    def frame(w, pre, post, el, pts, cells):
        for (b, d), (b2, d2) in zip(pre.blocks, post.blocks):
            if d == d2 or b.name == 'mesh': continue
            esz = len(d) // b.count
            for i in range(b.count):
                if d[i * esz:(i + 1) * esz] == d2[i * esz:(i + 1) * esz]: continue
                if b.name == 'tria' and i in el or b.name == 'point' and i in pts or b.name == 'adja' and i in cells: continue
                return 'frame: %s[%d] changed' % (b.name, i)
        return None

    def desc(w): return {'vertices': w.vid, 'points': w.ip, 'triangle': w.k, 'adjacency': str(w.adjs)}


def quickarea():
    def ens(s):
        p = s.pre
        a, b, c = p.a, p.b, p.c
        d = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        return [('twice the signed area', s.Close(s.ret, d))]
    return Contract('MMG2D_quickarea', 'mmg2d', ['a', 'b', 'c'], ens, assigns=lambda s: [], sizes={'a': 2, 'b': 2, 'c': 2},
                    gen=lambda rng, mem, g: {n: _vec(mem, rng, 2, n) for n in 'abc'}, rets=None)


def _vec(mem, rng, n, nm):
    b = mem.alloc(TFlt(64), n, nm)
    for i in range(n): N.poke(b.addr + 8 * i, TFlt(64), rng.choice((0., 1., rng.uniform(-3, 3))))
    return b.addr


def contracts():
    out = []
    for fn, real in SIMS.items():
        for f in CFG[real][2]: out.append(Sim(fn, real, f))
    for fn, (lib, _, flags, rule) in CFG.items():
        for f in flags: out.append(Tri(fn, lib, f, rule))
    for i in range(3): out.append(Shell('MMG2D_split1b', 'mmg2d', i, None))
    for i in range(3): out.append(Shell('split1b', 'mmgs', i, 'reftag'))
    out.append(Bar())
    out.append(quickarea())
    from . import dispatch
    return out + dispatch.for_c07()
