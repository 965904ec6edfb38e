"""callers of the split patterns: an arbitrary iteration of the loop that marks an element and picks the pattern"""
from ..spec import *
from ..spec import Contract, program, discharge, fun_params
from .. import sym as S, term as tm

IARE3 = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
IARE2 = [(1, 2), (2, 0), (0, 1)]


def calls(n, out=None):
    out = set() if out is None else out
    for y in n.walk():
        if y.k == 'CallExpr':
            nm = S.callee_name(y)
            if nm: out.add(nm)
    return out


def reach(P, tu, n, stop, memo):
    """functions called in n, through the bodies of those that are not in stop and are private to the file"""
    out = set()
    for nm in calls(n):
        out.add(nm)
        if nm in stop: continue
        if nm not in memo:
            memo[nm] = set()
            f = P.find(nm, tu)
            if f is not None and f[0] is tu: memo[nm] = reach(P, tu, f[1], stop, memo)
        out |= memo[nm]
    return out


def loops_of(P, tu, fn, targets, memo):
    """innermost loops from which one of the targets is called, in source order: [(cond, body)]"""
    out = []
    for n in fn.walk():
        if n.k not in ('ForStmt', 'WhileStmt', 'DoStmt'): continue
        if not (reach(P, tu, n, targets, memo) & targets): continue
        inner = [m for m in n.walk() if m is not n and m.k in ('ForStmt', 'WhileStmt', 'DoStmt') and reach(P, tu, m, targets, memo) & targets]
        if not inner: out.append(n)
    return out


class Dispatch(Contract):
    """fn: caller; kinds: {pattern function: marks it handles}; which: index of the loop among those calling a pattern (None: the whole function is
    executed, its vx argument describing the marked edges); remark: the loop recomputes the marks from the table of new points"""
    def __init__(c, fn, lib, kinds, patterns, nsplit=1, remark=True, req=False, cfg_arg=None, calls=1, whole=False, must=None):
        Contract.__init__(c, fn, lib, [], name='%s[%s]' % (fn, 'simulations' if any('sim' in k for k in kinds) else 'splits'), native=False)
        c.kinds, c.patterns, c.remark, c.req, c.cfg_arg, c.calls, c.whole = kinds, patterns, remark, req, cfg_arg, calls, whole
        c.dim = 3 if lib == 'mmg3d' else 2
        c.iare = IARE3 if c.dim == 3 else IARE2
        c.cost = 3

    def prepare(c): pass

    def verify_with(c, r, timeout):
        P = program(c.lib)
        f = P.find(c.fn)
        if f is None: raise Unsupported('function %s not found' % c.fn)
        tu, fn = f
        targets = set(c.kinds)
        if not c.whole:
            ls = loops_of(P, tu, fn, targets, {})
            if len(ls) != 1: raise Unsupported('%d loops call a pattern' % len(ls))
            loop = ls[0]
        else: loop = None
        ne = len(c.iare)
        for flag in c.patterns:
            scen = [(None, 0)]
            if c.req: scen += [('tags', 0)] + ([('tags', 1 << e) for e in range(ne)] + [('tags', flag)] if flag in (63, 45) else [])
            for xt, req in scen:
                if xt and req and not (flag & req): continue
                c.one(P, tu, fn, loop, flag, xt, req, r, timeout)

    def one(c, P, tu, fn, loop, flag, xt, req, r, timeout):
        tm.DISTINCT.clear(); tm.ORDER.clear()
        ne, nv = len(c.iare), c.dim + 1
        v = [tm.sym('vert%d' % i, 'I') for i in range(nv)]
        ip = [tm.sym('ip%d' % e, 'I') for e in range(ne)]
        k = tm.sym('gnp_k0', 'I')
        for t in v + ip + [k]: tm.DISTINCT.add(t.id)
        eff = flag & ~req if c.remark else flag
        tag = '%s marks %s%s' % (c.name, format(flag, '0%db' % ne), '' if not xt else ' required %s' % format(req, '0%db' % ne))
        arr = 'tetra' if c.dim == 3 else 'tria'
        rec = []

        def hashget(x, st, a, n):
            ids = [getattr(y, 'id', None) for y in a[1:3]]
            for e, (p, q) in enumerate(c.iare):
                if ids in ([v[p].id, v[q].id], [v[q].id, v[p].id]):
                    return ip[e] if flag >> e & 1 or not c.remark else 0
            x.oblige(st, False, 'the new point of an edge is looked up between two vertices of the element', n.line, 'call')
            return tm.fresh('hash', 'I')

        def target(name):
            def h(x, st, a, n):
                # arguments: mesh, met, k, [index,] vx, ...
                vxs = [y for y in a[3:] if S.is_ptr(y)]
                line = n.line
                if len(vxs) < 1: raise Unsupported('arguments of %s' % name)
                x.oblige(st, eff in c.kinds[name], '%s is used for the marks it handles' % name, line, 'precondition')
                x.oblige(st, tm.eq(a[2], k), '%s splits the element that was marked' % name, line, 'precondition')
                if c.cfg_arg is not None and 'split1' in name:
                    x.oblige(st, tm.eq(a[3], c.cfg_arg(eff)), '%s is given the marked edge' % name, line, 'precondition')
                for e in range(ne):
                    t = x.load(st, x.padd(vxs[0], e), TInt(64, True) if False else vxs[0].ty, n)
                    x.oblige(st, tm.eq(t, ip[e] if eff >> e & 1 else 0), '%s: new point of edge %d' % (name, e), line, 'precondition')
                    m = x.load1(st, T, 'v[0]', k, None)
                for j in range(nv): x.oblige(st, tm.eq(x.load1(st, T, 'v[%d]' % j, k, None), v[j]), '%s: vertex %d of the element unchanged' % (name, j), line, 'precondition')
                x.oblige(st, tm.eq(x.load1(st, T, 'flag', k, None), eff), '%s: the marks of the element tell the edges with a new point' % name, line, 'precondition')
                st.ghost['ncalls'] = tm.add(st.ghost.get('ncalls', 0), 1)
                return tm.fresh('ok', 'I')
            return h

        pol = {t: target(t) for t in c.kinds}
        pol['MMG5_hashGet'] = hashget
        pol['*'] = lambda x, st, a, n, name: opaque(x, n)
        for nm in reach(P, tu, loop if loop is not None else fn, set(c.kinds), {}):
            f = P.find(nm, tu)
            if nm not in pol and f is not None and f[0] is not tu: pol[nm] = lambda x, st, a, n: opaque(x, n)
        for nm in KEEP: pol[nm] = lambda x, st, a, n: opaque(x, n)
        x = S.Exec(P, pol)
        x.nonnull_fields = {'MMG5_Mesh.tetra', 'MMG5_Mesh.xtetra', 'MMG5_Mesh.point', 'MMG5_Mesh.tria'}
        x.safety = set(x.safety) | {'assert'}
        x.base_tu = tu
        x.fnstack.append((tu, c.fn, fn, tu.ptype(tu.funs[fn.name]['type']['qualType']).ret))
        st = S.St()
        params = {}
        for p in fun_params(fn):
            if isinstance(p.ty, TPtr):
                b = x.new_block(p.name, p.ty.to, 1 if isinstance(p.ty.to, TRec) else None)
                params[p.id] = S.Ptr(b, 0, '', None, p.ty.to)
            else: params[p.id] = x.load_conv(tm.sym('p_' + p.name, x.storesort(p.ty)), p.ty)
        mesh = S.View(x, st, next(a for p, a in zip(fun_params(fn), params.values()) if isinstance(p.ty, TPtr) and getattr(p.ty.to, 'name', '') == 'MMG5_Mesh'))
        T = getattr(mesh, arr)._p.base
        hyp = [tm.mk('<=', 'B', 1, k)] + [tm.mk('<=', 'B', 1, t) for t in v + ip]
        for j in range(nv): x.store1(st, T, 'v[%d]' % j, k, v[j])
        x.store1(st, T, 'flag', k, flag if not c.remark else (flag or 0))
        if c.remark and flag: x.store1(st, T, 'flag', k, tm.sym('gnp_oldflag', 'I')); hyp.append(tm.mk('<=', 'B', 1, tm.sym('gnp_oldflag', 'I')))
        X = tm.sym('gnp_X', 'I')
        if c.dim == 3:
            x.store1(st, T, 'xt', k, 0 if xt is None else X)
            hyp.append(tm.mk('<=', 'B', 1, X))
            XB = mesh.xtetra._p.base
            if xt:
                for e in range(ne): x.store1(st, XB, 'tag[%d]' % e, X, tm.BV(MG_REQ if req >> e & 1 else 0, 16))
        st.asm += hyp
        if c.whole:
            ps = fun_params(fn)
            params = list(params.values())
            for i, p in enumerate(ps):
                if isinstance(p.ty, TPtr) and isinstance(p.ty.to, TInt):
                    for e in range(ne): x.store1(st, params[i].base, '', e, ip[e] if flag >> e & 1 else 0)
                elif isinstance(p.ty, TInt): params[i] = k
            x.fnstack.pop()
            rets = x.run_fn(tu, fn, params, st)
            ends = [(q, 'end') for q, _ in rets]
            x.fnstack.append((tu, c.fn, fn, None))
        else:
            addr = x.addr_taken()
            for p in fun_params(fn):
                if p.id in addr: raise Unsupported('address of a parameter')
                st.env[p.id] = params[p.id]
            env0 = dict(st.env)
            it = loop_var(loop)
            for d in fn.walk():
                if d.k != 'VarDecl' or d.id in st.env or inside(loop, d): continue
                if d.a.get('static'): x.decl(d, st); continue
                if isinstance(d.ty, (TArr, TRec)) or d.id in addr:
                    b = x.new_block(d.name, d.ty, 1, local=True)
                    st.env[d.id] = ('blk', b)
                elif isinstance(d.ty, TPtr): st.env[d.id] = S.UNDEF
                elif d.id == it: st.env[d.id] = k
                else: st.env[d.id] = x.fresh_of('l_' + d.name, d.ty) if hasattr(x, 'fresh_of') else tm.fresh(d.name, 'I')
            if it is None: raise Unsupported('loop counter')
            outs = x.stmt(loop.inner[-1], st)
            ends = [(o[1], o[0]) for o in outs if not o[1].dead]
        r.inlined |= x.inlined
        obls = [S.Obl('%s / %s' % (tag, o.name), o.hyps, o.goal, o.line, o.kind, c.fn) for o in x.obls]
        nreach = 0
        for q, how in ends:
            n = q.ghost.get('ncalls', 0)
            pt_ok = tm.lt(0, v[0])
            skipped = tm.or_(tm.not_(tm.eq(tm.bitand(x.load1(q, T, 'tag', k, None), MG_REQ), 0)) if c.dim == 3 else tm.lt(x.load1(q, T, 'ref', k, None), 0))
            want = c.calls if eff else 0
            goal = (tm.le(1, n) if c.whole else tm.eq(n, want)) if not isinstance(n, tuple) else False
            if eff and not c.whole: goal = tm.or_(goal, tm.and_(tm.eq(n, 0), skipped))
            obls.append(S.Obl('%s / %s' % (tag, 'exactly one pattern is applied to a marked element' if not c.whole else 'the split is simulated'), list(q.pc) + list(q.asm), tm.truth(goal), None, 'ensures', c.fn))
        if not ends: raise Unsupported('no path')
        for o in obls:
            discharge(o, timeout)
            r.obls.append(o)
            if o.status == 'refuted': r.refuted.append(o)
            elif o.status != 'proved': r.unknown.append(o)
        r.reach = (r.reach or 0) + 1
        tm.DISTINCT.clear()


MG_REQ = 4
KEEP = ('myfree', 'MMG3D_delPt', 'MMGS_delPt', 'MMG2D_delPt', 'MMG5_hashPop', 'MMG5_hashUpdate', 'MMG3D_dichoto', 'MMGS_dichoto', 'MMG2D_dichoto', 'MMG3D_indPt', 'MMGS_indPt', 'MMG2D_indPt')


def opaque(x, n):
    so = 'R' if isinstance(n.ty, TFlt) else 'I'
    return tm.fresh('opq', so)


def inside(loop, d):
    if '_in' not in loop.a: loop.a['_in'] = {y.id for y in loop.walk() if y.k == 'VarDecl'}
    return d.id in loop.a['_in']


def loop_var(loop):
    """the variable incremented by the loop"""
    if loop.k != 'ForStmt': return None
    inc = loop.inner[3] if len(loop.inner) > 3 else None
    if inc is None: return None
    for y in inc.walk():
        if y.k == 'DeclRefExpr' and y.ref: return y.ref[2]
    return None


def for_c06():
    from .c06 import FLAGS
    real = {'MMG5_' + n: set(f) for n, f in FLAGS.items()}
    sims = {'MMG3D_%s_sim' % n: set(f) for n, f in FLAGS.items()}
    every = list(range(64))
    ls = [0] + [f for n in ('split1', 'split2sf', 'split3cone', 'split4op') for f in FLAGS[n]]
    lss = ls + [f for n in ('split2', 'split3op') for f in FLAGS[n]]
    return [Dispatch('MMG5_anatetv', 'mmg3d', real, every, req=True),
            Dispatch('MMG3D_anatets_iso', 'mmg3d', real, every, remark=False),
            Dispatch('MMG3D_anatets_iso', 'mmg3d', sims, every, req=True),
            Dispatch('MMG3D_cuttet_ls', 'mmg3d', real, ls),
            Dispatch('MMG3D_cuttet_lssurf', 'mmg3d', real, lss),
            Dispatch('MMG3D_dichoto', 'mmg3d', sims, every[1:], remark=False, whole=True)]


def for_c07():
    two = {'split1': {1, 2, 4}, 'split2': {3, 5, 6}, 'split3': {7}}
    r2, rs = ({'%s_%s' % (p, n): f for n, f in two.items()} for p in ('MMG2D', 'MMGS'))
    s2 = {'MMG2D_%s_sim' % n: f for n, f in two.items()}
    ss = {('MMG5_%s_sim' if n == 'split2' else 'MMGS_%s_sim') % n: f for n, f in two.items()}
    lg = lambda f: f.bit_length() - 1
    every, ls = list(range(8)), list(range(7))
    return [Dispatch('MMG2D_anaelt', 'mmg2d', r2, every, remark=False), Dispatch('MMG2D_anaelt', 'mmg2d', s2, every),
            Dispatch('MMG2D_cuttri', 'mmg2d', r2, ls), Dispatch('MMG2D_dichoto', 'mmg2d', s2, every[1:], remark=False, whole=True),
            Dispatch('anaelt', 'mmgs', rs, every, remark=False, cfg_arg=lg), Dispatch('anaelt', 'mmgs', ss, every, cfg_arg=lg),
            Dispatch('MMGS_cuttri', 'mmgs', rs, ls, cfg_arg=lg), Dispatch('MMGS_dichoto', 'mmgs', ss, every[1:], remark=False, whole=True, cfg_arg=lg)]
