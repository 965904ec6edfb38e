"""Symbolic loops: verified parallel-map summaries, then havoc."""
from fractions import Fraction
from .cfront import *
from . import term as tm
from .term import T, add, sub, mul, eq, le, lt, ite, and_, or_, not_, truth, implies, is_c
from . import sym as S


class NoSummary(Exception):
    pass


def body_once(x, n, cond, inc, body, st, assume_cond=True):
    """One iteration from st: returns (cond term, next states, exits, other outcomes)."""
    st = st.clone()
    S.Chain.EPOCH += 1
    pc, na = len(st.pc), len(st.asm)
    c = x.cond(x.ev(cond, st)) if cond is not None else True
    cs = st.clone()
    if not st.add(c): return c, cs, None, [], []
    outs = x.stmt(body, st)
    nxt, brk, other = [], [], []
    for o in outs:
        if o[1].dead: continue
        if o[0] in ('next', 'continue'): nxt.append((o[1], 0))
        elif o[0] == 'break': brk.append(o[1])
        else: other.append(o)
    m = None
    if nxt:
        m, _ = x.merge(pc, na, nxt)
        m = m.clone()
        if len(nxt) == 1:
            pass
        if inc is not None: x.ev(inc, m)
        if m.dead: m = None
    return c, cs, m, brk, other


def symloop(x, n, cond, inc, body, st):
    mark = (len(x.obls),)
    try:
        return summarise(x, n, cond, inc, body, st)
    except NoSummary as e:
        if x.strict_loops:
            raise Unsupported('loop line %s: %s' % (n.line, e))
        del x.obls[mark[0]:]
        x.assumed.add('loop havoc: %s line-loop (%s)' % (x.fnstack[-1][1], e))
        return havoc(x, n, cond, inc, body, st)


def scalar_eq(x, a, b):
    if a is b: return True
    if S.is_ptr(a) or S.is_ptr(b):
        return S.is_ptr(a) and S.is_ptr(b) and S.ptr_eq(a, b) is True
    if a is S.UNDEF or b is S.UNDEF: return False
    return eq(a, b) is True


def diff_env(a, b):
    return [k for k in b if k in a and b[k] is not a[k] and
            not (is_c(a[k]) and not S.is_ptr(a[k]) and not isinstance(a[k], (tuple, S.Undef)) and is_c(b[k]) and
                 not S.is_ptr(b[k]) and not isinstance(b[k], (tuple, S.Undef)) and
                 type(a[k]) == type(b[k]) and a[k] == b[k])]


def generalise(x, st, envkeys, tag):
    """replace given env scalars by fresh symbols; -> (state, {key: symbol})"""
    q = st.clone()
    syms = {}
    for k in envkeys:
        v = st.env[k]
        if v is S.UNDEF: continue
        if S.is_ptr(v):
            syms[k] = None
            continue
        so = tm.sort(v)
        if so == 'B': so = 'I'
        syms[k] = q.env[k] = x.fresh(tag, so)
    return q, syms


def localblocks(x, st):
    """bases of local (automatic) blocks known before the loop"""
    return {v[1] for v in st.env.values() if isinstance(v, tuple) and v[0] == 'blk'}


def chain_writes(ch, stop, guard, out):
    """writes of ch relative to ancestor stop, oldest first"""
    if ch is stop: return
    if ch.kind == 'store':
        chain_writes(ch.prev, stop, guard, out)
        out.append((guard, ch.d[0], ch.d[1]))
    elif ch.kind == 'ite':
        c, a, b = ch.d
        chain_writes(a, stop, and_(guard, c), out)
        chain_writes(b, stop, and_(guard, not_(c)), out)
    elif ch.kind == 'map':
        chain_writes(ch.prev, stop, guard, out)
        out.append((guard, ch.d, None))
    else:
        raise NoSummary('unrelated chain')


def affine(o, t):
    """o = a*t + b with a concrete int; -> (a, b)"""
    if is_c(o): return 0, o
    c, ts = tm._parts(o)
    a = 0
    rest = []
    for k, y in ts:
        if y is t: a = k
        elif t.id in tm.free(y): raise NoSummary('non affine offset')
        else: rest.append((k, y))
    return a, tm.lin(c, rest, 'I')


def summarise(x, n, cond, inc, body, st):
    t = x.fresh('nat_t', 'I') if not x.iter_ctx else tm.fresh('nat_t', 'I')
    st0 = st
    saved_ctx = list(x.iter_ctx)
    nobl = len(x.obls)

    # ---- pass 0: which env variables change
    x.iter_ctx = saved_ctx + [t]
    try:
        keys = set()
        for rnd in range(6):
            q, syms = generalise(x, st0, keys, 'lv')
            q.asm.append(le(0, t))
            wl, x.writes_log = x.writes_log, []
            try:
                c, cs, m, brk, other = body_once(x, n, cond, inc, body, q)
            finally:
                w, x.writes_log = x.writes_log, wl
                if wl is not None: wl.extend(w)
            del x.obls[nobl:]
            new = set()
            for r in ([m] if m else []) + brk + [o[1] for o in other] + [cs]:
                new |= set(diff_env(q.env, r.env)) - keys
            for k in list(new):
                if st0.env.get(k) is S.UNDEF or S.is_ptr(st0.env.get(k)): pass
            if not new: break
            keys |= new
        else:
            raise NoSummary('unstable variable set')
        if m is None:
            raise NoSummary('body never completes')
        # ---- induction variables
        ind, reco, rec, ptrs = {}, [], [], {}
        for k in keys:
            v0 = st0.env[k]
            if v0 is S.UNDEF: reco.append(k); continue
            if S.is_ptr(v0):
                if S.is_ptr(m.env[k]):
                    a, b = ptr_shape(v0), ptr_shape(m.env[k])
                    if a and b and a[1:3] == b[1:3] and (a[0] is b[0] or a[0] == b[0]) and a[4] is None and b[4] is None: ptrs[k] = a
                    reco.append(k); continue
                raise NoSummary('pointer variable')
            d = sub(m.env[k], syms[k]) if not S.is_ptr(m.env[k]) and m.env[k] is not S.UNDEF and tm.sort(m.env[k]) == tm.sort(syms[k]) else None
            if d is not None and is_c(d) and tm.sort(syms[k]) == 'I':
                ind[k] = d
            else: reco.append(k)
        # ---- pass 1 with closed forms for induction variables
        locs = localblocks(x, st0)

        def start(t):
            q = st0.clone()
            q.asm.append(le(0, t))
            for k, d in ind.items(): q.env[k] = add(x.toI(st0.env[k]), mul(d, t))
            rs = {}
            for k in reco:
                v0 = st0.env[k]
                if k in ptrs:
                    rs[k] = recfun(k, 'I')(t)
                    q.env[k] = ptr_at(ptrs[k], rs[k])
                    continue
                if v0 is S.UNDEF or S.is_ptr(v0):
                    q.env[k] = S.UNDEF
                    continue
                so = tm.sort(v0)
                rs[k] = q.env[k] = recfun(k, 'I' if so == 'B' else so)(t)
            return q, rs

        recf = {}

        def recfun(k, so):
            if k not in recf:
                nm = 'S_rec!%d' % (tm._fresh[0] + 1)
                tm._fresh[0] += 1
                recf[k] = (nm, so)
            nm, so = recf[k]
            return lambda tt: tm.app(nm, so, *saved_ctx, tt)

        # cells modified at constant offsets are treated as recurrences
        def run(heap_over, tt=t):
            q, rs = start(tt)
            q_in = q
            for kk, ch in heap_over.items(): q.heap[kk] = ch
            c, cs, m, brk, other = body_once(x, n, cond, inc, body, q)
            if m is None: raise NoSummary('body never completes')
            for k, d in ind.items():
                if not (eq(m.env[k], add(q.env[k], d)) is True): raise NoSummary('induction variable')
            return q, c, cs, m, brk, other, rs

        tbase = min(list(x.blocks), default=0) - 1
        top = x.nextbase
        q, c, cs, m, brk, other, rs = run({})
        del x.obls[nobl:]
        # locals declared outside the loop but written inside: accept when rewritten before read
        writes = {}
        cellrec, scatter, scat, masks, cnames, sfun = {}, {}, {}, {}, {}, {}
        for kk, ch in m.heap.items():
            if kk[0] < 0 and kk[0] not in locs and kk[0] <= tbase: continue      # block created in the body
            old = st0.heap.get(kk)
            if old is None: old = x.init_chain(*kk)
            if ch is old: continue
            if kk[0] >= top: raise NoSummary('allocation in loop')
            out = []
            chain_writes(ch, old, True, out)
            if all(is_c(o) or (isinstance(o, T) and t.id not in tm.free(o)) for g, o, v in out if not isinstance(o, tuple)) \
                    and not any(isinstance(o, tuple) for g, o, v in out):
                # loop-invariant cell(s): recurrence
                offs = []
                for g, o, v in out:
                    if not any(eq(o, o2) is True for o2 in offs): offs.append(o)
                if len(offs) > 1:
                    for i in range(len(offs)):
                        for j in range(i):
                            if eq(offs[i], offs[j]) is not False: raise NoSummary('overlapping recurrence cells')
                cellrec[kk] = offs
                continue
            if not is_parallel(out, t):
                scatter[kk] = out
                continue
            writes[kk] = out
        for rnd in range(6):
            if not (cellrec or scatter): break
            over, cellf = {}, {}
            for kk, out in scatter.items():
                cty = x.celltype(*kk)
                if isinstance(cty, TPtr): raise NoSummary('pointer scatter')
                if kk not in scat:
                    tm._fresh[0] += 1
                    scat[kk] = 'X_%s!%d' % (kk[1], tm._fresh[0])
                over[kk] = scat_chain(x, st0, kk, scat[kk], saved_ctx, t, masks.get(kk), sfun.get(kk))
            for kk, offs in cellrec.items():
                old = st0.heap.get(kk)
                if old is None: old = x.init_chain(*kk)
                ch = old
                cty = x.celltype(*kk)
                if isinstance(cty, TPtr): raise NoSummary('pointer recurrence cell')
                so = x.storesort(cty)
                for o in offs:
                    if (kk, tm._k(o)) not in cnames:
                        tm._fresh[0] += 1
                        cnames[(kk, tm._k(o))] = 'C_rec!%d' % tm._fresh[0]
                    nm = cnames[(kk, tm._k(o))]
                    cellf[(kk, tm._k(o))] = (nm, so, o)
                    ch = S.Chain('store', ch, (o, tm.app(nm, so, *saved_ctx, t)))
                over[kk] = ch
            q, c, cs, m, brk, other, rs = run(over)
            del x.obls[nobl:]
            writes = {}
            again = False
            for kk, ch in m.heap.items():
                if kk[0] < 0 and kk[0] not in locs and kk[0] <= tbase: continue
                old = over.get(kk) or st0.heap.get(kk) or x.init_chain(*kk)
                if ch is old: continue
                if kk[0] >= top: raise NoSummary('allocation in loop')
                out = []
                chain_writes(ch, old, True, out)
                if kk in scatter:
                    scatter[kk] = out
                    if kk not in sfun:
                        sfun[kk] = propose(out, t)
                        if sfun[kk]: again = True
                        else: again = True
                        continue
                    if sfun[kk]:
                        if not scat_ok(x, kk, out, old, sfun[kk], m):
                            sfun[kk] = None
                            again = True
                        continue
                    mk = change_mask(x, kk, ch, old)
                    if masks.get(kk, 0) != mk:
                        masks[kk] = mk if masks.get(kk) is None else (None if mk is None or masks[kk] is None else masks[kk] | mk)
                        again = True
                    continue
                if kk in cellrec:
                    known = cellrec[kk]
                    for g, o, v in out:
                        if isinstance(o, tuple) or not any(eq(o, o2) is True for o2 in known):
                            del cellrec[kk]
                            scatter[kk] = out
                            again = True
                            break
                    continue
                if not is_parallel(out, t):
                    scatter[kk] = out
                    again = True
                    continue
                writes[kk] = out
            if not again: break
        else:
            raise NoSummary('unstable write classes')
        if not (cellrec or scatter): over, cellf = {}, {}

        # ---- build maps
        o = tm.sym('nat_o' if False else 'mo', 'I')

        def build(kk, out, upto):
            old = st0.heap.get(kk) or x.init_chain(*kk)
            ch = old
            info = []
            for g, off, v in out:
                if isinstance(off, tuple):          # nested map: offsets in [lo,hi) pattern
                    s2, c2, v2 = off
                    a, b, lo, hi = nested_affine(c2, s2, t)
                    info.append(('m', a, b, lo, hi, g, off))
                    raise NoSummary('nested map')
                a, b = affine(off, t)
                if a == 0: raise NoSummary('mixed offsets')
                info.append((a, b, g, v))
            # classes must not collide across iterations
            for i in range(len(info)):
                for j in range(i):
                    a1, b1 = info[i][0], info[i][1]
                    a2, b2 = info[j][0], info[j][1]
                    if a1 != a2: raise NoSummary('different strides')
                    db = sub(b1, b2)
                    if not is_c(db): raise NoSummary('unrelated offsets')
                    if db != 0 and db % a1 == 0: raise NoSummary('iterations overlap')
            for a, b, g, v in info:
                d = sub(o, b)
                if a < 0:
                    it = tm._fdiv(tm.neg(d), -a)
                    dv = eq(tm._fmod(tm.neg(d), -a), 0)
                else:
                    it = tm._fdiv(d, a)
                    dv = eq(tm._fmod(d, a), 0)
                cnd = and_(dv, le(0, it), lt(it, upto), tm.subst(g, {t.id: it}) if isinstance(g, T) else g)
                ch = S.Chain('map', ch, (o, cnd, S.vsubst(v, {t.id: it})))
            return ch

        wkeys = set(writes)
        for kk in wkeys:
            for g, off, v in writes[kk]:
                if S.is_ptr(v): raise NoSummary('pointer array')
        # ---- pass 2: inductive step from the summarised state
        over2 = dict(over)
        for kk in wkeys: over2[kk] = build(kk, writes[kk], t)
        nob2 = len(x.obls)
        q2, c2, cs2, m2, brk2, other2, rs2 = run(over2)
        # obligations raised in the body at a generic iteration are kept
        extra = x.obls[nob2:]
        for kk, ch in m2.heap.items():
            if kk[0] < 0 and kk[0] not in locs and kk[0] < tbase: continue
            if kk in scatter:
                out = []
                chain_writes(ch, over2[kk], True, out)
                scatter[kk] = out
                if sfun.get(kk):
                    if not scat_ok(x, kk, out, over2[kk], sfun[kk], m2): raise NoSummary('scatter function not inductive')
                    continue
                if masks.get(kk) is not None and change_mask(x, kk, ch, over2[kk]) != masks[kk]:
                    raise NoSummary('scatter mask not inductive')
                continue
            if kk in over and kk not in wkeys: continue
            old = over2.get(kk) or st0.heap.get(kk) or x.init_chain(*kk)
            if ch is old: continue
            if kk not in wkeys:
                if kk[0] < 0 and kk[0] not in locs: continue
                raise NoSummary('new written cell')
            out = []
            chain_writes(ch, old, True, out)
            ref = writes[kk]
            goal = same_writes(out, ref)
            if goal is not True:
                ob = S.Obl('loop summary step (%s)' % (kk,), list(m2.pc) + list(m2.asm), goal, n.line, 'loop')
                from . import prove
                if not prove.quick(ob): raise NoSummary('summary not inductive')
        # recurrence variables: defining axiom at (symbolic) t is added on exit when needed
        # ---- exits
        x.iter_ctx = saved_ctx
        N = x.fresh('nat_N', 'I')
        outs = []
        sub_N = {t.id: N}
        # (a) normal exit after N iterations
        e = st0.clone()
        e.asm.append(le(0, N))
        for k, d in ind.items(): e.env[k] = add(x.toI(st0.env[k]), mul(d, N))
        for k in reco:
            if k in rs2:
                f = recfun(k, recf[k][1])
                e.env[k] = ptr_at(ptrs[k], f(N)) if k in ptrs else f(N)
                e.asm.append(eq(f(0), ptrs[k][3] if k in ptrs else st0.env[k]))
            else:
                e.env[k] = m2.env[k] if not isinstance(m2.env[k], (T, S.PV, S.Ptr)) else S.UNDEF
        for kk in wkeys: e.heap[kk] = build(kk, writes[kk], N)
        for kk in scatter: e.heap[kk] = scat_chain(x, st0, kk, scat[kk], saved_ctx, N, masks.get(kk), sfun.get(kk))
        for (kk, ok), (nm, so, off) in cellf.items():
            e.heap[kk] = S.Chain('store', e.heap.get(kk) or x.init_chain(*kk), (off, tm.app(nm, so, *saved_ctx, N)))
            old = st0.heap.get(kk) or x.init_chain(*kk)
            e.asm.append(eq(tm.app(nm, so, *saved_ctx, 0), S.read(old, off)))
        # facts of completed iterations: ∀ 0<=t<N. pc(t) ∧ recurrences
        pcn = len(q2.pc); asn = len(st0.asm) + 1
        facts = list(m2.pc[len(st0.pc):]) + list(m2.asm[len(q2.asm):])
        for k in rs2:
            f = recfun(k, recf[k][1])
            v = m2.env[k]
            if k in ptrs:
                b = ptr_shape(v)
                if not b or b[1:3] != ptrs[k][1:3] or not (b[0] is ptrs[k][0] or b[0] == ptrs[k][0]): raise NoSummary('pointer recurrence')
                v = b[3]
            if v is not S.UNDEF and not S.is_ptr(v): facts.append(eq(f(add(t, 1)), v if tm.sort(v) != 'B' else ite(v, 1, 0)))
        for (kk, ok), (nm, so, off) in cellf.items():
            v = S.read(m2.heap[kk], off)
            facts.append(eq(tm.app(nm, so, *saved_ctx, add(t, 1)), v))
        fact = and_(*facts)

        def upto_fact(K):
            fs, rest = [fact], []
            for kk in scatter:
                if not sfun.get(kk): continue
                mk = lambda o: tm.app('K' + scat[kk], 'B', *saved_ctx, K, o)
                wit = lambda o: tm.app('W' + scat[kk], 'I', *saved_ctx, K, o)
                ov = tm.fresh('so', 'I')
                w = wit(ov)
                back = []
                for g, off, v in scatter[kk]:
                    if isinstance(off, tuple):
                        c = and_(g, off[1])
                        fs.append(tm.forall(off[0], implies(c, mk(off[0]))))
                        back.append(tm.subst(tm.subst(c, {off[0].id: ov}), {t.id: w}))
                    else:
                        fs.append(implies(g, mk(off)))
                        back.append(tm.subst(and_(g, eq(off, ov)), {t.id: w}))
                wfact = tm.subst(fact, {t.id: w}) if isinstance(fact, T) else True
                rest.append(tm.forall(ov, implies(mk(ov), and_(le(0, w), lt(w, K), or_(*back), wfact))))
                rest.append(not_(tm.app('K' + scat[kk], 'B', *saved_ctx, 0, ov)) if False else True)
            body_ = and_(*fs)
            tb = t
            if K is t:
                tb = tm.fresh('nat_b', 'I')
                body_ = tm.subst(body_, {t.id: tb}) if isinstance(body_, T) else body_
            r = True if body_ is True else tm.forall(tb, implies(and_(le(0, tb), lt(tb, K)), body_))
            return and_(r, *rest)
        # exact trip count for linear guards
        cN = tm.subst(cs_cond(c2), sub_N)
        exact = trip(c2, t)
        if cond is not None:
            if exact is not None:
                e.asm.append(eq(N, exact))
                if side_effects(q2, cs2): x.ev(cond, e)
            else:
                e.asm.append(not_(x.cond(x.ev(cond, e))))
                uf = upto_fact(N)
                if uf is not True: e.asm.append(uf)
            if exact is not None and (rs2 or cellf or brk2 or other2 or any(sfun.values())):
                e.asm.append(upto_fact(N))
            # effects of evaluating the condition itself are assumed none
            outs.append(('next', e, None))
        # (b) break / return at iteration t
        tx = t
        if saved_ctx and (brk2 or other2):
            # inside an outer iteration the exit index is a function of that iteration
            tx = x.fresh('nat_t', 'I')
            ov3 = {}
            for kk in wkeys: ov3[kk] = build(kk, writes[kk], tx)
            for kk in scatter: ov3[kk] = scat_chain(x, st0, kk, scat[kk], saved_ctx, tx, masks.get(kk), sfun.get(kk))
            for (kk, ok), (nm, so, off) in cellf.items():
                ov3[kk] = S.Chain('store', ov3.get(kk) or st0.heap.get(kk) or x.init_chain(*kk), (off, tm.app(nm, so, *saved_ctx, tx)))
            x.iter_ctx = saved_ctx + [tx]
            no3 = len(x.obls)
            q3, c3, cs3, m3, brk2, other2, rs3 = run(ov3, tx)
            del x.obls[no3:]
            x.iter_ctx = saved_ctx
        for kind, r, v in [('next', b, None) for b in brk2] + other2:
            r.asm.append(upto_fact(tx))
            for k in reco:
                if k in rs2: r.asm.append(eq(recfun(k, recf[k][1])(0), ptrs[k][3] if k in ptrs else st0.env[k]))
            for (kk, ok), (nm, so, off) in cellf.items():
                old = st0.heap.get(kk) or x.init_chain(*kk)
                r.asm.append(eq(tm.app(nm, so, *saved_ctx, 0), S.read(old, off)))
            outs.append((kind, r, v))
        x.loopstats['summarised'] += 1
        if len(outs) > 1:
            # which exit is taken: the exits are over unrelated existential indices, so their path conditions alone do not exclude each
            # other, and merging them would lose one
            sel = x.fresh('nat_X', 'I')
            for i, (kind, r, v) in enumerate(outs): r.pc.append(eq(sel, i))
        return outs
    finally:
        x.iter_ctx = saved_ctx


def cs_cond(c): return c


def side_effects(a, b):
    """did evaluating the loop condition change the state"""
    if any(b.env[k] is not a.env.get(k) and not (is_c(b.env[k]) and not S.is_ptr(b.env[k]) and b.env[k] == a.env.get(k)) for k in b.env if k in a.env): return True
    return any(ch is not a.heap.get(kk) and kk in a.heap for kk, ch in b.heap.items())


def ptr_shape(v):
    """(null condition, base, path, offset, index, type) of a pointer with one non-null target"""
    nn, nc = None, False
    for c, p in S.alts(v):
        if p.base in (0, -999999):
            nc = or_(nc, c)
            continue
        if nn is not None: return None
        nn = p
    if nn is None: return None
    return (nc, nn.base, nn.path, nn.off, nn.idx, nn.ty)


def ptr_at(sh, off):
    p = S.Ptr(sh[1], off, sh[2], None, sh[5])
    if sh[0] is False: return p
    return S.PV([(not_(sh[0]), p), (sh[0], S.null(sh[5]))])


def is_parallel(out, t):
    """all writes affine in t with a common stride, no cross-iteration overlap"""
    info = []
    for g, off, v in out:
        if isinstance(off, tuple): return False
        try:
            a, b = affine(off, t)
        except NoSummary:
            return False
        if a == 0: return False
        info.append((a, b))
    for i in range(len(info)):
        for j in range(i):
            if info[i][0] != info[j][0]: return False
            d = sub(info[i][1], info[j][1])
            if not is_c(d): return False
            if d != 0 and d % info[i][0] == 0: return False
    return True


def apply_f(f, v):
    if f[0] == 'const': return f[1]
    return tm._bv('bvor', tm._bv('bvand', v, tm.BV(f[1], f[3])), tm.BV(f[2], f[3]))


def propose(out, t):
    """an idempotent update function every write may be an instance of: constant, or (x & A) | B"""
    for g, off, v in out:
        if isinstance(off, tuple): v = off[2]
        if S.is_ptr(v): return None
        if is_c(v) and not isinstance(v, tm.BV): return ('const', v)
        if isinstance(v, tm.BV): return ('const', v)
        if isinstance(v.sort, int):
            f = propose_mask(v)
            if f: return f
        if t.id not in tm.free(v) and (not isinstance(off, tuple) or off[0].id not in tm.free(v)): return ('const', v)
        return None
    return None


def propose_mask(v, depth=0):
    n = v.sort
    full = (1 << n) - 1
    if depth > 8: return None
    if v.op == 'ite':
        for y in v.a[1:]:
            if isinstance(y, T):
                f = propose_mask(y, depth + 1)
                if f: return f
        return None
    if v.op == 'bvand':
        c = [y for y in v.a if isinstance(y, tm.BV)]
        if c: return ('mask', c[0].v, 0, n)
    if v.op == 'bvor':
        c = [y for y in v.a if isinstance(y, tm.BV)]
        if c:
            A = full
            y = [z for z in v.a if not isinstance(z, tm.BV)]
            if len(y) == 1 and y[0].op == 'bvand':
                d = [z for z in y[0].a if isinstance(z, tm.BV)]
                if d and (~d[0].v & full) & ~c[0].v: A = d[0].v | c[0].v
            return ('mask', A, c[0].v, n)
    return None


def scat_ok(x, kk, out, start, f, m):
    from . import prove
    for g, off, v in out:
        if isinstance(off, tuple): o, v, g = off[0], off[2], and_(g, off[1])
        else: o = off
        if S.is_ptr(v): return False
        w = apply_f(f, S.read(start, o))
        goal = eq(v, w)
        if goal is True: continue
        if goal is False: return False
        if prove.quick(S.Obl('scatter update', [], goal, None, 'loop'), 5): continue
        ob = S.Obl('scatter update', list(m.pc) + list(m.asm), implies(g, goal), None, 'loop')
        if not prove.quick(ob, 3): return False
    return True


def scat_chain(x, st0, kk, nm, ctx, T_, mask, f=None):
    """family written at data-dependent offsets: arbitrary after T_ iterations,
    except that bits outside mask (when known) keep their pre-loop value"""
    so = x.storesort(x.celltype(*kk))
    old = st0.heap.get(kk) or x.init_chain(*kk)
    if f:
        o = tm.sym('mo', 'I')
        return S.Chain('map', old, (o, tm.app('K' + nm, 'B', *ctx, T_, o), apply_f(f, S.read(old, o))))
    if mask is None or not isinstance(so, int):
        return S.Chain('init', None, lambda o: tm.app(nm, so, *ctx, T_, o))
    keep = ((1 << so) - 1) & ~mask

    def rd(o):
        return tm._bv('bvor', tm._bv('bvand', S.read(old, o), tm.BV(keep, so)),
                      tm._bv('bvand', tm.app(nm, so, *ctx, T_, o), tm.BV(mask, so)))
    return S.Chain('init', None, rd)


def change_mask(x, kk, ch, old):
    """bits a scatter write may change (None = unknown)"""
    so = x.storesort(x.celltype(*kk))
    if not isinstance(so, int): return None
    if ch is old: return 0
    if ch.kind == 'store':
        a = change_mask(x, kk, ch.prev, old)
        b = diff_bits(ch.d[1], S.read(ch.prev, ch.d[0]), so)
        return None if a is None or b is None else a | b
    if ch.kind == 'ite':
        a, b = change_mask(x, kk, ch.d[1], old), change_mask(x, kk, ch.d[2], old)
        return None if a is None or b is None else a | b
    return None


def diff_bits(v, base, n):
    """over-approximation of the bits where v can differ from base"""
    full = (1 << n) - 1
    if v is base: return 0
    if isinstance(v, tm.BV) and isinstance(base, tm.BV): return v.v ^ base.v
    if isinstance(v, T) and v.op == 'ite' and isinstance(base, T) and base.op == 'ite' and v.a[0] is base.a[0]:
        a, b = diff_bits(v.a[1], base.a[1], n), diff_bits(v.a[2], base.a[2], n)
        return None if a is None or b is None else a | b
    if isinstance(v, T) and v.op == 'ite':
        a, b = diff_bits(v.a[1], base, n), diff_bits(v.a[2], base, n)
        return None if a is None or b is None else a | b
    if isinstance(v, T) and v.op == 'bvand' and isinstance(v.a[1], tm.BV):
        a = diff_bits(v.a[0], base, n)
        if a is not None: return a | (full & ~v.a[1].v)
    if isinstance(v, T) and v.op == 'bvor' and isinstance(v.a[1], tm.BV):
        a = diff_bits(v.a[0], base, n)
        if a is not None: return a | v.a[1].v
    if isinstance(base, T) and base.op == 'ite':
        a, b = diff_bits(v, base.a[1], n), diff_bits(v, base.a[2], n)
        return None if a is None or b is None else a | b
    # equal outside a mask: (A & k) | (B & m) against (A & k) | (C & m)
    if isinstance(v, T) and isinstance(base, T) and v.op == 'bvor' and base.op == 'bvor':
        def split(y):
            out = {}
            for z_ in y.a:
                if isinstance(z_, T) and z_.op == 'bvand' and isinstance(z_.a[1], tm.BV): out[z_.a[1].v] = z_.a[0]
            return out
        p, q = split(v), split(base)
        if p.keys() == q.keys() and len(p) == 2:
            m = 0
            for k in p:
                if p[k] is not q[k]: m |= k
            return m
    return None


def nested_affine(c2, s2, t): raise NoSummary('nested map')


def trip(c, t):
    """number of iterations for a guard p + a*t <= / < 0 with unit step"""
    if not isinstance(c, T): return None
    if c.op == '<=':
        d = sub(c.a[0], c.a[1])             # d <= 0
        k, ts = tm._parts(d)
        a = 0
        rest = []
        for q, y in ts:
            if y is t: a = q
            elif t.id in tm.free(y): return None
            else: rest.append((q, y))
        if a < 1: return None
        b = tm.lin(k, rest, 'I')           # a*t + b <= 0  <=> t <= floor(-b/a)
        u = add(tm._fdiv(tm.neg(b), a), 1)
        return ite(le(0, u), u, 0)
    if c.op in ('not',) and c.a[0].op == '=0':       # d != 0 with step 1: assume from below is unsound in general
        return None
    return None


def same_writes(out, ref):
    if len(out) != len(ref): raise NoSummary('write set differs')
    gs = []
    for (g1, o1, v1), (g2, o2, v2) in zip(out, ref):
        if isinstance(o1, tuple) or isinstance(o2, tuple): raise NoSummary('nested map')
        gs.append(eq(o1, o2))
        gs.append(eq(g1, g2))
        if S.is_ptr(v1) or S.is_ptr(v2): gs.append(S.ptr_eq(v1, v2))
        else: gs.append(implies(g1, eq(v1, v2)))
    return and_(*gs)


def havoc(x, n, cond, inc, body, st):
    """sound over-approximation: everything the loop writes becomes arbitrary"""
    saved_ctx = list(x.iter_ctx)
    nobl = len(x.obls)
    envk, cells = set(), {}
    base_keys = None
    for rnd in range(8):
        q = havoc_state(x, st, envk, cells)
        top, low = x.nextbase, x.nextlocal
        wl, x.writes_log = x.writes_log, []
        try:
            c, cs, m, brk, other = body_once(x, n, cond, inc, body, q)
        finally:
            w, x.writes_log = x.writes_log, wl
            if wl is not None: wl.extend(w)
        grew = False
        fin = ([m] if m else []) + brk + [o[1] for o in other] + [cs]
        for r in fin:
            for k in diff_env(q.env, r.env):
                if k not in envk:
                    envk.add(k); grew = True
            for kk, ch in r.heap.items():
                if kk[0] >= top: continue
                if kk[0] < 0 and kk[0] <= low: continue
                old = q.heap.get(kk) or x.init_chain(*kk)
                if ch is old: continue
                if kk not in cells:
                    cells[kk] = True; grew = True
        if not grew: break
        del x.obls[nobl:]
    else:
        raise Unsupported('havoc loop does not stabilise')
    x.loopstats['havoc'] += 1
    outs = []
    if cond is not None:
        e = cs.clone()
        cc = not_(c)
        if e.add(cc): outs.append(('next', e, None))
    for b in brk: outs.append(('next', b, None))
    outs += other
    return outs


def havoc_state(x, st, envk, cells):
    q = st.clone()
    for k in envk:
        v = st.env.get(k)
        if v is None: continue
        if isinstance(v, tuple): continue
        if v is S.UNDEF: continue
        if S.is_ptr(v):
            ty = None
            for c, p in S.alts(v):
                if p.base: ty = p.ty
            q.env[k] = x.havoc_ptr(v, ty) if hasattr(x, 'havoc_ptr') else _havoc_ptr(x, v)
            continue
        so = tm.sort(v)
        q.env[k] = x.fresh('hv', 'I' if so == 'B' else so)
    for kk in cells:
        cty = x.celltype(*kk)
        if isinstance(cty, TPtr):
            old = q.heap.get(kk) or x.init_chain(*kk)
            try:
                v = S.read(old, 0)
                q.heap[kk] = S.Chain('store', old, (0, _havoc_ptr(x, v)))
            except Unsupported:
                raise
            continue
        so = x.storesort(cty)
        tm._fresh[0] += 1
        nm = 'HV_%s!%d' % (kk[1], tm._fresh[0])
        ctx = list(x.iter_ctx)
        q.heap[kk] = S.Chain('init', None, lambda o, nm=nm, so=so, ctx=ctx: tm.app(nm, so, *ctx, o))
    return q


def _havoc_ptr(x, v):
    """same block(s), arbitrary offset (the loop moves the pointer inside its block)"""
    out = []
    for c, p in S.alts(v):
        if p.base in (0, -999999): out.append((c, p)); continue
        if p.idx is not None: out.append((c, S.Ptr(p.base, p.off, p.path, x.fresh('hidx', 'I'), p.ty)))
        else: out.append((c, S.Ptr(p.base, x.fresh('hoff', 'I'), p.path, None, p.ty)))
    return S.mkpv(out)


def decl_ids(n, out=None):
    """{variable name: declaration id} of the variables referenced in n"""
    out = {} if out is None else out
    if n is None: return out
    if n.k == 'DeclRefExpr':
        if n.ref and n.ref[0] in ('VarDecl', 'ParmVarDecl'): out[n.ref[1]] = n.ref[2]
    for y in n.inner: decl_ids(y, out)
    return out


class LoopView:
    """what a loop invariant sees: the state at the loop head and at the entry of the loop"""
    def __init__(s, x, st, entry, ids, ctx):
        s.x, s.st, s.entry, s.ids, s.ctx = x, st, entry, ids, ctx

    def var(s, name, at=None):
        if name not in s.ids: raise Unsupported('loop invariant: no variable %s' % name)
        v = (at or s.st).env[s.ids[name]]
        return S.View(s.x, at or s.st, v) if S.is_ptr(v) else v

    def view(s, v, at=None): return S.View(s.x, at or s.st, v._p)


def modified(x, cond, inc, body, st):
    """(variables, cells) the loop may modify; then those that a complete iteration may modify (the others are modified on the way out only)"""
    nobl = len(x.obls)
    envk, cells = set(), {}
    for rnd in range(8):
        q = havoc_state(x, st, envk, cells)
        top, low = x.nextbase, x.nextlocal
        wl, x.writes_log = x.writes_log, []
        try:
            c, cs, m, brk, other = body_once(x, None, cond, inc, body, q)
        finally:
            w, x.writes_log = x.writes_log, wl
            if wl is not None: wl.extend(w)
        grew = False
        for r in ([m] if m else []) + brk + [o[1] for o in other] + [cs]:
            for k in diff_env(q.env, r.env):
                if k not in envk: envk.add(k); grew = True
            for kk, ch in r.heap.items():
                if kk[0] >= top or (kk[0] < 0 and kk[0] <= low) or kk in cells: continue
                if ch is not (q.heap.get(kk) or x.init_chain(*kk)): cells[kk] = True; grew = True
        del x.obls[nobl:]
        if not grew:
            if m is None: return envk, cells, set(), {}
            he, hc = set(diff_env(q.env, m.env)), {}
            for kk in cells:
                if m.heap.get(kk) is not q.heap.get(kk): hc[kk] = True
            return envk, cells, he, hc
    raise Unsupported('the set of locations a loop modifies does not stabilise')


def invariant_loop(x, n, cond, inc, body, st, inv, mod=None, measure=None):
    """inv(LoopView) -> [(name, term)]: holds on entry, is preserved by one arbitrary iteration, is known afterwards"""
    from .spec import Ctx
    envk, cells = (mod or modified(x, cond, inc, body, st))[2:]
    ids = {}
    for y in (cond, inc, body): decl_ids(y, ids)
    ctx = Ctx('sym'); ctx.x = x
    line = getattr(n, 'line', None)
    for nm, g in inv(LoopView(x, st, st, ids, ctx)): x.oblige(st, g, 'loop invariant on entry: %s' % nm, line, 'invariant')
    q = havoc_state(x, st, envk, cells)
    ctx.hyp = True
    for nm, g in inv(LoopView(x, q, st, ids, ctx)):
        g = truth(g)
        if g is not True: q.asm.append(g)
    ctx.hyp = False
    c, cs, m, brk, other = body_once(x, n, cond, inc, body, q)
    if m is not None:
        for nm, g in inv(LoopView(x, m, st, ids, ctx)): x.oblige(m, g, 'loop invariant preserved: %s' % nm, line, 'invariant')
        if measure is not None:
            a, b = measure(LoopView(x, q, st, ids, ctx)), measure(LoopView(x, m, st, ids, ctx))
            x.oblige(m, and_(le(0, a), lt(b, a)), 'loop terminates', line, 'invariant')
    x.loopstats['invariant'] += 1
    outs = []
    if cond is not None:
        e = cs.clone()
        if e.add(not_(c)): outs.append(('next', e, None))
    for b in brk: outs.append(('next', b, None))
    return outs + other


def use_invariants(x, table):
    """table: [(select(x, names of modified variables, modified cells) -> bool, inv, measure)]; the loops selected are verified with the
    invariant, the others as usual"""
    def chooser(x2, n, st):
        def run(x3, n, cond, inc, body, st):
            try: mod = modified(x3, cond, inc, body, st)
            except Unsupported: return None
            ids = {v: k for y in (cond, inc, body) for k, v in decl_ids(y).items()}
            names = {ids[k] for k in mod[0] if k in ids}
            for sel, inv, measure in table:
                if sel(x3, names, set(mod[1])): return invariant_loop(x3, n, cond, inc, body, st, inv, mod, measure)
            return None
        return run
    x.any_loop_spec = chooser
