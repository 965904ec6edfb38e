"""C05 Fortran interface: every Fortran entry point, in each of its four spellings, calls the C function of the same name
exactly once with the caller's values in the same order, stores its result in the last argument and touches nothing else."""
import os, ctypes, struct, random, hashlib
from ..spec import *
from .. import native as N, cfront, sym as S
from ..cfront import *

FILES = {'mmg3d': ['mmg3d/API_functionsf_3d.c', 'mmg3d/libmmg3d_toolsf.c', 'mmg3d/libmmg3df.c'],
         'mmg2d': ['mmg2d/API_functionsf_2d.c', 'mmg2d/libmmg2d_toolsf.c', 'mmg2d/libmmg2df.c'],
         'mmgs': ['mmgs/API_functionsf_s.c', 'mmgs/libmmgs_toolsf.c', 'mmgs/libmmgsf.c'],
         '': ['common/API_functionsf.c']}
# last pointer argument that callers may omit (the wrapper then passes NULL on)
OPTIONAL = {'MMG3D_MMG3DLS': 'met', 'MMG2D_MMG2DLS': 'met', 'MMGS_MMGSLS': 'met'}
# opaque handles held by the Fortran caller: the wrapper receives their address
HANDLES = ('MMG5_Mesh', 'MMG5_Sol')
CHAR = TInt(8, True)
ASSUMPTIONS = ['the allocation of the NUL-terminated copy of a file name succeeds',
               'the MMGx_Init_mesh, Free_all, Free_structures and Free_names wrappers take C varargs and are not covered',
               'a C function is abstracted to the recording of its arguments and an arbitrary result: its own effects are other contracts']


def split(q):
    """parameter types of a C function type"""
    i = q.index('(')
    if q[i:].lstrip().startswith('(*'):
        j = q.index(')', i)
        rest = q[j + 1:].strip()
        return q[:i].strip(), split_args(rest)
    return q[:i].strip(), split_args(q[i:])


def split_args(a):
    a = a.strip()[1:-1]
    out, d, cur = [], 0, ''
    for ch in a:
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        d += (ch in '([') - (ch in ')]')
        cur += ch
    if cur.strip() and cur.strip() != 'void': out.append(cur.strip())
    return out


def is_char(t): return isinstance(t, TPtr) and isinstance(t.to, TInt) and t.to.w == 8


def ctor(tu, nm):
    """(return type, parameter types) of the C function declared as nm"""
    q = None
    if nm in tu.protos: q = tu.protos[nm]
    elif nm in tu.gvars:
        g = tu.gvars[nm]
        if isinstance(g, dict): q = g['type'].get('desugaredQualType', g['type']['qualType'])
    elif nm in tu.funs: q = tu.funs[nm]['type']['qualType']
    if q is None: return None
    r, a = split(q)
    ps = [tu.ptype(x) for x in a]
    return tu.ptype(r), [TPtr(p.of) if isinstance(p, TArr) else p for p in ps]


class Wrap(Contract):
    """one Fortran entry point (all spellings)"""
    def __init__(c, rel, lib, up, cn, stub):
        Contract.__init__(c, up, lib, [], name=up, trials=12, gen=lambda *a: None)
        c.rel, c.cn, c.stub = rel, cn, stub
        c.build = {'only': (rel,), 'extra': (stub,)}
        c.cost = 0.1

    def prepare(c): c.tu()

    def tu(c):
        P = program(c.lib)
        tu = P.tu(c.rel)
        if c.fn not in tu.funs: raise Unsupported('%s not found' % c.fn)
        return tu

    def spellings(c):
        lo = c.fn.lower()
        return [c.fn, lo, lo + '_', lo + '__']

    def plan(c):
        """[(kind, ...)] from the C prototype: Fortran passes everything by reference"""
        tu = c.tu()
        rt, cps = ctor(tu, c.cn)
        ps = fun_params(tu.fun(c.fn))
        out, i = [], 0
        for q in cps:
            if is_char(q):
                out.append(('str', i, i + 1)); i += 2
            elif isinstance(q, TPtr) and not (isinstance(q.to, TRec) and q.to.name in HANDLES):
                out.append(('pass', i)); i += 1
            else:
                out.append(('deref', i)); i += 1
        rest = len(ps) - i
        if rest < 0 or rest > 1: raise Unsupported('%s has %d arguments, %s takes %d' % (c.fn, len(ps), c.cn, len(cps)))
        return tu, rt, cps, ps, out, (i if rest == 1 else None)

    # ---------------------------------------------------------------- proof
    def verify_with(c, r, timeout):
        tu, rt, cps, ps, plan, ri = c.plan()
        for sp in c.spellings(): c.one(sp, r, timeout, tu, rt, cps, ps, plan, ri)
        r.reach = 1

    def one(c, sp, r, timeout, tu, rt, cps, ps, plan, ri):
        x = S.Exec(program(c.lib), {})
        x.exempt_alloc_fail = True
        x.base_tu = tu
        fn = tu.fun(sp)
        if fn is None: raise Unsupported('no entry point ' + sp)
        x.fnstack.append((tu, '', fn, None))
        st = S.St()
        args, blocks = [], []
        opt = OPTIONAL.get(c.fn)
        for i, p in enumerate(fun_params(fn)):
            to = p.ty.to if isinstance(p.ty, TPtr) else None
            if to is None: raise Unsupported('%s: argument %d is not a reference' % (sp, i))
            b = x.new_block('a%d_%s' % (i, p.name), to, None)
            v = S.Ptr(b, 0, '', None, to)
            if opt is not None and plan and i < len(plan) and i == len(plan) - 1 and p.name == opt:
                cn = tm.sym('isnull_' + p.name, 'B')
                v = S.PV([(tm.not_(cn), v), (cn, S.null(to))])
            args.append(v)
        res = []

        def record(x, st, a, n):
            v = None
            if not isinstance(rt, TVoid):
                v = x.load_conv(tm.fresh('result', x.storesort(rt)), rt) if not isinstance(rt, TPtr) else None
            e = (c.cn, list(a), st.clone(), v)
            st.ghost['calls'] = st.ghost.get('calls', ()) + (e,)
            return v if v is not None else 0

        def other(x, st, a, n, nm):
            st.ghost['calls'] = st.ghost.get('calls', ()) + ((nm, list(a), None, None),)
            return x.fresh('other', 'I')
        x.policy[c.cn] = record
        x.policy['*'] = other
        base_hyps = []
        # file names hold no NUL in their first len characters
        for k, *ix in plan:
            if k == 'str':
                ln = x.load(st, args[ix[1]], ps[ix[1]].ty.to)
                base_hyps.append(tm.le(0, ln))
                kk = tm.fresh('k', 'I')
                ch = x.load(st, x.padd(args[ix[0]], kk), CHAR)
                base_hyps.append(tm.forall(kk, tm.implies(tm.and_(tm.le(0, kk), tm.lt(kk, ln)), tm.not_(tm.eq(ch, 0)))))
        st.asm += base_hyps
        # functions of the wrapper file itself (spellings, helpers) are inlined, any other one is a recorded call
        real_inline = x.inline

        def inl(f, name, a, s2):
            if name in tu.funs and name != c.cn: return real_inline(f, name, a, s2)
            return other(x, s2, a, None, name)
        x.inline = inl
        q = st.clone()
        rets = x.run_fn(tu, fn, list(args), q)
        if not rets: raise Unsupported('no return path')
        obls = list(x.obls)
        r.inlined |= set(n for n in x.inlined if n != sp)
        for qs, _ in rets:
            hyp = list(qs.pc) + list(qs.asm)

            def ob(nm, g, kind='ensures'): obls.append(S.Obl('%s / %s' % (sp, nm), hyp, tm.truth(g), None, kind, sp))

            def tree(g, f):
                """property of the recorded call sequence on every branch"""
                if isinstance(g, tuple) and len(g) == 4 and g[0] == 'ite': return tm.ite(g[1], tree(g[2], f), tree(g[3], f))
                return f(g or ())
            gc = qs.ghost.get('calls', ())
            ob('exactly one call, to %s' % c.cn, tree(gc, lambda l: len(l) == 1 and l[0][0] == c.cn))
            for j, ((kind, *ix), q) in enumerate(zip(plan, cps)):
                def arg(l, j=j, kind=kind, ix=ix, q=q):
                    if len(l) != 1 or l[0][0] != c.cn or len(l[0][1]) != len(cps): return False
                    got, at = l[0][1][j], l[0][2]
                    if kind == 'pass': return S.ptr_eq(got, args[ix[0]]) if S.is_ptr(got) else False
                    if kind == 'deref':
                        w = args[ix[0]]
                        wt = ps[ix[0]].ty.to
                        if isinstance(w, S.PV):
                            cn, ptr = w.alts[0]
                            e = x.load(st, ptr, wt)
                            if S.is_c(got): got = S.null(wt.to) if got == 0 else got
                            if not S.is_ptr(got): return False
                            return tm.ite(cn, S.ptr_eq(got, e), Not(S.nonnull(got)))
                        e = x.load(st, w, wt)
                        if S.is_ptr(e): return S.ptr_eq(got, e) if S.is_ptr(got) else False
                        return tm.eq(got, x.conv(e, q)) if not S.is_ptr(got) else False
                    # string: the first len characters and the terminator, inside the allocated copy
                    if not S.is_ptr(got): return False
                    ln = x.load(st, args[ix[1]], ps[ix[1]].ty.to)
                    al = [p for cnd, p in S.alts(got) if p.base]
                    if len(al) != 1 or al[0].base < 0: return False
                    bl = x.blocks[al[0].base]
                    k = tm.fresh('k', 'I')
                    cp = x.cast_ptr(al[0], CHAR)
                    a = x.load(at, x.padd(cp, k), CHAR)
                    b = x.load(st, x.padd(args[ix[0]], k), CHAR)
                    z = x.load(at, x.padd(cp, ln), CHAR)
                    g = tm.and_(tm.implies(tm.and_(tm.le(0, k), tm.lt(k, ln)), tm.eq(a, b)), tm.eq(z, 0))
                    if getattr(bl, 'bytes', None) is not None: g = tm.and_(g, tm.le(tm.add(ln, 1), bl.bytes))
                    return g
                ob('argument %d of %s' % (j + 1, c.cn), tree(gc, arg))
            if ri is not None:
                t = ps[ri].ty.to

                def retv(l):
                    if len(l) != 1 or l[0][3] is None: return False
                    return tm.eq(x.load(qs, args[ri], t), x.conv(l[0][3], t))
                ob('result stored', tree(gc, retv))
            s2 = Ctx('sym'); s2.x, s2.prest = x, st
            allowed = [(S.View(x, st, args[ri]), '*', 0, 1)] if ri is not None else []
            for nm, g in frame(x, st, qs, allowed, s2): ob('frame ' + nm, g, 'frame')
        for o in obls:
            discharge(o, timeout)
            r.obls.append(o)
            if o.status == 'refuted': r.refuted.append(o)
            elif o.status != 'proved': r.unknown.append(o)

    # ---------------------------------------------------------------- executions
    def native_child(c, seed, trials, so, budget, only=None, hint=None):
        tu, rt, cps, ps, plan, ri = c.plan()
        lib = N.load(so)
        log = (ctypes.c_longlong * 32).in_dll(lib, 'cdv_log')
        strs = ((ctypes.c_char * 256) * 32).in_dll(lib, 'cdv_str')
        cnt = ctypes.c_int.in_dll(lib, 'cdv_n')
        name = ctypes.c_char_p.in_dll(lib, 'cdv_name')
        retl = ctypes.c_longlong.in_dll(lib, 'cdv_ri')
        retd = ctypes.c_double.in_dll(lib, 'cdv_rd')
        done = 0
        for t in range(trials):
            if only is not None and t not in only: continue
            rng = random.Random('%s/%s/%d' % (seed, c.name, t))
            sp = c.spellings()[t % 4]
            f = getattr(lib, sp)
            f.restype = None
            f.argtypes = [ctypes.c_void_p] * len(ps)
            bufs, exp = [], [None] * len(plan)
            for p in ps:
                b = ctypes.create_string_buffer(bytes(rng.randrange(1, 256) for _ in range(320)), 320)
                bufs.append(b)
            for j, ((kind, *ix), q) in enumerate(zip(plan, cps)):
                if kind == 'str':
                    n = rng.randrange(0, 200)
                    wt = ps[ix[1]].ty.to
                    ctypes.memmove(bufs[ix[1]], n.to_bytes(8, 'little'), tu.sizeof(wt))
                    exp[j] = ('str', bufs[ix[0]].raw[:n])
                elif kind == 'pass': exp[j] = ('val', ctypes.addressof(bufs[ix[0]]))
                else:
                    if isinstance(q, TFlt):
                        v = rng.uniform(-1e3, 1e3)
                        ctypes.memmove(bufs[ix[0]], struct.pack('=d', v), 8)
                        exp[j] = ('val', struct.unpack('=q', struct.pack('=d', v))[0])
                    elif isinstance(q, TPtr):
                        exp[j] = ('val', struct.unpack('=q', bufs[ix[0]].raw[:8])[0])
                    else:
                        v = rng.choice((0, 1, rng.randrange(0, 100)))
                        wt = ps[ix[0]].ty.to
                        ctypes.memmove(bufs[ix[0]], v.to_bytes(8, 'little'), tu.sizeof(wt))
                        exp[j] = ('val', v)
            ad = [ctypes.addressof(b) for b in bufs]
            opt = OPTIONAL.get(c.fn)
            if opt and rng.random() < 0.4:
                k = len(plan) - 1
                if ps[k].name == opt: ad[k] = 0; exp[k] = ('val', 0)
            retl.value = rng.randrange(1, 1000)
            retd.value = rng.uniform(1, 1000)
            cnt.value = 0
            before = [b.raw for b in bufs]
            with N.quiet(): f(*ad)
            done += 1
            bad = None
            if cnt.value != 1 or (name.value or b'').decode() != c.cn: bad = '%d calls, last to %s' % (cnt.value, name.value)
            else:
                for j, e in enumerate(exp):
                    if e[0] == 'val' and log[j] != e[1]: bad = 'argument %d: %d instead of %d' % (j + 1, log[j], e[1])
                    if e[0] == 'str' and strs[j].value != e[1]: bad = 'argument %d: %r instead of %r' % (j + 1, strs[j].value, e[1])
                if ri is not None:
                    w = tu.sizeof(ps[ri].ty.to)
                    want = struct.pack('=d', retd.value) if isinstance(rt, TFlt) else retl.value.to_bytes(8, 'little')[:w]
                    if bufs[ri].raw[:w] != want: bad = 'result not stored'
                for i, b in enumerate(bufs):
                    w = tu.sizeof(ps[ri].ty.to) if i == ri else 0
                    if b.raw[w:] != before[i][w:]: bad = 'argument %d modified by the wrapper' % i
            if bad: return {'fail': '%s: %s' % (sp, bad), 'trial': t, 'seed': seed, 'done': done, 'hits': {}, 'args': {}, 'ret': ''}
        return {'done': done, 'rejected': 0, 'hits': {'call': done}}


def stubs(tu, cns):
    """recording definitions of the C functions"""
    def ct(t):
        if isinstance(t, TFlt): return 'double'
        if isinstance(t, TPtr): return 'void*'
        return {8: 'signed char', 16: 'short', 32: 'int', 64: 'long long'}[t.w]
    out = ['#include <string.h>', 'long long cdv_log[32]; char cdv_str[32][256]; int cdv_n; const char *cdv_name; long long cdv_ri; double cdv_rd;',
           'static long long bits(double d){long long r; memcpy(&r,&d,8); return r;}',
           'static void str(int i,const char*s){int k=0; for(;k<255&&s[k];k++) cdv_str[i][k]=s[k]; cdv_str[i][k]=0;}']
    for cn in sorted(set(cns)):
        rt, cps = ctor(tu, cn)
        r = 'void' if isinstance(rt, TVoid) else ct(rt)
        pa = ','.join('%s a%d' % (ct(p), i) for i, p in enumerate(cps)) or 'void'
        b = 'cdv_n++; cdv_name="%s";' % cn
        for i, p in enumerate(cps):
            if is_char(p): b += ' str(%d,a%d);' % (i, i)
            elif isinstance(p, TFlt): b += ' cdv_log[%d]=bits(a%d);' % (i, i)
            else: b += ' cdv_log[%d]=(long long)a%d;' % (i, i)
        if r != 'void': b += ' return (%s)%s;' % (r, 'cdv_rd' if r == 'double' else 'cdv_ri')
        if cn in tu.gvars:
            out.append('static %s st_%s(%s){%s}\n%s (*%s)(%s)=st_%s;' % (r, cn, pa, b, r, cn, ','.join(ct(p) for p in cps) or 'void', cn))
        else: out.append('%s %s(%s){%s}' % (r, cn, pa, b))
    txt = '\n'.join(out) + '\n'
    d = os.path.join(cfront.CACHE, 'stubs')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'stub_%s.c' % hashlib.sha1(txt.encode()).hexdigest()[:16])
    if not os.path.exists(f):
        tmp = f + '.%d' % os.getpid()
        open(tmp, 'w').write(txt); os.replace(tmp, f)
    return f


VARIADIC = ('INIT_MESH', 'FREE_ALL', 'FREE_STRUCTURES', 'FREE_NAMES')


def contracts():
    out = []
    for lib, fs in FILES.items():
        P = program(lib)
        for rel in fs:
            tu = P.tu(rel)
            ups = [n for n in tu.funs if n.upper() == n and n.lower() in tu.funs and not n.endswith(VARIADIC)]
            low = {}
            for k in list(tu.protos) + list(tu.gvars) + list(tu.funs):
                if k.upper() != k and k.lower() != k: low.setdefault(k.lower(), k)
            pairs = []
            for u in ups:
                cn = low.get(u.lower())
                if cn is None: cn = next((k for k in tu.protos if k.lower() == u.lower()), None)
                if cn is None or ctor(tu, cn) is None: pairs.append((u, None)); continue
                pairs.append((u, cn))
            f = stubs(tu, [cn for _, cn in pairs if cn])
            for u, cn in pairs: out.append(Wrap(rel, lib, u, cn or u, f))
    return out
