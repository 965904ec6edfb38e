"""C04 parameters: every parameter of the three libraries is stored in the place the remesher reads it from, with the
documented normalisation, leaving every other parameter alone; unsupported or invalid requests are refused and change nothing."""
import math
from ..spec import *
from .. import gens as G
from ..gens import INT, DBL

LIBS = [('MMG3D', 'mmg3d'), ('MMG2D', 'mmg2d'), ('MMGS', 'mmgs')]
# enumerator suffix -> (info field, kind) ; kind: w8 (int8), u8 (uint8), i (int/MMG5_int)
COMMON = {'verbose': ('imprim', 'i'), 'debug': ('ddebug', 'w8'), 'isosurf': ('isosurf', 'w8'), 'isoref': ('isoref', 'i'),
          'numsubdomain': ('nsd', 'i'), 'optim': ('optim', 'u8'), 'noinsert': ('noinsert', 'u8'), 'noswap': ('noswap', 'u8'),
          'nomove': ('nomove', 'u8'), 'nreg': ('nreg', 'w8'), 'xreg': ('xreg', 'w8'), 'nosizreq': ('nosizreq', 'u8'),
          'anisosize': ('ani', 'u8')}
PLAIN = {'mmg3d': dict(COMMON, octree=('PROctree', 'i'), opnbdy=('opnbdy', 'i'), optimLES=('optimLES', 'u8'), nosurf=('nosurf', 'u8'),
                       renum=('renum', 'i')),
         'mmg2d': dict(COMMON, opnbdy=('opnbdy', 'i'), nosurf=('nosurf', 'u8'), iso=('iso', 'w8'), **{'3dMedit': ('renum', 'i')}),
         'mmgs': dict(COMMON, renum=('renum', 'i'))}
GETTERS = {'mmg3d': {'verbose': 'imprim', 'mem': 'mem', 'octree': 'PROctree', 'debug': 'ddebug', 'iso': 'iso', 'lag': 'lag',
                     'noinsert': 'noinsert', 'noswap': 'noswap', 'nomove': 'nomove', 'nosurf': 'nosurf', 'nreg': 'nreg', 'xreg': 'xreg',
                     'numberOfLocalParam': 'npar', 'numberOfMat': 'nmat', 'renum': 'renum'},
           'mmgs': {'verbose': 'imprim', 'mem': 'mem', 'debug': 'ddebug', 'noinsert': 'noinsert', 'noswap': 'noswap', 'nomove': 'nomove',
                    'nreg': 'nreg', 'xreg': 'xreg', 'numberOfLocalParam': 'npar', 'renum': 'renum'}}
ENUM = {}


def enum(P, lib, nm):
    if lib not in ENUM:
        p = program(lib)
        ENUM[lib] = p.find('%s_Set_iparameter' % P)[0].enums
    return ENUM[lib].get(nm)


def imesh(rng, mem, lib):
    m, w, b = G.mesh(rng, mem, lib)
    i = w.info
    for f in ('dhd', 'hmin', 'hmax', 'hsiz', 'hgrad', 'hgradreq', 'hausd', 'ls', 'lxreg', 'rmc'): setattr(i, f, G.rdouble(rng))
    for f in ('isoref', 'nsd', 'mem', 'opnbdy', 'renum', 'PROctree', 'imprim'): setattr(i, f, rng.choice((0, 1, 2, 5, 10, -1)))
    for f in ('nreg', 'xreg', 'ddebug', 'iso', 'isosurf', 'setfem', 'fem', 'lag', 'parTyp', 'sethmin', 'sethmax', 'ani', 'optim', 'optimLES',
              'noinsert', 'noswap', 'nomove', 'nosurf', 'nosizreq'): setattr(i, f, rng.choice((0, 0, 1, 1, 2)))
    return m, w, b


def plain(P, lib, nm):
    fld, kind = PLAIN[lib][nm]
    V = enum(P, lib, '%s_IPARAM_%s' % (P, nm))

    def requires(s):
        r = [Not(s.pre.mesh.isnull())]
        if kind == 'w8': r += [tm.le(-128, s.pre.val), tm.le(s.pre.val, 127)]
        if kind == 'u8': r += [tm.le(0, s.pre.val), tm.le(s.pre.val, 255)]
        return r

    def ensures(s):
        return [('accepted', Eq(s.ret, 1)), ('value stored', Eq(getattr(s.post.mesh.info, fld), s.pre.val))]

    def assigns(s): return [(s.pre.mesh, 'info.' + fld)]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        return {'mesh': m, 'sol': 0, 'iparam': V, 'val': rng.choice((0, 1, 1, 2, 3, 5, 10, 100, G.rref(rng)))}
    return Contract('%s_Set_iparameter' % P, lib, ['mesh', 'sol', 'iparam', 'val'], ensures, requires, assigns, gen=gen,
                    consts={'iparam': V}, name='%s_Set_iparameter[%s]' % (P, nm), trials=20)


def nofem(P, lib):
    V = enum(P, lib, '%s_IPARAM_nofem' % P)

    def ensures(s):
        return [('accepted', Eq(s.ret, 1)), ('setfem is the negation', Eq(s.post.mesh.info.setfem, Ite(Eq(s.pre.val, 1), 0, 1)))]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        return {'mesh': m, 'sol': 0, 'iparam': V, 'val': rng.choice((0, 1))}
    return Contract('%s_Set_iparameter' % P, lib, ['mesh', 'sol', 'iparam', 'val'], ensures, lambda s: [tm.le(0, s.pre.val), tm.le(s.pre.val, 1)],
                    lambda s: [(s.pre.mesh, 'info.setfem')], gen=gen, consts={'iparam': V}, name='%s_Set_iparameter[nofem]' % P, trials=20)


def iso3(P, lib):
    V = enum(P, lib, '%s_IPARAM_iso' % P)

    def requires(s):
        r = [tm.le(-128, s.pre.val), tm.le(s.pre.val, 127)]
        if lib == 'mmg3d': r.append(Or(Eq(s.pre.val, 0), Eq(s.pre.mesh.nt, 0)))
        return r

    def ensures(s):
        v = s.pre.val
        if lib == 'mmgs': v = Ite(Eq(s.pre.mesh.info.iso, 0), v, s.pre.mesh.info.iso)
        return [('accepted', Eq(s.ret, 1)), ('iso mode stored', Eq(s.post.mesh.info.iso, v))]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        w.nt = 0
        return {'mesh': m, 'sol': 0, 'iparam': V, 'val': rng.choice((0, 1))}
    return Contract('%s_Set_iparameter' % P, lib, ['mesh', 'sol', 'iparam', 'val'], ensures, requires, lambda s: [(s.pre.mesh, 'info.iso')],
                    gen=gen, consts={'iparam': V}, name='%s_Set_iparameter[iso]' % P, trials=20,
                    policy={'MMG3D_skipIso': unreachable})


def keepref(P, lib):
    V = enum(P, lib, '%s_IPARAM_keepRef' % P)

    def ensures(s):
        i = s.pre.mesh.info
        return [('accepted', Eq(s.ret, 1)),
                ('references preserved unless multi-material', Eq(s.post.mesh.info.iso, Ite(And(Eq(i.nmat, 0), Not(Eq(s.pre.val, 0))), 2, i.iso)))]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        w.info.nmat = rng.choice((0, 0, 2))
        return {'mesh': m, 'sol': 0, 'iparam': V, 'val': rng.choice((0, 1))}
    return Contract('%s_Set_iparameter' % P, lib, ['mesh', 'sol', 'iparam', 'val'], ensures, None, lambda s: [(s.pre.mesh, 'info.iso')],
                    gen=gen, consts={'iparam': V}, name='%s_Set_iparameter[keepRef]' % P, trials=20)


ANGEDG = Fraction(0.707106781186548)


def angle(P, lib):
    V = enum(P, lib, '%s_IPARAM_angle' % P)

    def requires(s):
        m = s.pre.mesh
        # no table to free: the freeing itself is memory management
        r = [m.xpoint.isnull()]
        if lib != 'mmgs': r += [m.htab.geom.isnull(), m.xtetra.isnull()]
        return r

    def ensures(s):
        return [('accepted', Eq(s.ret, 1)), ('ridge detection switched', s.Close(s.post.mesh.info.dhd, Ite(Eq(s.pre.val, 0), -1, ANGEDG)))]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        w.xpoint = 0; w.xtetra = 0; w.htab.geom = 0
        return {'mesh': m, 'sol': 0, 'iparam': V, 'val': rng.choice((0, 1))}
    return Contract('%s_Set_iparameter' % P, lib, ['mesh', 'sol', 'iparam', 'val'], ensures, requires, lambda s: [(s.pre.mesh, 'info.dhd')],
                    gen=gen, consts={'iparam': V}, name='%s_Set_iparameter[angle]' % P, trials=20)


SPECIAL = {'mmg3d': ['mem', 'angle', 'nofem', 'iso', 'numberOfLocalParam', 'numberOfLSBaseReferences', 'numberOfMat'],
           'mmg2d': ['mem', 'angle', 'nofem', 'numberOfLocalParam', 'numberOfLSBaseReferences', 'numberOfMat'],
           'mmgs': ['mem', 'angle', 'iso', 'keepRef', 'numberOfLocalParam', 'numberOfLSBaseReferences', 'numberOfMat']}


def unknown(P, lib, fn, what, supported):
    sup = sorted(v for v in (enum(P, lib, '%s_%s_%s' % (P, what, n)) for n in supported) if v is not None)
    val = 'val'

    def requires(s): return [Not(Eq(s.pre.par, v)) for v in sup]

    def ensures(s): return [('refused', Eq(s.ret, 0))]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        a = {'mesh': m, 'par': rng.choice([q for q in list(range(-2, 45)) + [1000] if q not in sup])}
        if 'Get' not in fn: a['sol'] = 0; a[val] = rng.choice((0, 1, 2))
        return a
    params = ['mesh', 'par'] if 'Get' in fn else ['mesh', 'sol', 'par', val]
    return Contract('%s_%s' % (P, fn), lib, params, ensures, requires, lambda s: [], gen=gen, name='%s_%s[unsupported]' % (P, fn), trials=40,
                    policy={'MMG3D_skipIso': unreachable, '%s_memOption' % P: unreachable})


def getter(P, lib, nm):
    V = enum(P, lib, '%s_IPARAM_%s' % (P, nm))
    if nm == 'angle':
        def ensures(s): return [('angle detection state', Eq(s.ret, Ite(tm.le(s.pre.mesh.info.dhd, 0), 0, 1)))]
    else:
        def ensures(s): return [('stored value returned', Eq(s.ret, getattr(s.pre.mesh.info, GETTERS[lib][nm])))]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        return {'mesh': m, 'par': V}
    return Contract('%s_Get_iparameter' % P, lib, ['mesh', 'par'], ensures, None, lambda s: [], gen=gen, consts={'par': V},
                    name='%s_Get_iparameter[%s]' % (P, nm), trials=20)


# ------------------------------------------------------------------ real parameters
DPAR = ['angleDetection', 'hmin', 'hmax', 'hsiz', 'hausd', 'hgrad', 'hgradreq', 'ls', 'xreg', 'rmc']
DFLD = {'angleDetection': 'dhd', 'xreg': 'lxreg'}


def dpar(P, lib, nm):
    V = enum(P, lib, '%s_DPARAM_%s' % (P, nm))
    fld = DFLD.get(nm, nm)

    def ensures(s):
        v, i0, i1 = s.pre.val, s.pre.mesh.info, s.post.mesh.info
        got = getattr(i1, fld)
        if s.mode == 'nat': v = float(v)
        ok = ('accepted', Eq(s.ret, 1))
        if nm in ('hsiz', 'ls'): return [ok, ('value stored', Eq(got, v))]
        if nm == 'rmc': return [ok, ('default threshold when 0, else the value', s.Close(got, Ite(Eq(v, 0), Fraction(1e-5), v)))]
        if nm == 'xreg':
            return [ok, ('stored only in [0,1]', Eq(got, Ite(And(tm.le(0, v), tm.le(v, 1)), v, i0.lxreg)))]
        if nm == 'hausd':
            return [('positive values only', Eq(s.ret, Ite(tm.lt(0, v), 1, 0))), ('stored when positive', Eq(got, Ite(tm.lt(0, v), v, i0.hausd)))]
        if nm in ('hgrad', 'hgradreq'):
            if s.mode == 'nat': return [ok, ('log of the ratio', s.Close(got, -1.0 if v <= 0 else math.log(v)))]
            return [ok, ('disabled unless positive', Implies(tm.le(v, 0), s.Close(got, -1))), ('log of the ratio', Implies(tm.lt(0, v), Eq(got, s.x.ufun('log', [v]))))]
        if nm == 'angleDetection':
            if s.mode == 'nat': return [ok, ('cosine of the clamped angle', s.Close(got, math.cos(max(0.0, min(180.0, v)) * math.pi / 180)))]
            c = Ite(tm.le(v, 0), 0, Ite(tm.le(180, v), 180, v))
            a = tm.rdiv(tm.mul(c, Fraction(math.pi)), 180)
            return [ok, ('cosine of the clamped angle', Eq(got, s.x.ufun('cos', [a])))]
        # hmin / hmax
        lo, hi = (v, i0.hmax) if nm == 'hmin' else (i0.hmin, v)
        other = i0.sethmax if nm == 'hmin' else i0.sethmin
        good = tm.lt(lo, hi) if lib == 'mmg2d' else True
        r = [('marked as user defined', Eq(getattr(i1, 'set' + nm), 1)), ('value stored', Eq(got, v))]
        if lib == 'mmg2d':
            r.append(('refused when hmin >= hmax or not positive', Eq(s.ret, Ite(And(Or(Eq(other, 0), good), tm.lt(0, v)), 1, 0))))
        else: r.append(ok)
        return r

    def assigns(s):
        a = [(s.pre.mesh, 'info.' + fld)]
        if nm in ('hmin', 'hmax'): a.append((s.pre.mesh, 'info.set' + nm))
        return a

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        return {'mesh': m, 'sol': 0, 'par': V, 'val': rng.choice((0.0, 1.0, -1.0, 0.5, 2.0, 45.0, 180.0, 200.0, rng.uniform(-3, 3), G.rdouble(rng)))}
    return Contract('%s_Set_dparameter' % P, lib, ['mesh', 'sol', 'par', 'val'], ensures, None, assigns, gen=gen, consts={'par': V},
                    name='%s_Set_dparameter[%s]' % (P, nm), trials=30)


# ------------------------------------------------------------------ tables
TYPS = {'mmg3d': {'MMG5_Triangle': 2, 'MMG5_Tetrahedron': 4}, 'mmg2d': {'MMG5_Triangle': 2, 'MMG5_Edg': None}, 'mmgs': {'MMG5_Triangle': 2}}
TYPBIT = {'MMG5_Triangle': 2, 'MMG5_Tetrahedron': 4, 'MMG5_Edg': 8}


def local_par(P, lib):
    typs = {n: enum(P, lib, n) for n in TYPS[lib]}
    R = TRec('MMG5_Par')

    def requires(s):
        i = s.pre.mesh.info
        return [tm.le(0, i.npar), tm.le(0, i.npari), tm.le(i.npari, i.npar), Or(Eq(i.npar, 0), Not(i.par.isnull())),
                tm.le(0, i.parTyp), tm.le(i.parTyp, 127)]

    def ok(s):
        i, p = s.pre.mesh.info, s.pre
        return And(tm.lt(i.npari, i.npar), Or(*[Eq(p.typ, v) for v in typs.values()]), tm.le(0, p.ref), tm.lt(0, p.hmin), tm.lt(0, p.hmax),
                   tm.lt(0, p.hausd))

    def same(s, k):
        q = s.pre.mesh.info.par[k]
        return And(Eq(q.elt, s.pre.typ), Eq(q.ref, s.pre.ref))

    def ensures(s):
        g = ok(s)
        i0, i1, p = s.pre.mesh.info, s.post.mesh.info, s.pre
        out = [('refused iff invalid or full', Eq(s.ret, Ite(g, 1, 0)))]
        if s.mode == 'nat' and not g: return out
        known = s.Exists(0, i0.npari, lambda k: same(s, k))
        first = lambda k: And(same(s, k), s.ForAll(0, k, lambda j: Not(same(s, j)))) if s.mode == 'nat' else same(s, k)

        def holds(q): return And(Eq(q.elt, p.typ), Eq(q.ref, p.ref), Eq(q.hmin, p.hmin), Eq(q.hmax, p.hmax), Eq(q.hausd, p.hausd))
        n = i0.npari
        if s.mode == 'nat':
            if known:
                k = next(k for k in range(n) if same(s, k))
                out += [('known entry updated', holds(i1.par[k])), ('not duplicated', i1.npari == n)]
            else:
                out += [('new entry appended', holds(i1.par[n])), ('counted', i1.npari == n + 1)]
        else:
            out.append(('entry present afterwards', Implies(g, s.Exists(0, i1.npari, lambda k: holds(i1.par[k])))))
            out.append(('count', Implies(g, Or(And(Eq(i1.npari, n), known), And(Eq(i1.npari, n + 1), Not(known)))) if False else
                        Implies(g, Or(Eq(i1.npari, n), Eq(i1.npari, n + 1)))))
            out.append(('appended at the end', Implies(And(g, Eq(i1.npari, n + 1)), holds(i1.par[n]))))
            out.append(('appended only when unknown', Implies(And(g, Eq(i1.npari, n + 1)), s.ForAll(0, n, lambda k: Not(same(s, k))))))
        out.append(('other entries kept', Implies(g, s.ForAll(0, n, lambda k: Or(same(s, k), And(*[Eq(i1.par[k].cell(f), i0.par[k].cell(f))
                    for f in ('elt', 'ref', 'hmin', 'hmax', 'hausd')]))))))
        bits = i0.parTyp
        for nme, v in typs.items():
            t = TYPBIT[nme]
            out.append(('%s announced to the remesher' % nme, Implies(And(g, Eq(p.typ, v), Eq(i1.npari, n + 1)),
                        Eq(i1.parTyp, tm.bitor(bits, t)))))
        return out

    def assigns(s):
        i = s.pre.mesh.info
        g = ok(s)
        return [(i.par, '*', 0, Ite(g, i.npari + 1, 0)), (s.pre.mesh, 'info.npari', 0, Ite(g, 1, 0)), (s.pre.mesh, 'info.parTyp', 0, Ite(g, 1, 0))]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        n = rng.choice((0, 1, 2, 3, 4))
        w.info.npar = n
        w.info.npari = rng.choice((rng.randint(0, n), max(0, n - 1), n))
        if n:
            t = mem.alloc(R, n, 'par')
            tv = list(typs.values())
            G.fill(rng, mem.lay, t, {'elt': lambda: rng.choice(tv), 'ref': lambda: rng.choice((0, 1, 2, 3))})
            w.info.par = t.addr
        pos = lambda: rng.choice((rng.uniform(0.1, 3), rng.uniform(0.1, 3), rng.uniform(0.1, 3), rng.uniform(0.1, 3), 0.0, -1.0))
        return {'mesh': m, 'sol': 0, 'typ': rng.choice(list(typs.values()) * 3 + [0, 1, 2, 3, 4]), 'ref': rng.choice((0, 1, 2, 3, 4, 5, -1)),
                'hmin': pos(), 'hmax': pos(), 'hausd': pos()}
    return Contract('%s_Set_localParameter' % P, lib, ['mesh', 'sol', 'typ', 'ref', 'hmin', 'hmax', 'hausd'], ensures, requires, assigns, gen=gen,
                    trials=150)


def base_ref(P, lib):
    fn = 'MMG5_Set_lsBaseReference' if not P else '%s_Set_lsBaseReference' % P

    def requires(s):
        i = s.pre.mesh.info
        return [tm.le(0, i.nbr), tm.le(0, i.nbri), tm.le(i.nbri, i.nbr), Or(Eq(i.nbr, 0), Not(i.br.isnull()))]

    def ok(s):
        i = s.pre.mesh.info
        return And(tm.lt(i.nbri, i.nbr), tm.le(0, s.pre.br))

    def ensures(s):
        g, i0, i1 = ok(s), s.pre.mesh.info, s.post.mesh.info
        out = [('refused iff invalid or full', Eq(s.ret, Ite(g, 1, 0)))]
        if s.mode == 'nat' and not g: return out
        return out + [('reference appended', Implies(g, Eq(i1.br[i0.nbri], s.pre.br))), ('counted', Implies(g, Eq(i1.nbri, i0.nbri + 1)))]

    def assigns(s):
        i, g = s.pre.mesh.info, ok(s)
        return [(i.br, '*', i.nbri, Ite(g, i.nbri + 1, i.nbri)), (s.pre.mesh, 'info.nbri', 0, Ite(g, 1, 0))]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib or 'mmg3d')
        n = rng.choice((0, 1, 2, 3, 4))
        w.info.nbr = n
        w.info.nbri = rng.choice((rng.randint(0, n), max(0, n - 1), n))
        if n:
            t = mem.alloc(INT, n, 'br')
            G.fill(rng, mem.lay, t)
            w.info.br = t.addr
        return {'mesh': m, 'sol': 0, 'br': G.rref(rng)}
    return Contract(fn, lib, ['mesh', 'sol', 'br'], ensures, requires, assigns, gen=gen, trials=60)


def multimat(P, lib):
    """entries before the last one (the last one also builds the lookup table, see C05)"""
    fn = 'MMG5_Set_multiMat' if not P else '%s_Set_multiMat' % P
    R = TRec('MMG5_Mat')

    def requires(s):
        i = s.pre.mesh.info
        return [tm.le(0, i.nmat), tm.le(0, i.nmati), tm.le(i.nmati, i.nmat), Or(Eq(i.nmat, 0), Not(i.mat.isnull())),
                Or(tm.lt(i.nmati + 1, i.nmat), Eq(i.nmati, i.nmat)), tm.le(0, s.pre.split), tm.le(s.pre.split, 1)]

    def ok(s):
        i = s.pre.mesh.info
        return And(tm.lt(i.nmati, i.nmat), tm.le(0, s.pre.ref))

    def ensures(s):
        g, i0, i1, p = ok(s), s.pre.mesh.info, s.post.mesh.info, s.pre
        out = [('refused iff invalid or full', Eq(s.ret, Ite(g, 1, 0)))]
        if s.mode == 'nat' and not g: return out

        def holds(q): return And(Eq(q.ref, p.ref), Eq(q.dospl, p.split), Implies(Eq(p.split, 1), And(Eq(q.rin, p.rin), Eq(q.rex, p.rex))))
        n = i0.nmati
        same = lambda k: Eq(i0.mat[k].ref, p.ref)
        out.append(('material present afterwards', Implies(g, s.Exists(0, i1.nmati, lambda k: holds(i1.mat[k])))))
        out.append(('count', Implies(g, Or(Eq(i1.nmati, n), Eq(i1.nmati, n + 1)))))
        out.append(('appended only when unknown', Implies(And(g, Eq(i1.nmati, n + 1)), s.ForAll(0, n, lambda k: Not(same(k))))))
        out.append(('other materials kept', Implies(g, s.ForAll(0, n, lambda k: Or(same(k), And(*[Eq(i1.mat[k].cell(f), i0.mat[k].cell(f))
                    for f in ('ref', 'dospl', 'rin', 'rex')]))))))
        return out

    def assigns(s):
        i, g = s.pre.mesh.info, ok(s)
        return [(i.mat, '*', 0, Ite(g, i.nmati + 1, 0)), (s.pre.mesh, 'info.nmati', 0, Ite(g, 1, 0))]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib or 'mmg3d')
        n = rng.choice((0, 1, 2, 3, 4, 5))
        w.info.nmat = n
        w.info.nmati = rng.choice([q for q in range(n + 1) if q + 1 < n or q == n])
        if n:
            t = mem.alloc(R, n, 'mat')
            G.fill(rng, mem.lay, t, {'ref': lambda: rng.choice((0, 1, 2, 3, 7)), 'dospl': lambda: rng.choice((0, 1))})
            w.info.mat = t.addr
        return {'mesh': m, 'sol': 0, 'ref': rng.choice((0, 1, 2, 3, 7, -1)), 'split': rng.choice((0, 1)), 'rin': G.rref(rng), 'rex': G.rref(rng)}
    return Contract(fn, lib, ['mesh', 'sol', 'ref', 'split', 'rin', 'rex'], ensures, requires, assigns, gen=gen, trials=100)


def alloc_table(P, lib, nm):
    """sizing a table (re)starts it empty"""
    V = enum(P, lib, '%s_IPARAM_%s' % (P, nm))
    arr, n, ni, rec = {'numberOfLocalParam': ('par', 'npar', 'npari', 'MMG5_Par'), 'numberOfMat': ('mat', 'nmat', 'nmati', 'MMG5_Mat'),
                       'numberOfLSBaseReferences': ('br', 'nbr', 'nbri', None)}[nm]

    def requires(s):
        i = s.pre.mesh.info
        return [tm.le(1, s.pre.val), tm.le(s.pre.val, 1 << 20), getattr(i, arr).isnull(), tm.le(0, s.pre.mesh.memCur),
                tm.le(s.pre.mesh.memCur, s.pre.mesh.memMax), tm.le(s.pre.mesh.memMax, 1 << 50)]

    def ensures(s):
        i1, v = s.post.mesh.info, s.pre.val
        g = Eq(s.ret, 1)
        out = [('size recorded', Implies(g, Eq(getattr(i1, n), v))), ('table starts empty', Implies(g, Eq(getattr(i1, ni), 0))),
               ('table allocated', Implies(g, Not(getattr(i1, arr).isnull())))]
        if s.mode == 'nat' and not g: return out
        if nm == 'numberOfLocalParam':
            for f in ('hmin', 'hmax', 'hausd'):
                out.append(('default %s' % f, s.ForAll(0, v, lambda k: Implies(g, _lz(getattr(i1, arr), lambda: Eq(getattr(i1.par[k], f), getattr(s.pre.mesh.info, f)))))))
            out.append(('no entity type announced', Implies(g, Eq(i1.parTyp, 0))))
        return out

    def assigns(s):
        ks = ['info.' + arr, 'info.' + n, 'info.' + ni, 'memCur']
        if nm == 'numberOfLocalParam': ks.append('info.parTyp')
        if nm == 'numberOfMat' and lib == 'mmgs': ks.append('info.iso')
        return [(s.pre.mesh, ks)]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib)
        setattr(w.info, n, rng.choice((0, 2))); setattr(w.info, ni, rng.choice((0, 1)))
        return {'mesh': m, 'sol': 0, 'iparam': V, 'val': rng.randint(1, 5)}
    return Contract('%s_Set_iparameter' % P, lib, ['mesh', 'sol', 'iparam', 'val'], ensures, requires, assigns, gen=gen, consts={'iparam': V},
                    name='%s_Set_iparameter[%s]' % (P, nm), trials=20)


def _lz(v, f):
    if v.isnull() is True: return True
    return f()


DEF = {'imprim': 1, 'isoref': 10, 'mem': -1, 'rmc': -1, 'dhd': ANGEDG, 'hmin': -1, 'hmax': -1, 'hsiz': -1, 'hausd': Fraction(0.01),
       'hgrad': Fraction(0.26236426446), 'hgradreq': Fraction(0.83290912294), 'lxreg': Fraction(0.4), 'lag': -1}
DEFL = {'mmg3d': {'setfem': 1, 'renum': 1, 'PROctree': None}, 'mmg2d': {'setfem': 1}, 'mmgs': {}}


def init_par(P, lib):
    fn = '%s_Init_parameters' % (P or 'MMG5')

    def stub(x, st, a, n):
        r = x.fresh('memsize', 'I')
        st.asm.append(tm.le(0, r))
        st.ghost['memsize'] = r
        return r

    def ensures(s):
        i1 = s.post.mesh.info
        d = dict(DEF, **DEFL.get(lib, {})) if P else dict(DEF)
        flds = i1.fields() if s.mode == 'nat' else None
        out = []
        for f in ('hmin', 'hmax', 'hsiz', 'hgrad', 'hgradreq', 'hausd', 'ls', 'lxreg', 'rmc', 'dhd', 'isoref', 'nsd', 'mem', 'npar', 'npari', 'nbr',
                  'nbri', 'opnbdy', 'renum', 'PROctree', 'nmati', 'nmat', 'imprim', 'nreg', 'xreg', 'ddebug', 'iso', 'isosurf', 'setfem', 'lag',
                  'parTyp', 'sethmin', 'sethmax', 'ani', 'optim', 'optimLES', 'noinsert', 'noswap', 'nomove', 'nosurf', 'nosizreq', 'metRidTyp'):
            v = d.get(f, 0)
            if v is None: continue
            if f == 'renum' and lib == 'mmg3d': continue
            out.append(('default of %s' % f, s.Close(getattr(i1, f), v)))
        for f in ('par', 'br', 'mat'): out.append(('no table %s' % f, getattr(i1, f).isnull()))
        out.append(('memory limit is positive', tm.le(1, s.post.mesh.memMax) if s.mode == 'nat' else True))
        return out

    def assigns(s): return [(s.pre.mesh, ['info', 'gap', 'memMax'])]

    def gen(rng, mem, c):
        m, w, b = imesh(rng, mem, lib or 'mmg3d')
        return {'mesh': m}
    return Contract(fn, lib, ['mesh'], ensures, None, assigns, gen=gen, policy={'MMG5_memSize': stub}, trials=20)


def mem_par(P, lib):
    """the memory limit is stored before the memory repartition is recomputed, whose verdict is the verdict"""
    V = enum(P, lib, '%s_IPARAM_mem' % P)

    def stub(x, st, a, n):
        S.View(x, st, a[0])
        st.ghost['mem'] = S.View(x, st, a[0]).info.mem
        st.ghost['n'] = tm.add(st.ghost.get('n', 0), 1)
        st.ghost['r'] = x.fresh('memopt', 'I')
        return st.ghost['r']

    def ensures(s):
        v, i0, i1 = s.pre.val, s.pre.mesh.info, s.post.mesh.info
        want = Ite(tm.lt(0, v), v, i0.mem)
        return [('stored when positive', Eq(i1.mem, want)), ('repartition recomputed once', Eq(s.ghost.get('n', 0), 1)),
                ('with the new limit', Eq(s.ghost.get('mem', i0.mem), want)),
                ('its verdict is returned', Eq(s.ret, Ite(Eq(s.ghost.get('r', 0), 0), 0, 1)))]
    return Contract('%s_Set_iparameter' % P, lib, ['mesh', 'sol', 'iparam', 'val'], ensures, None, lambda s: [(s.pre.mesh, 'info.mem')],
                    consts={'iparam': V}, name='%s_Set_iparameter[mem]' % P, policy={'%s_memOption' % P: stub})


def contracts():
    out = [init_par('', None)]
    for P, lib in LIBS:
        for nm in PLAIN[lib]: out.append(plain(P, lib, nm))
        out += [angle(P, lib), init_par(P, lib), mem_par(P, lib)]
        if lib != 'mmgs': out.append(nofem(P, lib))
        if lib != 'mmg2d': out.append(iso3(P, lib))
        if lib == 'mmgs': out.append(keepref(P, lib))
        for nm in ('numberOfLocalParam', 'numberOfMat', 'numberOfLSBaseReferences'): out.append(alloc_table(P, lib, nm))
        out.append(unknown(P, lib, 'Set_iparameter', 'IPARAM', list(PLAIN[lib]) + SPECIAL[lib]))
        if lib in GETTERS:
            for nm in list(GETTERS[lib]) + ['angle']: out.append(getter(P, lib, nm))
            out.append(unknown(P, lib, 'Get_iparameter', 'IPARAM', list(GETTERS[lib]) + ['angle']))
        for nm in DPAR: out.append(dpar(P, lib, nm))
        out.append(unknown(P, lib, 'Set_dparameter', 'DPARAM', DPAR))
        out += [local_par(P, lib), base_ref(P, lib), multimat(P, lib)]
    return out
