"""Random well-formed native states."""
import struct, ctypes
from .cfront import *
from . import native as N

MG_NUL = 1 << 15
TAGBITS = [0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768]


def fill(rng, lay, b, special=None, lo=0, hi=None):
    """random content; special: {cell key prefix: fn()}"""
    esz = lay.sizeof(b.ty)
    cells = lay.cells(b.ty)
    buf = bytearray(ctypes.string_at(b.addr, b.size))
    sp = special or {}
    plan = []
    for k, o, t in cells:
        f = sp.get(k) or sp.get(k.split('[')[0]) or sp.get(k.split('.')[0])
        if isinstance(t, TPtr): continue
        if f is None:
            if isinstance(t, TFlt): f = lambda: rdouble(rng)
            elif isinstance(t, TInt) and t.w == 16 and not t.signed: f = lambda: rtag(rng)
            elif isinstance(t, TInt) and t.w == 8: f = lambda: rng.choice((0, 0, 1, 1, 2, 3, 7))
            else: f = lambda: rng.choice((0, 1, 2, 3, 5, 10, -1, 7, 100))
        plan.append((o, t, '=' + N.fmt(t), f))
    for i in range(lo, b.count if hi is None else hi):
        for o, t, fm, f in plan:
            struct.pack_into(fm, buf, i * esz + o, N._fit(t, f()))
    ctypes.memmove(b.addr, bytes(buf), len(buf))


DICT = []         # constants of undischarged obligations


def dict_int(rng, lo=-(1 << 31), hi=(1 << 31) - 1):
    v = rng.choice(DICT) + rng.choice((0, 0, 0, 1, -1))
    return v if lo <= v <= hi else None


def rdouble(rng):
    c = rng.random()
    if DICT and c > 0.9: return float(rng.choice(DICT))
    if c < 0.15: return float(rng.choice((0, 1, -1, 2, 0.5)))
    if c < 0.2: return rng.uniform(-1e6, 1e6)
    return rng.uniform(-3, 3)


def rtag(rng):
    c = rng.random()
    if c < 0.25: return 0
    if c < 0.35: return MG_NUL
    t = 0
    for _ in range(rng.randint(1, 3)): t |= rng.choice(TAGBITS)
    if c < 0.9: t &= ~MG_NUL
    return t


def rref(rng):
    if DICT and rng.random() < 0.4: return dict_int(rng)
    return rng.choice((0, 1, 2, 3, 10, 20, -1, -5, 7, 1000000))


def mesh(rng, mem, lib, dim=None, np=None, extra=True, alloc_zero=0.12, **kw):
    """a random mesh whose entity arrays are consistent with its counters"""
    lay = mem.lay
    tu = lay.tu
    R = lambda n: TRec(n)
    m = mem.alloc(R('MMG5_Mesh'), 1, 'mesh')
    w = N.W(lay, m.addr, R('MMG5_Mesh'))
    def cnt(lo=1, hi=7):
        if DICT and rng.random() < 0.3:
            v = rng.choice(DICT) + rng.randint(0, 3)
            if lo <= v <= 5000: return v
        return rng.randint(lo, hi)
    n = {}
    n['np'] = np if np is not None else cnt(4, 9)
    n['ne'] = cnt(); n['nt'] = cnt(); n['na'] = cnt(); n['nprism'] = cnt(); n['nquad'] = cnt()
    for k in ('ne', 'nt', 'na', 'nprism', 'nquad'):
        if rng.random() < alloc_zero: n[k] = 0
    for k in kw:
        if k in n: n[k] = kw[k]
    w.dim = dim or {'mmg3d': 3, 'mmg2d': 2, 'mmgs': 3}[lib]
    w.ver = 2
    w.np, w.ne, w.nt, w.na, w.nprism, w.nquad = n['np'], n['ne'], n['nt'], n['na'], n['nprism'], n['nquad']
    w.npmax, w.nemax, w.ntmax, w.namax = [n[k] + rng.randint(0, 3) for k in ('np', 'ne', 'nt', 'na')]
    w.memMax = 1 << 31
    w.memCur = 1 << 20
    w.npi = rng.randint(0, n['np']); w.nti = rng.randint(0, n['nt']); w.nai = rng.randint(0, n['na']); w.nei = rng.randint(0, n['ne'])
    w.xt = rng.randint(0, 3)
    for f in ('xp', 'base', 'mark'): setattr(w, f, rng.randint(0, 4))
    v = lambda: rng.randint(1, n['np'])
    blocks = {}

    def arr(field, rec, count, special):
        if count < 0: return
        b = mem.alloc(R(rec), count + 1, 'mesh.' + field)
        fill(rng, lay, b, special)
        setattr(w, field, b.addr)
        blocks[field] = b
    ref = lambda: rref(rng)
    nxp = rng.randint(1, 4)
    nxt = rng.randint(1, 4)
    w.xp = rng.randint(0, nxp); w.xpmax = nxp
    w.xtmax = nxt
    arr('point', 'MMG5_Point', w.npmax, {'ref': ref, 'xp': lambda: rng.randint(0, nxp), 'tag': lambda: rtag(rng)})
    if rng.random() > 0.1: arr('xpoint', 'MMG5_xPoint', nxp, {})
    if n['ne'] or lib == 'mmg3d':
        arr('tetra', 'MMG5_Tetra', w.nemax, {'v': v, 'ref': ref, 'xt': lambda: rng.randint(0, nxt)})
        arr('xtetra', 'MMG5_xTetra', nxt, {})
    arr('tria', 'MMG5_Tria', w.ntmax, {'v': v, 'ref': ref})
    arr('edge', 'MMG5_Edge', max(w.namax, n['na']), {'a': v, 'b': v, 'ref': ref})
    arr('prism', 'MMG5_Prism', n['nprism'], {'v': v, 'ref': ref})
    arr('quadra', 'MMG5_Quad', n['nquad'], {'v': v, 'ref': ref})
    return m, w, blocks


def out(mem, ty, n, name, rng=None):
    b = mem.alloc(ty, n, name)
    if rng is not None: fill(rng, mem.lay, b)
    return b


INT = TInt(32, True)
DBL = TFlt(64)


def sol(rng, mem, lib, np=None, size=None, typ=None, dim=None, nm='met', npmax=None):
    lay = mem.lay
    s = mem.alloc(TRec('MMG5_Sol'), 1, nm)
    w = N.W(lay, s.addr, TRec('MMG5_Sol'))
    w.dim = dim or {'mmg3d': 3, 'mmg2d': 2, 'mmgs': 3}[lib]
    w.ver = 2
    w.np = np if np is not None else (rng.randint(1, 7) if not DICT or rng.random() < 0.7 else max(1, min(20000, rng.choice(DICT) + rng.randint(0, 3))))
    w.npmax = npmax if npmax is not None else w.np + rng.randint(0, 3)
    d = w.dim
    w.type = typ or rng.choice((1, 2, 3))
    w.size = size or {1: 1, 2: d, 3: d * (d + 1) // 2}[w.type]
    w.npi = rng.randint(0, w.np)
    b = mem.alloc(DBL, w.size * (w.npmax + 1), nm + '.m')
    fill(rng, lay, b)
    w.m = b.addr
    return s, w
