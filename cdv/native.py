"""Native side: builds the current /repo sources into a shared object, and gives
ctypes-backed memory with the same View interface as the symbolic side so that a
contract can be evaluated on a real execution (replay, refutation, vacuity guard)."""
import ctypes, os, glob, hashlib, subprocess, struct, random, sys, signal, json, time, tempfile
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from .cfront import *
from . import cfront


def _h(*parts):
    m = hashlib.sha1()
    for p in parts: m.update(p if isinstance(p, bytes) else p.encode())
    return m.hexdigest()[:20]


def _hdrs():
    m = hashlib.sha1()
    for d in ('common', 'mmg2d', 'mmg3d', 'mmgs'):
        for f in sorted(glob.glob(os.path.join(SRC, d, '*.h')) + glob.glob(os.path.join(SRC, d, '*.in'))):
            m.update(f.encode()); m.update(open(f, 'rb').read())
    return m.hexdigest()


OPT = ['-O1', '-g0', '-fPIC', '-w', '-fno-strict-aliasing']
_builds = {}


def build(lib, extra=(), defs=(), exclude=(), tag='', only=(), static=()):
    """shared object with every .c of common + lib (+ extra sources)"""
    key = (lib, tuple(extra), tuple(defs), tuple(exclude), tuple(only), tuple(static))
    if key in _builds: return _builds[key]
    cfront.include_dir()
    flags = cfront.cflags() + OPT + list(defs)
    hh = _hdrs()
    srcs = sorted(glob.glob(os.path.join(SRC, 'common', '*.c')) + (glob.glob(os.path.join(SRC, lib, '*.c')) if lib else []))
    if only: srcs = [os.path.join(SRC, o) for o in only]
    srcs = [s for s in srcs if os.path.basename(s) not in exclude] + list(extra)
    odir = os.path.join(CACHE, 'obj')
    os.makedirs(odir, exist_ok=True)
    objs = []

    def comp(s):
        # file-local functions under test get an exported alias (the unit itself is compiled unchanged)
        text = open(s, 'rb').read().decode('utf-8', 'replace') if static else ''
        for f in static:
            if f not in text: continue
            src = '#include "%s"\nextern __typeof__(%s) cdv_%s __attribute__((alias("%s")));\n' % (s, f, f, f)
            o = os.path.join(odir, _h(' '.join(flags), hh, text, src) + '.o')
            if os.path.exists(o): return o
            tmp = o + '.%d.%d' % (os.getpid(), id(s))
            p = subprocess.run(['gcc'] + flags + ['-I' + os.path.dirname(s), '-x', 'c', '-c', '-', '-o', tmp], input=src, capture_output=True, text=True)
            if p.returncode == 0:
                os.replace(tmp, o)
                return o
        o = os.path.join(odir, _h(' '.join(flags), hh, open(s, 'rb').read(), s) + '.o')
        if not os.path.exists(o):
            tmp = o + '.%d.%d' % (os.getpid(), id(s))
            p = subprocess.run(['gcc'] + flags + ['-c', s, '-o', tmp], capture_output=True, text=True)
            if p.returncode != 0: raise Unsupported('gcc failed on %s: %s' % (s, p.stderr[-500:]))
            os.replace(tmp, o)
        return o
    # the three applications define main(); shared objects may contain it
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, srcs))
    so = os.path.join(odir, 'lib_%s_%s.so' % (lib, _h(*objs)))
    if not os.path.exists(so):
        tmp = so + '.%d' % os.getpid()
        p = subprocess.run(['gcc', '-shared', '-o', tmp] + objs +
                           ['-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-Bsymbolic', '-lscotch', '-lscotcherr', '-lm'],
                           capture_output=True, text=True)
        if p.returncode != 0: raise Unsupported('link failed: ' + p.stderr[-500:])
        os.replace(tmp, so)
    _builds[key] = so
    return so


_loaded = {}


def load(so):
    if so not in _loaded:
        _loaded[so] = ctypes.CDLL(so, mode=os.RTLD_LAZY | os.RTLD_LOCAL)
    return _loaded[so]


class quiet:
    """silence stdout/stderr of the C side"""
    def __enter__(s):
        sys.stdout.flush(); sys.stderr.flush()
        s.o, s.e = os.dup(1), os.dup(2)
        n = os.open('/dev/null', os.O_WRONLY)
        os.dup2(n, 1); os.dup2(n, 2); os.close(n)

    def __exit__(s, *a):
        try: ctypes.CDLL(None).fflush(None)
        except Exception: pass
        os.dup2(s.o, 1); os.dup2(s.e, 2)
        os.close(s.o); os.close(s.e)


# ------------------------------------------------------------------ layout
class Lay:
    def __init__(s, tu):
        s.tu = tu
        s._o = {}

    def sizeof(s, t): return s.tu.sizeof(t)

    def offs(s, rec):
        r = s._o.get(rec)
        if r is None:
            off = 0
            r = {}
            for n, ft in s.tu.fields(rec):
                sz, al = s.tu._layout(ft)
                off = (off + al - 1) // al * al
                r[n] = (off, ft)
                off += sz
            s._o[rec] = r
        return r

    def cells(s, t, pre='', off=0):
        """[(key, offset, scalar type)]"""
        if isinstance(t, TRec):
            out = []
            for f, (o, ft) in s.offs(t.name).items():
                out += s.cells(ft, pre + '.' + f if pre else f, off + o)
            return out
        if isinstance(t, TArr):
            out = []
            sz = s.sizeof(t.of)
            for i in range(t.n or 0): out += s.cells(t.of, '%s[%d]' % (pre, i), off + i * sz)
            return out
        return [(pre, off, t)]


FMT = {(8, True): 'b', (8, False): 'B', (16, True): 'h', (16, False): 'H', (32, True): 'i', (32, False): 'I',
       (64, True): 'q', (64, False): 'Q'}


def fmt(t):
    if isinstance(t, TInt): return FMT[(t.w, t.signed)]
    if isinstance(t, TFlt): return 'd' if t.w == 64 else 'f'
    return 'Q'


class NBlock:
    def __init__(s, addr, size, ty, count, name):
        s.addr, s.size, s.ty, s.count, s.name = addr, size, ty, count, name


class NMem:
    """set of native blocks with known element types"""
    def __init__(s, lay):
        s.lay = lay
        s.blocks = []
        s.keep = []
        s.libc = ctypes.CDLL(None)
        s.libc.malloc.restype = ctypes.c_void_p
        s.libc.malloc.argtypes = [ctypes.c_size_t]
        s.libc.free.argtypes = [ctypes.c_void_p]

    def alloc(s, ty, count, name='', cheap=True):
        fl, n = ty, count
        while isinstance(fl, TArr): n *= fl.n or 1; fl = fl.of
        esz = s.lay.sizeof(fl)
        size = max(1, esz * n)
        if cheap:
            buf = ctypes.create_string_buffer(size + 64)
            s.keep.append(buf)
            addr = (ctypes.addressof(buf) + 15) // 16 * 16
        else:
            addr = s.libc.malloc(size)
            ctypes.memset(addr, 0, size)
        b = NBlock(addr, esz * n, fl, n, name)
        s.blocks.append(b)
        return b

    def adopt(s, addr, ty, count, name=''):
        fl = ty
        n = count
        while isinstance(fl, TArr): n *= fl.n or 1; fl = fl.of
        b = NBlock(addr, s.lay.sizeof(fl) * n, fl, n, name)
        s.blocks.append(b)
        return b

    def snap(s):
        return Snap(s.lay, [(b, ctypes.string_at(b.addr, b.size)) for b in s.blocks])

    def live(s): return Snap(s.lay, None)


class Snap:
    """read access to memory: snapshot (bytes) or live"""
    def __init__(s, lay, blocks):
        s.lay, s.blocks = lay, blocks
        if blocks is not None:
            s.idx = sorted(((b.addr, b, d) for b, d in blocks), key=lambda x: x[0])

    def get(s, addr, n):
        if s.blocks is None: return ctypes.string_at(addr, n)
        import bisect
        i = bisect.bisect_right(s.idx, addr, key=lambda x: x[0]) - 1
        if i >= 0:
            a, b, d = s.idx[i]
            if a <= addr and addr + n <= a + b.size: return d[addr - a:addr - a + n]
        raise OutOfSnap('address outside the snapshot')

    def scalar(s, addr, t):
        d = s.get(addr, s.lay.sizeof(t))
        return struct.unpack('=' + fmt(t), d)[0]


class OutOfSnap(Exception):
    pass


class NView:
    __slots__ = ('_m', '_a', '_t')

    def __init__(s, m, a, t):
        object.__setattr__(s, '_m', m); object.__setattr__(s, '_a', a); object.__setattr__(s, '_t', t)

    def __getattr__(s, f):
        o, ft = s._m.lay.offs(s._t.name)[f]
        return nview(s._m, s._a + o, ft)

    def __getitem__(s, k):
        k = int(k)
        return nview(s._m, s._a + k * s._m.lay.sizeof(s._t), s._t)

    def isnull(s): return s._a == 0

    def cell(s, key):
        for k, o, t in s._m.lay.cells(s._t):
            if k == key: return s._m.scalar(s._a + o, t)
        raise KeyError(key)

    def fields(s): return [k for k, o, t in s._m.lay.cells(s._t)]


def nview(m, a, t):
    if isinstance(t, TRec): return NView(m, a, t)
    if isinstance(t, TArr): return NView(m, a, t.of)
    v = m.scalar(a, t)
    if isinstance(t, TPtr): return NView(m, v, t.to)
    return v


def poke(addr, t, v):
    d = struct.pack('=' + fmt(t), _fit(t, v))
    ctypes.memmove(addr, d, len(d))


def _fit(t, v):
    if isinstance(t, TFlt): return float(v)
    v = int(v)
    if isinstance(t, TPtr): return v
    v &= (1 << t.w) - 1
    if t.signed and v >> (t.w - 1): v -= 1 << t.w
    return v


class W:
    """writer: W(mem, addr, type).f = value"""
    __slots__ = ('_l', '_a', '_t')

    def __init__(s, l, a, t):
        object.__setattr__(s, '_l', l); object.__setattr__(s, '_a', a); object.__setattr__(s, '_t', t)

    def __getattr__(s, f):
        o, ft = s._l.offs(s._t.name)[f]
        if isinstance(ft, TRec): return W(s._l, s._a + o, ft)
        if isinstance(ft, TArr): return W(s._l, s._a + o, ft.of)
        a = s._a + o
        v = struct.unpack('=' + fmt(ft), ctypes.string_at(a, s._l.sizeof(ft)))[0]
        if isinstance(ft, TPtr): return W(s._l, v, ft.to)
        return v

    def __setattr__(s, f, v):
        o, ft = s._l.offs(s._t.name)[f]
        poke(s._a + o, ft, v)

    def __getitem__(s, k):
        a = s._a + k * s._l.sizeof(s._t)
        if isinstance(s._t, TRec): return W(s._l, a, s._t)
        if isinstance(s._t, TArr): return W(s._l, a, s._t.of)
        return struct.unpack('=' + fmt(s._t), ctypes.string_at(a, s._l.sizeof(s._t)))[0]

    def __setitem__(s, k, v):
        poke(s._a + k * s._l.sizeof(s._t), s._t, v)


def addr_of(w): return object.__getattribute__(w, '_a')


def heap_copy(src, size, n):
    """address of n records in an array as Mmg allocates them (the size in bytes before them), copied from src"""
    libc = ctypes.CDLL(None)
    libc.calloc.restype = ctypes.c_void_p
    libc.calloc.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
    a = libc.calloc(n * size + 8, 1) + 8
    ctypes.memmove(a - 8, struct.pack('=Q', n * size), 8)
    ctypes.memmove(a, src, n * size)
    return a


def ctype(t):
    if isinstance(t, TInt):
        return {(8, True): ctypes.c_int8, (8, False): ctypes.c_uint8, (16, True): ctypes.c_int16, (16, False): ctypes.c_uint16,
                (32, True): ctypes.c_int32, (32, False): ctypes.c_uint32, (64, True): ctypes.c_int64,
                (64, False): ctypes.c_uint64}[(t.w, t.signed)]
    if isinstance(t, TFlt): return ctypes.c_double if t.w == 64 else ctypes.c_float
    if isinstance(t, TPtr): return ctypes.c_void_p
    if isinstance(t, TVoid): return None
    raise Unsupported('ctype %r' % t)


# ------------------------------------------------------------------ fork isolation
def isolated(fn, timeout=120):
    """run fn() in a forked child; -> ('ok', result) | ('crash', signal) | ('timeout', None) | ('error', text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            signal.alarm(int(timeout))
            res = ('ok', fn())
        except BaseException as e:
            import traceback
            res = ('error', traceback.format_exc()[-1500:])
        try:
            os.write(w, json.dumps(res, default=str).encode()) if len(json.dumps(res, default=str)) < 60000 else \
                _writeall(w, json.dumps(res, default=str).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 65536)
        if not d: break
        data += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if data:
        try: return tuple(json.loads(data))
        except ValueError: pass
    if os.WIFSIGNALED(st):
        sg = os.WTERMSIG(st)
        return ('timeout', None) if sg == signal.SIGALRM else ('crash', sg)
    return ('error', 'no result')


def _writeall(fd, b):
    while b:
        n = os.write(fd, b[:60000])
        b = b[n:]
