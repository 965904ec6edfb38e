"""Hash-consed first-order terms with linear normal form for + over Int/Real.

Value domain: int | Fraction | bool | T.  Sorts: 'I' (mathematical integer),
'R' (real), 'B' (bool), or a positive int n (bit-vector of n bits).
"""
from fractions import Fraction

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'a', 'sort', 'id', '_z', '_fs')

    def __hash__(s): return s.id
    def __bool__(s): raise TypeError('symbolic truth value used in Python control flow: ' + show(s))
    def __add__(s, o): return add(s, o)
    def __radd__(s, o): return add(o, s)
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    def __rmul__(s, o): return mul(o, s)
    def __truediv__(s, o): return rdiv(s, o)
    def __rtruediv__(s, o): return rdiv(o, s)
    def __floordiv__(s, o): return idiv(s, o)
    def __mod__(s, o): return imod(s, o)
    def __neg__(s): return neg(s)
    def __eq__(s, o): return eq(s, o)
    def __ne__(s, o): return not_(eq(s, o))
    def __le__(s, o): return le(s, o)
    def __lt__(s, o): return lt(s, o)
    def __ge__(s, o): return le(o, s)
    def __gt__(s, o): return lt(o, s)
    def __and__(s, o): return bitand(s, o)
    def __rand__(s, o): return bitand(o, s)
    def __or__(s, o): return bitor(s, o)
    def __ror__(s, o): return bitor(o, s)
    def __xor__(s, o): return bitxor(s, o)
    def __repr__(s): return show(s)


def _k(x):
    if isinstance(x, T):
        return x.id
    if isinstance(x, tuple):
        return ('t',) + tuple(_k(y) for y in x)
    return (type(x).__name__, x)


def mk(op, sort, *a):
    key = (op, sort) + tuple(_k(x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        _cnt[0] += 1
        t.op, t.a, t.sort, t.id, t._z, t._fs = op, a, sort, _cnt[0], None, None
        _tab[key] = t
    return t


def is_c(x): return not isinstance(x, T)


def sort(x):
    if isinstance(x, T): return x.sort
    if isinstance(x, bool): return 'B'
    if isinstance(x, int): return 'I'
    if isinstance(x, Fraction): return 'R'
    if isinstance(x, BV): return x.n
    if isinstance(x, float): return 'R'
    raise TypeError(repr(x))


class BV:
    """bit-vector constant"""
    __slots__ = ('v', 'n')
    def __init__(s, v, n): s.v, s.n = v % (1 << n), n
    def __hash__(s): return hash((s.v, s.n))
    def __eq__(s, o): return isinstance(o, BV) and (s.v, s.n) == (o.v, o.n)
    def __repr__(s): return '%d#%d' % (s.v, s.n)


_fresh = [0]


def sym(name, so): return mk('sym', so, name)


def fresh(name, so):
    _fresh[0] += 1
    return mk('sym', so, '%s!%d' % (name, _fresh[0]))


def app(name, so, *args): return mk('app', so, name, *args)


def num(x):
    """normalise python numbers"""
    if isinstance(x, float): return Fraction(x)
    return x


# ------------------------------------------------------------ arithmetic
def _parts(x):
    """-> (const, [(coef, atom)])"""
    if is_c(x):
        return (int(x) if isinstance(x, bool) else x), ()
    if x.op == '+':
        return x.a[0], x.a[1]
    return 0, ((1, x),)


def _poly(c, terms, so):
    if not terms:
        return Fraction(c) if so == 'R' else int(c)
    if c == 0 and len(terms) == 1 and terms[0][0] == 1:
        return terms[0][1]
    if so == 'R':
        c = Fraction(c)
        terms = tuple((Fraction(k), t) for k, t in terms)
    return mk('+', so, c, tuple(terms))


def _asnum(x):
    x = num(x)
    if isinstance(x, T) and x.sort == 'B':
        return ite(x, 1, 0)
    if isinstance(x, T) and isinstance(x.sort, int):
        return bv2i(x)
    if isinstance(x, BV):
        return x.v
    if isinstance(x, bool): return int(x)
    return x


def _join(x, y):
    x, y = _asnum(x), _asnum(y)
    sx, sy = sort(x), sort(y)
    if sx != sy:
        if sx == 'I': x = toreal(x)
        else: y = toreal(y)
        return x, y, 'R'
    return x, y, sx


def lin(c, pairs, so):
    d = {}
    for k, t in pairs:
        if t.id in d: d[t.id][0] += k
        else: d[t.id] = [k, t]
    for i in [i for i in d if d[i][1].op == 'mod']:                       # c*div(x,c) + mod(x,c) = x
        k, t = d[i]
        q = k and [j for j in d if d[j][1].op == 'div' and d[j][1].a == t.a and d[j][0] == k * t.a[1]]
        if q:
            return add(lin(c, [x for j, x in d.items() if j not in (i, q[0])], so), scale(k, t.a[0]))
    terms = tuple((k, t) for k, t in (d[i] for i in sorted(d)) if k != 0)
    return _poly(c, terms, so)


def add(x, y):
    x, y, so = _join(x, y)
    cx, tx = _parts(x)
    cy, ty = _parts(y)
    if not tx and not ty:
        return cx + cy
    return lin(cx + cy, tx + ty, so)


def scale(k, x):
    if k == 0: return Fraction(0) if sort(x) == 'R' else 0
    c, t = _parts(x)
    if not t: return k * c
    return _poly(k * c, tuple((k * q, a) for q, a in t), sort(x))


def neg(x): return scale(-1, _asnum(x))


def sub(x, y): return add(x, neg(y))


def mul(x, y):
    x, y, so = _join(x, y)
    if is_c(x): return scale(x, y) if isinstance(y, T) else x * y
    if is_c(y): return scale(y, x)
    # pull constants out of single-term polynomials
    k = 1
    fs = []
    for z in (x, y):
        c, t = _parts(z)
        if c == 0 and len(t) == 1:
            k = k * t[0][0]
            z = t[0][1]
        if z.op == '*': fs += list(z.a)
        else: fs.append(z)
    # lift ite with constant leaves only when cheap
    fs.sort(key=lambda t: t.id)
    return scale(k, mk('*', so, *fs))


def toreal(x):
    x = _asnum(x)
    if is_c(x): return Fraction(x)
    if x.sort == 'R': return x
    if x.op == '+':
        return lin(Fraction(x.a[0]), [(Fraction(k), toreal(t)) for k, t in x.a[1]], 'R')
    if x.op == 'ite': return ite(x.a[0], toreal(x.a[1]), toreal(x.a[2]))
    return mk('toreal', 'R', x)


def toint_trunc(x):
    """C conversion double -> integer (truncation)"""
    x = num(x)
    if is_c(x):
        return int(x)
    if x.sort == 'I': return x
    if x.op == 'toreal': return x.a[0]
    return ite(le(Fraction(0), x), mk('floor', 'I', x), neg(mk('floor', 'I', neg(x))))


def rdiv(x, y):
    x, y = toreal(x), toreal(y)
    if is_c(y) and y != 0:
        return scale(1 / y, x) if isinstance(x, T) else x / y
    if is_c(x) and x == 0 and not is_c(y):
        return mk('/', 'R', x, y)
    return mk('/', 'R', x, y)


def _fdiv(x, c):
    """floor division by positive constant"""
    if is_c(x): return x // c
    if c == 1: return x
    k, t = _parts(x)
    q = [(a, b) for a, b in t if a % c == 0]
    r = [(a, b) for a, b in t if a % c != 0]
    rk = k % c
    base = lin((k - rk) // c, [(a // c, b) for a, b in q], 'I')
    if not r:
        return base
    return add(base, mk('div', 'I', lin(rk, r, 'I'), c))


def _fmod(x, c):
    if is_c(x): return x % c
    if c == 1: return 0
    k, t = _parts(x)
    r = [(a % c, b) for a, b in t if a % c != 0]
    if not r: return k % c
    return mk('mod', 'I', lin(k % c, r, 'I'), c)


def idiv(x, y):
    """C integer division (truncation)"""
    x, y = _asnum(x), _asnum(y)
    if is_c(x) and is_c(y):
        if y == 0: return fresh('divzero', 'I')
        q = abs(x) // abs(y)
        return q if (x >= 0) == (y > 0) else -q
    if is_c(y) and y > 0:
        if nonneg(x): return _fdiv(x, y)
        return ite(le(0, x), _fdiv(x, y), neg(_fdiv(neg(x), y)))
    return mk('tdiv', 'I', x, y)


def imod(x, y):
    """C remainder"""
    x, y = _asnum(x), _asnum(y)
    if is_c(x) and is_c(y):
        if y == 0: return fresh('modzero', 'I')
        r = abs(x) % abs(y)
        return r if x >= 0 else -r
    if is_c(y) and y > 0:
        if nonneg(x): return _fmod(x, y)
        return ite(le(0, x), _fmod(x, y), neg(_fmod(neg(x), y)))
    if not is_c(y): return app('tmod!', 'I', x, y)      # symbolic modulus: an unknown function of both, what is known of it is stated as a hypothesis
    return mk('tmod', 'I', x, y)


DISTINCT = set()
NNAPP = set()       # names of the functions and symbols declared non-negative by an explicit universal hypothesis of the contract
ORDER = {}          # term id -> rank of integer constants whose strict order is a hypothesis of the contract
ORDERLOG = []


def _ranked(d):
    """(constant, a, b) when d = constant + a - b with a, b ranked"""
    c, t = _parts(d)
    if len(t) != 2 or t[0][0] + t[1][0] != 0 or abs(t[0][0]) != 1: return None
    a, b = (t[0][1], t[1][1]) if t[0][0] == 1 else (t[1][1], t[0][1])
    if a.id not in ORDER or b.id not in ORDER: return None
    return c, ORDER[a.id], ORDER[b.id]
GNN = [False]


def gnn(name):
    """global constant >= 0 (explicit hypothesis of the contract that declares it; never quantified)"""
    GNN[0] = True
    return sym('gnn_' + name, 'I')


def nonneg(x, nat=True):
    """cheap sufficient test; nat: loop counters (0 <= nat_* is an explicit hypothesis wherever they occur) count"""
    if is_c(x): return x >= 0
    if x.op == '+':
        return x.a[0] + sum(k for k, t in x.a[1] if k > 0 and _gnp(t)) >= 0 and all(k >= 0 and nonneg(t, nat) for k, t in x.a[1])
    if x.op == 'ite': return nonneg(x.a[1], nat) and nonneg(x.a[2], nat)
    if x.op in ('bv2i', 'mod'): return True
    if x.op == 'div': return nonneg(x.a[0], nat)
    if x.op in ('app', 'sym') and x.a[0] in NNAPP: return True
    if x.op == 'sym' and isinstance(x.a[0], str):
        return nat and x.a[0].startswith('nat_') or x.a[0].startswith(('gnn_', 'gnp_'))
    return False


def _gnp(t):
    """global positive constant (1 <= gnp_* is an explicit hypothesis)"""
    return t.op == 'sym' and isinstance(t.a[0], str) and t.a[0].startswith('gnp_')


# ------------------------------------------------------------ bool
def not_(x):
    x = truth(x)
    if is_c(x): return not x
    if x.op == 'not': return x.a[0]
    if x.op == '<=': return lt(x.a[1], x.a[0])
    if x.op == '<': return le(x.a[1], x.a[0])
    return mk('not', 'B', x)


def truth(x):
    """C truth value -> Bool"""
    if isinstance(x, T):
        if x.sort == 'B': return x
        if x.op == 'ite':
            return ite(x.a[0], truth(x.a[1]), truth(x.a[2]))
        if x.sort == 'I': return not_(eq(x, 0))
        if x.sort == 'R': return not_(eq(x, Fraction(0)))
        return not_(eq(x, BV(0, x.sort)))
    if isinstance(x, BV): return x.v != 0
    return bool(x)


def and_(*xs):
    out, seen = [], set()
    for x in xs:
        x = truth(x)
        if is_c(x):
            if not x: return False
            continue
        ys = x.a if x.op == 'and' else (x,)
        for y in ys:
            if y.id in seen: continue
            n = not_(y)
            if isinstance(n, T) and n.id in seen: return False
            seen.add(y.id)
            out.append(y)
    if not out: return True
    if len(out) == 1: return out[0]
    return mk('and', 'B', *out)


def or_(*xs):
    out, seen = [], set()
    for x in xs:
        x = truth(x)
        if is_c(x):
            if x: return True
            continue
        ys = x.a if x.op == 'or' else (x,)
        for y in ys:
            if y.id in seen: continue
            n = not_(y)
            if isinstance(n, T) and n.id in seen: return True
            seen.add(y.id)
            out.append(y)
    if not out: return False
    if len(out) == 1: return out[0]
    return mk('or', 'B', *out)


def implies(a, b): return or_(not_(a), b)


def ite(c, x, y):
    c = truth(c)
    if is_c(c): return x if c else y
    x, y = num(x), num(y)
    if x is y: return x
    if is_c(x) and is_c(y) and type(x) == type(y) and x == y: return x
    sx, sy = sort(x), sort(y)
    if sx == 'B' and sy == 'B':
        if is_c(x): return or_(c, y) if x else and_(not_(c), y)
        if is_c(y): return or_(not_(c), x) if y else and_(c, x)
        return and_(or_(not_(c), x), or_(c, y))
    if isinstance(sx, int) != isinstance(sy, int):
        if isinstance(sx, int) and sy == 'I' and is_c(y): y = BV(y, sx)
        elif isinstance(sy, int) and sx == 'I' and is_c(x): x = BV(x, sy)
        else: x, y = _asnum(x), _asnum(y)
    elif sx != sy:
        x, y, _ = _join(x, y)
    if x is y: return x
    # ite(c, ite(c,a,b), d) -> ite(c,a,d)
    if isinstance(x, T) and x.op == 'ite' and x.a[0] is c: x = x.a[1]
    if isinstance(y, T) and y.op == 'ite' and y.a[0] is c: y = y.a[2]
    if x is y: return x
    if c.op == 'not':
        c, x, y = c.a[0], y, x
    return mk('ite', sort(x), c, x, y)


def eq(x, y):
    x, y = num(x), num(y)
    if x is y: return True
    sx, sy = sort(x), sort(y)
    if isinstance(sx, int) or isinstance(sy, int):
        if sx == 'I':
            return _eq_bvint(y, x)
        if sy == 'I':
            return _eq_bvint(x, y)
        if is_c(x) and is_c(y): return x == y
        return mk('=', 'B', x, y) if _ord(x, y) else mk('=', 'B', y, x)
    if sx == 'B' and sy == 'B':
        if is_c(x): return y if x else not_(y)
        if is_c(y): return x if y else not_(x)
        return mk('=', 'B', x, y)
    x, y, so = _join(x, y)
    for p, q in ((x, y), (y, x)):
        if isinstance(p, T) and p.op == 's2i':
            n = p.a[0].sort
            if is_c(q):
                if not -(1 << (n - 1)) <= q < (1 << (n - 1)): return False
                return eq(p.a[0], BV(q, n))
            if isinstance(q, T) and q.op == 's2i' and q.a[0].sort == n:
                return eq(p.a[0], q.a[0])
    if so == 'I' and ((isinstance(x, T) and x.op == 'ite') or (isinstance(y, T) and y.op == 'ite')):
        n = _bvw(x) or _bvw(y)
        if n:
            u, v = _unbv(x, n), _unbv(y, n)
            if u is not None and v is not None:
                if u is v: return True
                if is_c(u) and is_c(v): return u.v == v.v
                return mk('=', 'B', u, v) if _ord(u, v) else mk('=', 'B', v, u)
    # bv2i(a) == const / bv2i(b)
    for p, q in ((x, y), (y, x)):
        if isinstance(p, T) and p.op == 'bv2i':
            n = p.a[0].sort
            if is_c(q):
                if q < 0 or q >= (1 << n): return False
                return eq(p.a[0], BV(q, n))
            if isinstance(q, T) and q.op == 'bv2i' and q.a[0].sort == n:
                return eq(p.a[0], q.a[0])
    for p, q in ((x, y), (y, x)):
        if isinstance(p, T) and p.op == 'ite' and is_c(q):
            a, b = p.a[1], p.a[2]
            if is_c(a) or is_c(b) or a.op == 'ite' or b.op == 'ite':
                return ite(p.a[0], eq(a, q), eq(b, q))
    d = sub(x, y)
    if is_c(d): return d == 0
    c, t = _parts(d)
    if so == 'I':
        # pairwise distinct constants (an explicit hypothesis of every obligation of the contract that declares them)
        if c == 0 and len(t) == 2 and t[0][0] == -t[1][0] and t[0][1].id in DISTINCT and t[1][1].id in DISTINCT: return False
        if GNN[0] and any(a.op == 'sym' and isinstance(a.a[0], str) and a.a[0].startswith(('gnn_', 'gnp_')) for _, a in t) and \
           (nonneg(sub(d, 1), False) or nonneg(sub(neg(d), 1), False)): return False
    # normalise sign / gcd
    k0 = t[0][0]
    if so == 'I':
        from math import gcd
        g = 0
        for k, _ in t: g = gcd(g, abs(k))
        if c % g: return False
        if k0 < 0: g = -g
        d = _poly(c // g, tuple((k // g, a) for k, a in t), so)
    else:
        d = _poly(Fraction(c) / k0, tuple((Fraction(k) / k0, a) for k, a in t), so)
    return mk('=0', 'B', d)


def _eq_bvint(b, i):
    if is_c(b): return eq(b.v, i)
    if is_c(i):
        if i < 0 or i >= (1 << b.sort): return False
        return eq(b, BV(i, b.sort))
    return eq(bv2i(b), i)


def _ord(x, y):
    if is_c(x): return False
    if is_c(y): return True
    return x.id <= y.id


def le(x, y):
    x, y, so = _join(x, y)
    d = sub(x, y)
    if is_c(d): return d <= 0
    for p, q, f in ((x, y, lambda a, b: le(a, b)), (y, x, lambda a, b: le(b, a))):
        if isinstance(p, T) and p.op == 'ite' and is_c(q) and is_c(p.a[1]) and is_c(p.a[2]):
            return ite(p.a[0], f(p.a[1], q), f(p.a[2], q))
    if so == 'I' and ORDER:
        q = _ranked(d)
        if q is not None:
            r = True if q[1] < q[2] and q[0] <= 1 else False if q[1] > q[2] and q[0] >= 0 else None
            if r is not None:
                ORDERLOG.append(q[1:] if q[1] < q[2] else (q[2], q[1]))
                return r
    if so == 'I' and nonneg(neg(d), False): return True
    if so == 'I':
        if nonneg(sub(d, 1), False): return False
    return mk('<=', 'B', x, y)


def lt(x, y):
    x, y, so = _join(x, y)
    if so == 'I':
        return le(add(x, 1), y)
    d = sub(x, y)
    if is_c(d): return d < 0
    return mk('<', 'B', x, y)


# ------------------------------------------------------------ bit-vectors
_bvwm = {}


def _bvw(t):
    """width of the bit-vector whose unsigned value every leaf of t is (None if mixed or not known)"""
    if not isinstance(t, T): return None
    if t.op == 'bv2i': return t.a[0].sort
    if t.op != 'ite' or t.sort != 'I': return None
    r = _bvwm.get(t.id)
    if r is None:
        r = (_bvw(t.a[1]) or _bvw(t.a[2]), t)
        _bvwm[t.id] = r
    return r[0]


_unbvm = {}


def _unbv(t, n):
    """bit-vector of width n whose unsigned value is t, or None"""
    if not isinstance(t, T):
        return BV(t, n) if isinstance(t, int) and not isinstance(t, bool) and 0 <= t < (1 << n) else None
    if t.op == 'bv2i': return t.a[0] if t.a[0].sort == n else None
    if t.op != 'ite': return None
    r = _unbvm.get((t.id, n))
    if r is None:
        a, b = _unbv(t.a[1], n), _unbv(t.a[2], n)
        r = (None if a is None or b is None else ite(t.a[0], a, b), t)
        _unbvm[(t.id, n)] = r
    return r[0]


_bvim = {}


def bv2i(x):
    if isinstance(x, BV): return x.v
    if x.op == 'ite':
        r = _bvim.get(x.id)
        if r is None:
            r = _bvim[x.id] = (ite(x.a[0], bv2i(x.a[1]), bv2i(x.a[2])), x)
        return r[0]
    if x.op == 'zext': return bv2i(x.a[0])
    return mk('bv2i', 'I', x)


def i2bv(x, n):
    """int value (mod 2^n) as bit-vector"""
    if isinstance(x, BV): return BV(x.v, n)
    if is_c(x): return BV(int(x), n)
    if x.sort == 'B': return ite(x, BV(1, n), BV(0, n))
    if isinstance(x.sort, int):
        return bvresize(x, n)
    if x.op == 'bv2i': return bvresize(x.a[0], n)
    if x.op == 's2i':
        b = x.a[0]
        return bvresize(b, n) if n <= b.sort else mk('sext', n, b)
    if x.op == 'ite': return ite(x.a[0], i2bv(x.a[1], n), i2bv(x.a[2], n))
    return mk('i2bv', n, x)


def bvresize(x, n):
    if isinstance(x, BV): return BV(x.v, n)
    if x.sort == n: return x
    if x.op == 'ite': return ite(x.a[0], bvresize(x.a[1], n), bvresize(x.a[2], n))
    if x.op == 'zext' and x.a[0].sort >= n: return bvresize(x.a[0], n)
    if x.op in ('bvand', 'bvor', 'bvxor') and n < x.sort:
        return _bv(x.op, bvresize(x.a[0], n), bvresize(x.a[1], n))
    return mk('zext', n, x) if n > x.sort else mk('extract', n, x)


def _bv(op, x, y):
    if isinstance(x, BV) and isinstance(y, BV):
        return BV({'bvand': x.v & y.v, 'bvor': x.v | y.v, 'bvxor': x.v ^ y.v}[op], x.n)
    if isinstance(x, BV): x, y = y, x
    if x is y: return x if op != 'bvxor' else BV(0, x.sort)
    if isinstance(y, BV):
        full = (1 << y.n) - 1
        if op == 'bvand':
            if y.v == 0: return BV(0, y.n)
            if y.v == full: return x
            if x.op == 'bvand' and isinstance(x.a[1], BV):
                return _bv(op, x.a[0], BV(x.a[1].v & y.v, y.n))
            if x.op == 'bvor' and isinstance(x.a[1], BV) and (x.a[1].v & y.v) == 0:
                return _bv(op, x.a[0], y)
            if x.op == 'bvor' and isinstance(x.a[1], BV) and (x.a[1].v & y.v) == y.v:
                return BV(y.v, y.n)
            if x.op == 'bvor' and isinstance(x.a[1], BV):
                return _bv('bvor', _bv(op, x.a[0], y), BV(x.a[1].v & y.v, y.n))
        if op == 'bvor':
            if y.v == 0: return x
            if y.v == full: return y
            if x.op == 'bvor' and isinstance(x.a[1], BV):
                return _bv(op, x.a[0], BV(x.a[1].v | y.v, y.n))
        if x.op == 'ite' and (isinstance(x.a[1], BV) or isinstance(x.a[2], BV)):
            return ite(x.a[0], _bv(op, x.a[1], y), _bv(op, x.a[2], y))
        return mk(op, x.sort, x, y)
    if x.id > y.id: x, y = y, x
    return mk(op, x.sort, x, y)


def _bits(x):
    """-> bv operand if x is a zero-extended bit-vector or None"""
    if isinstance(x, T):
        if isinstance(x.sort, int): return x
        if x.op == 'bv2i': return x.a[0]
        if x.sort == 'B': return None
    return None


def _sbits(x):
    return x.a[0] if isinstance(x, T) and x.op == 's2i' else None


def _bitop(op, x, y, pyf):
    x, y = num(x), num(y)
    if isinstance(x, bool): x = int(x)
    if isinstance(y, bool): y = int(y)
    if isinstance(x, BV): x = x.v
    if isinstance(y, BV): y = y.v
    if is_c(x) and is_c(y): return pyf(x, y)
    for p, q in ((x, y), (y, x)):
        if isinstance(p, T) and p.op == 'ite' and p.sort == 'I':
            return ite(p.a[0], _bitop(op, p.a[1], q, pyf), _bitop(op, p.a[2], q, pyf))
    if isinstance(x, T) and x.sort == 'B': return _bitop(op, ite(x, 1, 0), y, pyf)
    if isinstance(y, T) and y.sort == 'B': return _bitop(op, x, ite(y, 1, 0), pyf)
    sx, sy = _sbits(x), _sbits(y)
    if sx is not None and sy is not None and sx.sort == sy.sort:
        return s2i(_bv(op, sx, sy))
    b, c = (sx, y) if sx is not None else (sy, x)
    if b is not None and is_c(c):
        n = b.sort
        if op == 'bvand' and 0 <= c < (1 << n): return bv2i(_bv(op, b, BV(c, n)))
        if -(1 << (n - 1)) <= c < (1 << (n - 1)): return s2i(_bv(op, b, BV(c, n)))
    bx, by = _bits(x), _bits(y)
    if bx is not None and by is not None:
        n = max(bx.sort, by.sort)
        return bv2i(_bv(op, bvresize(bx, n), bvresize(by, n)))
    b, c = (bx, y) if bx is not None else (by, x)
    if b is not None and is_c(c):
        n = b.sort
        if op == 'bvand':
            return bv2i(_bv(op, b, BV(c, n)))
        if 0 <= c:
            m = max(n, c.bit_length())
            return bv2i(_bv(op, bvresize(b, m), BV(c, m)))
    # general 32-bit fall back on a 32-bit two's complement view
    n = 32
    return s2i(_bv(op, i2bv(x, n), i2bv(y, n)))


def s2i(x):
    """signed interpretation of a bit-vector"""
    if isinstance(x, BV):
        return x.v - (1 << x.n) if x.v >= (1 << (x.n - 1)) else x.v
    if x.op == 'ite': return ite(x.a[0], s2i(x.a[1]), s2i(x.a[2]))
    if x.op == 'zext': return bv2i(x.a[0])
    return mk('s2i', 'I', x)


def bitand(x, y): return _bitop('bvand', x, y, lambda a, b: a & b)
def bitor(x, y): return _bitop('bvor', x, y, lambda a, b: a | b)
def bitxor(x, y): return _bitop('bvxor', x, y, lambda a, b: a ^ b)


# ------------------------------------------------------------ substitution
def subst(x, m, memo=None):
    """replace symbols (by id) in x; m: {id: value}"""
    if is_c(x): return x
    if memo is None: memo = {}
    return _subst(x, m, memo)


def free(x):
    """frozenset of ids of sym leaves"""
    if is_c(x): return frozenset()
    if x._fs is None:
        if x.op == 'sym':
            x._fs = frozenset((x.id,))
        else:
            s = frozenset()
            for y in _kids(x): s |= free(y)
            x._fs = s
    return x._fs


def _kids(x):
    for y in x.a:
        if isinstance(y, T): yield y
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, T): yield z
                elif isinstance(z, tuple):
                    for w in z:
                        if isinstance(w, T): yield w


def _subst(x, m, memo):
    if is_c(x): return x
    if x.id in m: return m[x.id]
    if not (free(x) & m.keys()): return x
    r = memo.get(x.id)
    if r is not None: return r
    r = rebuild(x, lambda y: _subst(y, m, memo))
    memo[x.id] = r
    return r


def rebuild(x, f):
    op = x.op
    if op == '+':
        c, t = x.a
        r = c
        acc = []
        k0 = c
        for k, y in t:
            y = f(y)
            kc, kt = _parts(y)
            k0 = k0 + k * kc
            acc += [(k * q, z) for q, z in kt]
        return lin(k0, acc, x.sort) if acc else (Fraction(k0) if x.sort == 'R' else k0)
    if op == '*':
        r = f(x.a[0])
        for y in x.a[1:]: r = mul(r, f(y))
        return r
    if op == 'app':
        return app(x.a[0], x.sort, *[f(y) if isinstance(y, T) else y for y in x.a[1:]])
    a = [f(y) for y in x.a]
    if op == '=0': return eq(a[0], Fraction(0) if sort(a[0]) == 'R' else 0)
    if op == 'forall' or op == 'exists': return mk(op, 'B', *a)
    return {'ite': ite, '=': eq, '<=': le, '<': lt, 'and': and_, 'or': or_, 'not': not_,
            'div': lambda u, v: _fdiv(u, v), 'mod': lambda u, v: _fmod(u, v), 'tdiv': idiv, 'tmod': imod,
            '/': rdiv, 'toreal': toreal, 'bv2i': bv2i, 's2i': s2i,
            'sext': lambda u: BV(s2i(u), x.sort) if isinstance(u, BV) else mk('sext', x.sort, u),
            'floor': lambda u: (u.numerator // u.denominator) if is_c(u) else mk('floor', 'I', u),
            'i2bv': lambda u: i2bv(u, x.sort), 'zext': lambda u: bvresize(u, x.sort),
            'extract': lambda u: bvresize(u, x.sort),
            'bvand': lambda u, v: _bv('bvand', u, v), 'bvor': lambda u, v: _bv('bvor', u, v),
            'bvxor': lambda u, v: _bv('bvxor', u, v)}[op](*a)


def show(x, d=6):
    if not isinstance(x, T): return str(x)
    if d == 0: return '...'
    if x.op == 'sym': return str(x.a[0])
    if x.op == 'app': return '%s(%s)' % (x.a[0], ', '.join(show(y, d - 1) for y in x.a[1:]))
    if x.op == '+':
        return '(' + ' + '.join(([str(x.a[0])] if x.a[0] else []) +
                                [('%s*' % k if k != 1 else '') + show(t, d - 1) for k, t in x.a[1]]) + ')'
    return '(%s %s)' % (x.op, ' '.join(show(y, d - 1) for y in x.a))


def forall(v, body):
    """v: sym (Int); quantified fact (only used as hypothesis or goal)"""
    body = truth(body)
    if is_c(body): return body
    if v.id not in free(body): return body
    return mk('forall', 'B', v, body)


# ------------------------------------------------------------ z3 export
import z3 as _z3

_uf = {}


def zsort(so):
    if so == 'I': return _z3.IntSort()
    if so == 'R': return _z3.RealSort()
    if so == 'B': return _z3.BoolSort()
    return _z3.BitVecSort(so)


def zc(x):
    if isinstance(x, bool): return _z3.BoolVal(x)
    if isinstance(x, int): return _z3.IntVal(x)
    if isinstance(x, Fraction): return _z3.RealVal(x)
    if isinstance(x, BV): return _z3.BitVecVal(x.v, x.n)
    raise TypeError(repr(x))


def z(x):
    if not isinstance(x, T): return zc(x)
    if x._z is not None: return x._z
    # iterative post-order to avoid deep recursion
    st = [x]
    while st:
        y = st[-1]
        if y._z is not None:
            st.pop(); continue
        todo = [k for k in _kids(y) if k._z is None]
        if todo:
            st.extend(todo); continue
        y._z = _z1(y)
        st.pop()
    return x._z


def _z1(x, z=z):
    op, a = x.op, x.a
    if op == 'sym': return _z3.Const(a[0], zsort(x.sort))
    if op == 'app':
        args = [z(y) for y in a[1:]]
        key = (a[0], x.sort, tuple(sort(y) for y in a[1:]))
        f = _uf.get(key)
        if f is None:
            f = _uf[key] = _z3.Function(a[0], *[zsort(s) for s in key[2]], zsort(x.sort))
        return f(*args)
    if op == '+':
        r = None
        for k, t in a[1]:
            u = z(t) if k == 1 else zc(k) * z(t)
            r = u if r is None else r + u
        return r + zc(a[0]) if a[0] != 0 else r
    if op == '*':
        r = z(a[0])
        for y in a[1:]: r = r * z(y)
        return r
    b = [z(y) if not isinstance(y, tuple) else y for y in a]
    if op == 'ite': return _z3.If(b[0], b[1], b[2])
    if op == '=': return b[0] == b[1]
    if op == '=0': return b[0] == 0
    if op == '<=': return b[0] <= b[1]
    if op == '<': return b[0] < b[1]
    if op == 'and': return _z3.And(*b)
    if op == 'or': return _z3.Or(*b)
    if op == 'not': return _z3.Not(b[0])
    if op == 'div': return b[0] / b[1]
    if op == 'mod': return b[0] % b[1]
    if op == 'tdiv':
        return _z3.If(b[0] >= 0, b[0] / b[1], -((-b[0]) / b[1]))
    if op == 'tmod':
        return _z3.If(b[0] >= 0, b[0] % b[1], -((-b[0]) % b[1]))
    if op == '/': return b[0] / b[1]
    if op == 'toreal': return _z3.ToReal(b[0])
    if op == 'floor': return _z3.ToInt(b[0])
    if op == 'bv2i': return _z3.BV2Int(b[0])
    if op == 's2i': return _z3.BV2Int(b[0], True)
    if op == 'sext': return _z3.SignExt(x.sort - a[0].sort, b[0])
    if op == 'i2bv': return _z3.Int2BV(b[0], x.sort)
    if op == 'zext': return _z3.ZeroExt(x.sort - a[0].sort, b[0])
    if op == 'extract': return _z3.Extract(x.sort - 1, 0, b[0])
    if op == 'bvand': return b[0] & b[1]
    if op == 'bvor': return b[0] | b[1]
    if op == 'bvxor': return b[0] ^ b[1]
    if op == 'forall': return _z3.ForAll([b[0]], b[1])
    raise TypeError(op)


def syms(x):
    """symbol leaves"""
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if not isinstance(y, T) or y.id in seen: continue
        seen.add(y.id)
        if y.op == 'sym': out.append(y)
        st.extend(_kids(y))
    return out
