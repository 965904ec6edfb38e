"""Exact combinatorics of a simplex (triangle, tetrahedron) whose edges carry points.

A vertex of a child simplex is a label ('v',i), ('e',i,j) (a point of the open edge i-j of the parent) or ('c',)
(a point of the interior of the parent).  The volume of a child in barycentric coordinates of the parent is affine in
each edge parameter separately (a label occurs at most once in a child), hence its sign over every position of the
points is decided by the values at the corners of the parameter cube: non-negative everywhere and positive somewhere
gives positive for every position in the open edges; equality of the sum of the volumes with 1 at every corner gives
equality everywhere.  Together with the matching of the facets this is an exact tiling argument."""
from fractions import Fraction
from itertools import product, permutations


def det(m):
    n = len(m)
    if n == 1: return m[0][0]
    if n == 2: return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    r = 0
    for j in range(n):
        if m[0][j]:
            r += (-1) ** j * m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]])
    return r


def bary(l, t, d):
    b = [0] * (d + 1)
    if l[0] == 'v': b[l[1]] = 1
    elif l[0] == 'e':
        b[l[1]] = 1 - t[l]; b[l[2]] = t[l]
    else: b[t[l]] = 1
    return b


def support(l, d):
    return frozenset(range(d + 1)) if l[0] == 'c' else frozenset(l[1:])


def parity(p):
    p = list(p)
    s = 1
    for i in range(len(p)):
        for j in range(i): s = -s if p[j] > p[i] else s
    return s


def corners(labels, d):
    es = sorted({l for l in labels if l[0] != 'v'})
    for v in product(*[(0, 1) if l[0] == 'e' else range(d + 1) for l in es]): yield dict(zip(es, v))


def tiling(children, d):
    """None when the children tile the parent for every position of the points, else what fails"""
    labels = {l for c in children for l in c}
    for c in children:
        if len(set(c)) != d + 1: return 'child %s has a repeated vertex' % (c,)
    pos = [False] * len(children)
    for t in corners(labels, d):
        s = 0
        for k, c in enumerate(children):
            v = det([bary(l, t, d) for l in c])
            if v < 0: return 'child %s is inverted for some position of the points' % (c,)
            if v > 0: pos[k] = True
            s += v
        if s != 1: return 'the volumes of the children do not add up to the volume of the parent'
    for k, c in enumerate(children):
        if not pos[k]: return 'child %s is flat' % (c,)
    # facets
    fac = {}
    for c in children:
        for f in range(d + 1):
            q = [c[j] for j in range(d + 1) if j != f]
            o = parity([sorted(q).index(x) for x in q]) * (-1) ** f
            fac.setdefault(frozenset(q), []).append(o)
    for q, os in fac.items():
        outer = len(frozenset().union(*[support(l, d) for l in q])) <= d
        if outer and len(os) != 1: return 'face %s of the parent boundary covered %d times' % (sorted(q), len(os))
        if not outer and (len(os) != 2 or sum(os)): return 'interior face %s not shared by two children of opposite sides' % sorted(q)
    return None


def edges_of(children):
    return {frozenset((a, b)) for c in children for a in c for b in c if a != b}


def edge_error(children, marked, d):
    """every parent edge is cut at its point exactly when it is marked"""
    ed = edges_of(children)
    labels = {l for c in children for l in c}
    for i in range(d + 1):
        for j in range(i + 1, d + 1):
            m = ('e', i, j)
            if (i, j) in marked:
                if frozenset((('v', i), ('v', j))) in ed: return 'marked edge %d-%d not cut' % (i, j)
                if frozenset((('v', i), m)) not in ed or frozenset((m, ('v', j))) not in ed: return 'marked edge %d-%d not cut' % (i, j)
            else:
                if m in labels: return 'unmarked edge %d-%d cut' % (i, j)
                if frozenset((('v', i), ('v', j))) not in ed: return 'unmarked edge %d-%d lost' % (i, j)
    return None


def face_pattern(face, marked, rank):
    """subdivision of a triangular face determined by its marked edges and the order of its vertices only"""
    a, b, c = face
    es = [tuple(sorted(e)) for e in ((b, c), (a, c), (a, b))]      # es[i] opposite face[i]
    m = [e in marked for e in es]
    V = lambda i: ('v', i)
    E = lambda e: ('e',) + e
    n = sum(m)
    if n == 0: return {frozenset(map(V, face))}
    if n == 3:
        A, B, C = map(E, es)
        return {frozenset((A, B, C)), frozenset((V(a), B, C)), frozenset((V(b), A, C)), frozenset((V(c), A, B))}
    if n == 1:
        i = m.index(True)
        p, (q, r) = face[i], es[i]
        return {frozenset((V(p), V(q), E(es[i]))), frozenset((V(p), V(r), E(es[i])))}
    i = m.index(False)
    apex = face[i]
    q, r = es[i]
    if rank is None: lo, hi = q, r
    else: lo, hi = (q, r) if rank[q] < rank[r] else (r, q)
    E1 = lambda v: E(tuple(sorted((apex, v))))
    # the quadrangle lo, hi, E1(hi), E1(lo) is cut by the diagonal issued from the vertex of smaller index
    return {frozenset((V(apex), E1(lo), E1(hi))), frozenset((V(lo), E1(lo), E1(hi))), frozenset((V(lo), V(hi), E1(hi)))}


def face_error(children, marked, rank, anydiag=False):
    d = 3
    for f in range(4):
        face = [i for i in range(4) if i != f]
        got = set()
        for c in children:
            for g in range(4):
                q = frozenset(c[j] for j in range(4) if j != g)
                if frozenset().union(*[support(l, d) for l in q]) <= set(face): got.add(q)
        want = face_pattern(face, marked, rank)
        if got != want: return 'face opposite to vertex %d is not cut by the rule shared with the neighbour' % f
    return None


def locate(labels, d):
    """smallest face of the parent containing the labels: tuple of its vertices"""
    return tuple(sorted(frozenset().union(*[support(l, d) for l in labels])))
