"""Discharging obligations: z3 first, cvc5 as second opinion."""
import time, subprocess, os, tempfile, z3
from . import term as tm
from .term import T, is_c, not_

STATS = {'z3': 0, 'cvc5': 0, 'trivial': 0, 'time': 0.0}


_lin = {}


def nonlinear(t):
    """does t contain a product, quotient or floor of non constants"""
    r = _lin.get(t.id)
    if r is not None: return r[0]
    seen, st, found = set(), [t], False
    while st:
        y = st.pop()
        if y.id in seen: continue
        seen.add(y.id)
        if y.op in ('*', '/', 'floor'): found = True; break
        st.extend(k for k in tm._kids(y) if isinstance(k, T))
    _lin[t.id] = (found, t)
    return found


_ab = {}


def zabs(t):
    """z3 term in which every product/quotient is an opaque constant (weaker hypotheses, stronger goal: sound for proofs)"""
    if not isinstance(t, T): return tm.zc(t)
    if not nonlinear(t): return tm.z(t)
    r = _ab.get(t.id)
    if r is not None: return r[0]
    if t.op in ('*', '/', 'floor'):
        z = z3.Const('nl!%d' % t.id, tm.zsort(t.sort))
    else:
        z = tm._z1(t, zabs)
    _ab[t.id] = (z, t)
    return z


def mksolver(hyps, goal, timeout, abstract=False):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    Z = zabs if abstract else tm.z
    for h in hyps:
        if is_c(h):
            if not h: s.add(False)
            continue
        s.add(Z(h))
    if goal is not None: s.add(z3.Not(Z(goal)) if not is_c(goal) else z3.BoolVal(not goal))
    return s


def check(ob, timeout=20, use_cvc5=True):
    """-> 'proved' | 'refuted' | 'unknown'"""
    t0 = time.time()
    if ob.goal is True:
        ob.status, ob.backend = 'proved', 'simplifier'
        STATS['trivial'] += 1
        return ob.status
    ob.backend = 'z3'
    r = None
    if any(isinstance(h, T) and nonlinear(h) for h in list(ob.hyps) + [ob.goal]):
        try:
            if not (isinstance(ob.goal, T) and nonlinear(ob.goal)):
                r = mksolver([h for h in ob.hyps if not (isinstance(h, T) and nonlinear(h))], ob.goal, min(timeout, 5)).check()
            if r != z3.unsat: r = mksolver(ob.hyps, ob.goal, min(timeout, 8), True).check()
        except (TypeError, z3.Z3Exception):
            r = None
        if r != z3.unsat:
            r = None
            if casesplit(ob, min(timeout, 12)): r = z3.unsat; ob.backend = 'z3 (case analysis)'
    if r is None:
        s = mksolver(ob.hyps, ob.goal, timeout)
        r = s.check()
    if r == z3.unsat: ob.status = 'proved'; STATS['z3'] += 1
    elif r == z3.sat:
        ob.status = 'refuted'
        ob.model = s.model()
    else:
        ob.status = 'unknown'
        if use_cvc5:
            q = cvc5(s.to_smt2(), timeout)
            if q == 'unsat': ob.status, ob.backend = 'proved', 'cvc5'; STATS['cvc5'] += 1
            elif q == 'sat': ob.status, ob.backend = 'refuted', 'cvc5'
    ob.time = time.time() - t0
    STATS['time'] += ob.time
    return ob.status


def _replace(x, m, memo):
    if is_c(x): return x
    if x.id in m: return m[x.id]
    r = memo.get(x.id)
    if r is None:
        r = tm.rebuild(x, lambda y: _replace(y, m, memo)) if x.op != 'sym' else x
        memo[x.id] = r
    return r


def _conds(t, out, seen):
    """conditions of the conditionals of t, innermost first, no quantifier below"""
    if is_c(t) or t.id in seen: return
    seen.add(t.id)
    if t.op in ('forall', 'exists'): return
    for k in tm._kids(t): _conds(k, out, seen)
    if t.op == 'ite' and not is_c(t.a[0]) and all(t.a[0] is not y for y in out): out.append(t.a[0])


def casesplit(ob, timeout, depth=6, hyps=None, goal=None, end=None):
    """proof by cases on the conditions of the conditionals of the goal: what is left is an identity or a contradiction"""
    hyps, goal = (list(ob.hyps), ob.goal) if hyps is None else (hyps, goal)
    end = end or time.time() + timeout
    if goal is True: return True
    if time.time() > end: return False
    out = []
    if not is_c(goal): _conds(goal, out, set())
    if len(out) > depth: return False
    left = max(0.2, end - time.time())
    if not out:
        try:
            if mksolver(hyps, goal, min(3, left), True).check() == z3.unsat: return True
            return mksolver(hyps, goal, min(5, left)).check() == z3.unsat
        except (TypeError, z3.Z3Exception): return False
    c = out[0]
    for v in (True, False):
        if not casesplit(ob, timeout, depth, hyps + [c if v else not_(c)], _replace(goal, {c.id: v}, {}), end): return False
    return True


def quick(ob, timeout=5): return check(ob, timeout, False) == 'proved'


def cvc5(smt, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True,
                           timeout=timeout + 5)
        for l in p.stdout.split('\n'):
            if l.strip() in ('sat', 'unsat'): return l.strip()
    except Exception:
        pass
    finally:
        os.unlink(f.name)
    return 'unknown'


def satisfiable(hyps, timeout=10):
    s = mksolver(hyps, None, timeout)
    return s.check()
