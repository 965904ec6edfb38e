"""Self-test of the symbolic executor: on small C functions covering the control and data shapes of the verified code, the outcome computed
symbolically must admit what the compiled function does (no behaviour is lost: soundness) and, for loops without summary, nothing else."""
import os, sys, ctypes, subprocess, random, tempfile, itertools
sys.setrecursionlimit(100000)
from . import cfront, sym as S, term as tm, prove
from .cfront import Unsupported

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'selftest')


def main():
    src = os.path.join(HERE, 't.c')
    P = cfront.Program(())
    P.index = {}
    tu = cfront.TU(src)
    P.tus['t.c'] = tu
    names = [n for n in tu.funs if len(n) == 2 and n[0] in 'fgk']
    rng = random.Random(5)
    bad = 0
    with tempfile.TemporaryDirectory() as d:
        so = os.path.join(d, 't.so')
        subprocess.run(['gcc', '-shared', '-fPIC', '-O0', '-fwrapv', '-o', so, src, '-lm'], check=True)
        dll = ctypes.CDLL(so)
        for nm in names:
            tm.DISTINCT.clear(); tm.ORDER.clear()
            fn = tu.fun(nm)
            x = S.Exec(P, {})
            x.base_tu = tu
            x.fnstack.append((tu, '', fn, None))
            ps = [tm.sym('p_' + q, 'I') for q in 'abcn']
            st = S.St()
            st.asm += [tm.le(-100, p) for p in ps] + [tm.le(p, 100) for p in ps]
            try: rets = x.run_fn(tu, fn, list(ps), st)
            except (Unsupported, AttributeError) as e:
                print('selftest %s: not supported: %s' % (nm, e)); bad += 1
                continue
            exact = not x.loopstats.get('havoc')
            for v in [[rng.randint(-3, 4) for _ in 'abcn'] for _ in range(60)]:
                r = getattr(dll, nm)(*v)
                eqs = [tm.eq(p, q) for p, q in zip(ps, v)]
                hit = other = 0
                for q, w in rets:
                    h = list(q.pc) + list(q.asm) + eqs
                    if prove.satisfiable(h + [tm.eq(w, r)]) != prove.z3.unsat: hit += 1
                    if exact and prove.satisfiable(h + [tm.not_(tm.eq(w, r))]) != prove.z3.unsat: other += 1
                if hit == 0 or other or (exact and hit != 1):
                    print('selftest %s%s: compiled result %d %s' % (nm, tuple(v), r, 'is not among the symbolic outcomes' if not hit else 'is not the only symbolic outcome'))
                    bad += 1
                    break
    print('selftest: %d functions, %d wrong' % (len(names), bad))
    return 1 if bad else 0


if __name__ == '__main__': sys.exit(main())
