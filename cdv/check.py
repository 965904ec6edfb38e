"""python3-vt -m cdv.check PROP [--tier quick|thorough] [--only name,...] : decide one property.

Every contract of the property is verified against the AST of /repo's current sources (all obligations discharged by
an SMT solver) and evaluated on random executions of the code compiled from the same sources.
exit 0: held; exit 1 + VIOLATION line: an obligation is refuted or an execution breaks the contract."""
import sys, os, time, json, importlib, signal, select, traceback, random, argparse, ctypes
from . import spec, native as N, cfront, term as tm, prove
from .cfront import Unsupported

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')


def pdeathsig():
    try: ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception: pass


# ------------------------------------------------------------------ task pool
class Task:
    def __init__(s, key, fn, limit, cost=1.0):
        s.key, s.fn, s.limit, s.cost = key, fn, limit, cost
        s.res = None


def run_pool(tasks, n, deadline):
    """fork one child per task, n at a time; result = ('ok', obj) | ('timeout', s) | ('crash', sig) | ('error', text) | ('skipped',)"""
    pend = sorted(tasks, key=lambda t: -t.cost)
    run = {}
    while pend or run:
        while pend and len(run) < n:
            t = pend.pop(0)
            if time.time() > deadline:
                t.res = ('skipped', None)
                continue
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                pdeathsig()
                try: res = ('ok', t.fn())
                except MemoryError: res = ('error', 'out of memory')
                except BaseException: res = ('error', traceback.format_exc()[-1500:])
                try: N._writeall(w, json.dumps(res, default=str).encode())
                finally: os._exit(0)
            os.close(w)
            run[r] = (pid, t, time.time(), [])
        if not run: break
        rd, _, _ = select.select(list(run), [], [], 0.5)
        now = time.time()
        for r in list(run):
            pid, t, t0, buf = run[r]
            done = False
            if r in rd:
                d = os.read(r, 1 << 16)
                if d: buf.append(d)
                else: done = True
            if not done and (now - t0 > t.limit or now > deadline + 5):
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: pass
                try: os.kill(pid, signal.SIGKILL)
                except OSError: pass
                os.waitpid(pid, 0)
                os.close(r); del run[r]
                t.res = ('timeout', round(now - t0, 1))
                continue
            if done:
                os.close(r); del run[r]
                _, st = os.waitpid(pid, 0)
                try: t.res = tuple(json.loads(b''.join(buf)))
                except ValueError:
                    t.res = ('crash', os.WTERMSIG(st)) if os.WIFSIGNALED(st) else ('error', 'no result')
    return tasks


def limit_mem(gb):
    import resource
    b = int(gb * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (b, b))


# ------------------------------------------------------------------ symbolic part
def sym_task(c, tmo):
    def f():
        limit_mem(6)
        r = spec.verify(c, tmo)
        out = {'undecided': r.undecided, 'assumed': sorted(r.assumed), 'inlined': sorted(r.inlined), 'loops': r.loops,
               'reach': r.reach, 'time': r.time, 'obls': []}
        for o in r.obls:
            d = [o.name, o.status, o.backend, round(o.time, 3), o.kind]
            if o.status != 'proved':
                m = getattr(o, 'model', None)
                im = getattr(o, 'instmodel', None)
                txt = None
                if m is not None or im is not None:
                    try: txt = str(m if m is not None else im)[:3000]
                    except Exception: txt = None
                d += [bool(im is not None), txt, tm.show(o.goal, 6)[:1500] if not isinstance(o.goal, bool) else str(o.goal), consts_of(o)]
            out['obls'].append(d)
        return out
    return f


def consts_of(o):
    """integer/real constants of a failed obligation (dictionary for the native generator), scalar parameters of the model"""
    out, seen, st = set(), set(), [o.goal] + list(o.hyps)
    while st and len(seen) < 20000:
        y = st.pop()
        if not isinstance(y, tm.T): continue
        if y.id in seen: continue
        seen.add(y.id)
        for k in tm._kids(y):
            if isinstance(k, tm.T): st.append(k)
            elif isinstance(k, int) and not isinstance(k, bool) and abs(k) < 1 << 31: out.add(k)
    par = {}
    m = getattr(o, 'model', None) or getattr(o, 'instmodel', None)
    if m is not None:
        try:
            for d in m.decls():
                if d.name().startswith('p_'):
                    v = m[d]
                    par[d.name()[2:]] = int(v.as_long()) if hasattr(v, 'as_long') else float(v.as_fraction())
        except Exception: pass
    return {'c': sorted(out)[:60], 'p': par}


# ------------------------------------------------------------------ verdicts
def known_entries(prop):
    try: d = json.load(open(KNOWN))
    except FileNotFoundError: return []
    return [e for e in d.get('findings', []) if e['property'] == prop]


def match_known(ents, contract, what):
    for e in ents:
        if e['contract'] == contract and any(w in what for w in e['match']): return e
    return None


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 640 if tier == 'quick' else 3000
    budget = float(os.environ.get('CDV_BUDGET', budget))
    mod = importlib.import_module('cdv.props.' + a.prop.lower())
    cons = [c for c in mod.contracts()]
    if a.only:
        pats = a.only.split(',')
        cons = [c for c in cons if any(p in c.name for p in pats)]
    if tier == 'quick': cons = [c for c in cons if getattr(c, 'tier', 'quick') == 'quick']
    tmo = 20 if tier == 'quick' else 60
    lim = 240 if tier == 'quick' else 900
    # ---- parse and build once, children share the pages
    so = {}
    missing = {}
    sys.setrecursionlimit(20000)

    def prep(c):
        try:
            c.prepare() if hasattr(c, 'prepare') else spec.tu_of(c)
        except Unsupported as e:
            missing[c.name] = 'unsupported: %s' % e
        except Exception as e:
            missing[c.name] = 'front end error: %r' % e
    bt = [Task(('build', l), (lambda l=l: N.build(l[0], **dict(l[1]))), 300) for l in sorted({c.solib() for c in cons if c.native}, key=str)]
    # builds run in children while the parent parses
    import threading
    th = threading.Thread(target=lambda: [so.__setitem__(t.key[1], _try(t.fn)) for t in bt])
    th.start()
    libs = sorted({c.lib for c in cons if c.lib} | {''})
    for c in cons: prep(c)
    th.join()
    builderr = {l: v[1] for l, v in so.items() if v[0] != 'ok'}
    tasks = []
    deadline = t0 + budget
    for c in cons:
        if c.name in missing: continue
        if c.symb: tasks.append(Task(('sym', c.name), sym_task(c, tmo), getattr(c, 'limit', None) or lim, getattr(c, 'cost', 1.0)))
        if c.native and c.solib() not in builderr:
            tr = c.trials * (1 if tier == 'quick' else 10)
            tasks.append(Task(('nat', c.name), (lambda c=c, tr=tr: nat(c, seed, tr, tier)), 200, 0.5))
    run_pool(tasks, a.j, deadline)
    R = {t.key: t.res for t in tasks}
    ents = known_entries(a.prop)
    viol, knownhit, rows = [], {}, []
    # ---- second stage: more executions for contracts that are not fully proved
    again = []
    for c in cons:
        sr = R.get(('sym', c.name))
        ok = sr and sr[0] == 'ok' and not sr[1]['undecided'] and all(o[1] == 'proved' for o in sr[1]['obls'])
        nr = R.get(('nat', c.name))
        if not ok and c.native and nr and nr[0] == 'ok' and nr[1].get('done') is not None and not nr[1].get('fail'):
            hint = {'c': set(), 'p': []}
            if sr and sr[0] == 'ok':
                for o in sr[1]['obls']:
                    if o[1] != 'proved':
                        hint['c'].update(o[8]['c'])
                        if o[8]['p']: hint['p'].append(o[8]['p'])
            again.append(Task(('nat2', c.name), (lambda c=c, h=hint: nat(c, seed + 7919, c.trials * (12 if tier == 'quick' else 60), tier, h)), 200, 1))
    if again:
        run_pool(again, a.j, time.time() + 150)
        for t in again: R[t.key] = t.res
    totals = {'obl': 0, 'dis': 0, 'time': 0.0, 'back': {}, 'kinds': {}}
    for c in cons:
        row = {'contract': c.name, 'function': c.fn, 'library': c.lib}
        rows.append(row)
        sr, nr, nr2 = R.get(('sym', c.name)), R.get(('nat', c.name)), R.get(('nat2', c.name))
        fails = []
        for n in (nr, nr2):
            if n and n[0] == 'ok' and n[1].get('fail'): fails.append(n[1])
        for n, lab in ((nr, 'executions'), (nr2, 'executions_extra')):
            if n: row[lab] = n[1].get('done') if n[0] == 'ok' and isinstance(n[1], dict) else '%s %s' % (n[0], str(n[1])[:200])
            if n and n[0] == 'ok' and n[1].get('hits') and lab == 'executions': row['returns'] = n[1]['hits']
        refuted, unk = [], []
        status = 'undecided'
        if not c.symb:
            row['undecided'] = 'bounded: executions only'
        elif c.name in missing: row['undecided'] = missing[c.name]
        elif sr is None or sr[0] != 'ok':
            row['undecided'] = 'verification %s' % (sr[0] if sr else 'not run')
            if sr and sr[0] == 'error': row['undecided'] += ': ' + str(sr[1])[-300:]
        else:
            d = sr[1]
            row['solver_s'] = round(sum(o[3] or 0 for o in d['obls']), 2)
            row['time_s'] = round(d['time'], 2)
            row['obligations'] = len(d['obls'])
            row['discharged'] = sum(o[1] == 'proved' for o in d['obls'])
            row['reachable_returns'] = d['reach']
            row['loops'] = {k: v for k, v in d['loops'].items() if v}
            row['inlined'] = d['inlined']
            totals['obl'] += row['obligations']; totals['dis'] += row['discharged']; totals['time'] += row['solver_s']
            for o in d['obls']:
                if o[1] == 'proved': totals['back'][o[2]] = totals['back'].get(o[2], 0) + 1
                totals['kinds'][o[4]] = totals['kinds'].get(o[4], 0) + 1
            if d['assumed']: row['assumed'] = d['assumed']
            if d['undecided']: row['undecided'] = d['undecided']
            elif not d['obls']: row['undecided'] = 'no obligation generated'
            refuted = [o for o in d['obls'] if o[1] == 'refuted']
            unk = [o for o in d['obls'] if o[1] != 'proved' and o not in refuted]
            if d['assumed'] or d['undecided'] or getattr(c, 'weak', False): unk += refuted; refuted = []
            if unk: row['not_discharged'] = [o[0] for o in unk][:20]
            if not d['undecided'] and not unk and not refuted and d['obls'] and not d['assumed']: status = 'proved'
        for f in fails:
            what = f['fail']
            e = match_known(ents, c.name, what)
            if e: knownhit[e['id']] = e; continue
            viol.append((c, 'execution', what, f, refuted))
            status = 'violated'
            break
        else:
            left = []
            for o in refuted:
                e = match_known(ents, c.name, o[0])
                if e: knownhit[e['id']] = e
                else: left.append(o)
            if left:
                viol.append((c, 'obligation', left[0][0], None, left))
                status = 'violated'
            elif refuted: status = 'known finding'
        if status == 'undecided': row['bounded'] = 'decided only on the executions counted here, not proved'
        row['status'] = status
        if a.v or status != 'proved':
            print('%-44s %-10s %s/%s obl  exec %s+%s %s' % (c.name, status, row.get('discharged', '-'), row.get('obligations', '-'),
                  row.get('executions', '-'), row.get('executions_extra', '-'), row.get('undecided', '') or ''))
            for o in (unk + refuted)[:6]: print('        %s: %s' % (o[1], o[0]))
            if sr and sr[0] == 'ok' and sr[1]['assumed']: print('        assumed', sr[1]['assumed'][:4])
    for e in knownhit.values(): print('KNOWN-FINDING: property=%s %s' % (a.prop, e['what']))
    rdir = os.path.join(EVID, 'replay')
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for c, kind, what, f, obls in viol:
            p = os.path.join(rdir, '%s-%s.json' % (a.prop, c.name))
            json.dump({'property': a.prop, 'contract': c.name, 'function': c.fn, 'kind': kind, 'what': what, 'execution': f,
                       'replay_cmd': 'python3-vt -m cdv.check %s --only %s -v' % (a.prop, c.name),
                       'failed_obligations': [{'name': o[0], 'solver': o[1], 'model': o[6], 'goal': o[7]} for o in obls[:10]]},
                      open(p, 'w'), indent=1, default=str)
            print('  failed: %s: %s' % (c.name, what))
            lines.append('VIOLATION property=%s replay=%s%s' % (a.prop, p, '' if kind == 'execution' else ' no-failing-input-found'))
    if not a.no_evidence and not a.only:
        evidence(a.prop, mod, tier, seed, rows, totals, viol, time.time() - t0, len(cons), knownhit)
    npr = sum(r['status'] == 'proved' for r in rows)
    print('%s: %d contracts, %d proved, %d bounded, %d obligations (%d discharged), %.0f s' % (
        a.prop, len(rows), npr, sum(r['status'] == 'undecided' for r in rows), totals['obl'], totals['dis'], time.time() - t0))
    lines.sort(key=lambda l: l.endswith('found'))
    for l in lines: print(l)
    sys.stdout.flush()
    return 1 if viol else 0


def _try(f):
    try: return ('ok', f())
    except Exception as e: return ('error', str(e)[:500])


def nat(c, seed, trials, tier, hint=None):
    """native evaluation with crash isolation; on a crash the single execution responsible is looked for"""
    budget = 20.0 if tier == 'quick' else 120.0
    if hint: budget = 60.0
    r = spec.native_run(c, seed, trials, budget=budget, hint=hint)
    if r[0] == 'ok': return r[1]
    if r[0] == 'crash':
        # a crash inside the code under test on inputs satisfying the precondition
        k = spec.crash_trial(c, seed, trials, hint)
        if k is not None: return {'fail': 'execution crashed (signal %s)' % r[1], 'trial': k, 'seed': seed, 'done': 0}
        return {'done': None, 'note': 'crash not reproduced'}
    return {'done': None, 'note': '%s %s' % (r[0], str(r[1])[:400])}


def evidence(prop, mod, tier, seed, rows, tot, viol, wall, ncon, known):
    ex = sum(r.get('executions') or 0 for r in rows if isinstance(r.get('executions'), int)) + \
        sum(r.get('executions_extra') or 0 for r in rows if isinstance(r.get('executions_extra'), int))
    base = ['clang 18 front end (AST of the real translation units, same flags as the build)',
            'cdv symbolic executor and loop summariser (/verif/cdv)', 'z3 4.8/cvc5 1.1.2']
    ass = ['floating point values are treated as exact reals, 32/64 bit counters as mathematical integers (bit operations exact)',
           'distinct pointer parameters and distinct pointer fields designate disjoint blocks',
           'code after a failing assert or exit() is not executed',
           'printed messages have no effect on memory'] + list(getattr(mod, 'ASSUMPTIONS', []))
    level = getattr(mod, 'LEVEL', 'proof')
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(wall, 1), 'violations': len(viol),
         'assumptions': ass,
         'coverage': {'obligations': tot['obl'], 'discharged': tot['dis'],
                      'checker_cmd': 'python3-vt -m cdv.check %s --tier %s' % (prop, tier), 'trusted_base': base,
                      'back_ends': tot['back'], 'obligation_kinds': tot['kinds'], 'solver_s': round(tot['time'], 1),
                      'functions_under_contract': sorted({r['function'] for r in rows}),
                      'functions_inlined': sorted({i for r in rows for i in r.get('inlined', [])}),
                      'contracts_proved': sorted(r['contract'] for r in rows if r['status'] == 'proved'),
                      'contracts_bounded': sorted(r['contract'] for r in rows if r['status'] == 'undecided'),
                      'known_findings': sorted(known),
                      'evaluations': ex, 'distinct_nontrivial': ex, 'rule': 'random contract evaluations on the compiled functions',
                      'contracts': rows,
                      'explanation': 'a contract counts as proved only when every obligation generated from the current source was '
                                     'discharged; contracts_bounded were only evaluated on the listed executions'}}
    os.makedirs(EVID, exist_ok=True)
    json.dump(d, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, default=str)


if __name__ == '__main__':
    sys.exit(main())
