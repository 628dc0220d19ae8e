"""Command line: run.py check <property> [--tier quick|thorough] | list | setup"""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import build

VERIF = build.VERIF
sys.path.insert(0, os.path.join(VERIF, 'props'))

ASSUMPTIONS = [
    'f64 arithmetic is treated as exact real arithmetic (rounding, overflow to infinity and NaN propagation are outside the proof)',
    'rustc nightly lowers the source to MIR faithfully; the MIR dumped by driver/mirdump.rs (overflow checks on) is the code that runs',
    'unwinding and Drop glue have no effect on the values the contracts speak about',
    'std/slotmap/smallvec/arrayvec/rand primitives behave as modelled in engine/builtins_rs.py (see library_models)',
    'derived Clone/PartialEq on element types are structural',
    'the executor (engine/machine.py), the contract layer and the SMT solvers are correct',
]


LIMIT = 820       # seconds


def load_prop(pid):
    import spec
    spec.REG.items.clear()
    mod = importlib.import_module(pid.lower())
    return mod, list(spec.REG.items)


def model_fn(m):
    import z3

    def ev(t):
        v = m.eval(t, model_completion=True)
        if z3.is_bool(v):
            return z3.is_true(v)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            fr = Fraction(v.numerator_as_long(), v.denominator_as_long())
            return Fraction(repr(float(fr)))
        if z3.is_algebraic_value(v):
            a = v.approx(25)
            return Fraction(repr(float(Fraction(a.numerator_as_long(), a.denominator_as_long()))))
        raise Exception('model value %s' % v)
    return ev


def run_theorem(prog, thm, tier, budget, end=None):
    """-> result dict; executed in a worker process"""
    import spec
    E = spec.Env(prog, deadline=time.time() + budget)
    res = {'theorem': thm.name, 'bounded': thm.bounded, 'obligations': [], 'functions': [], 'models': [], 'error': None, 'vacuity': None}
    try:
        prove(prog, thm, tier, budget, E, res)
    except Exception:
        res['error'] = 'crash: ' + traceback.format_exc()[-1500:]
    open_ = [o for o in res['obligations'] if o['result'] != 'proved' and not o.get('confirmed')]
    left = (end or time.time() + 60) - time.time()
    if (res['error'] or open_) and not any(o.get('confirmed') for o in res['obligations']) and left > 5 and res['error'] != 'vacuous precondition':
        try:
            x = explore(E, prog, thm, min(60, left))
        except Exception:
            x = {'runs': 0, 'rejected': 0, 'failure': None, 'why': {traceback.format_exc()[-400:]: 1}}
        res['explored'] = x
        if x['failure']:
            o = {'name': ', '.join(x['failure']['failed_postconditions']) or 'no panic', 'backend': None, 's': 0, 'result': 'violated', 'confirmed': True, 'replay': x['failure']}
            res['obligations'].append(o)
    return res


def prove(prog, thm, tier, budget, E, res):
    import z3
    import spec
    import solve
    from values import Unsupported
    from machine import Dead
    t0 = time.time()
    scale = 1.0 if tier == 'quick' else 4.0
    deadline = t0 + budget
    try:
        thm.fn(E, *thm.args)
    except Unsupported as e:
        res['error'] = 'unsupported: ' + ' <- '.join(str(a) for a in e.args)[:600]
        return
    except Dead:
        res['error'] = 'contract evaluation reached an infeasible state'
        return
    M = E.M
    res['functions'] = sorted(n for n in M.visited if 'traffic_sim' in n or n.startswith('<traffic'))
    res['entry'] = E.calls
    res['models'] = sorted(M.models_used)
    res['abstracted'] = sorted(set(E.abstracted))
    res['assumed'] = list(E.assumed) + ['panics whose message contains "%s" are not obligations of this contract' % k for k in E.panic_ok] + ([] if thm.panics else ['panics are not obligations of this contract'])
    res['notes'] = E.notes
    res['exec_s'] = round(time.time() - t0, 2)
    # preconditions stated after a call hold for its outcomes as well
    late = lambda pc: tuple(pc) + tuple(c for c in E.pre if not any(c is d for d in pc))
    obls = [(n, late(pc), f, None) for n, pc, f in E.obls]
    if thm.panics:
        for s, msg, where in M.panics:
            if any(k in msg or k in where for k in E.panic_ok):
                continue
            obls.append(('no panic: %s in %s' % (msg, where), late(s.pc), (lambda: False), 'panic'))
    if not E.obls and not E.notes:
        res['error'] = 'no postcondition generated'
        return
    # vacuity: the precondition must be satisfiable, together with some outcome
    vt = time.time()
    pcs = [late(o.st.pc) for o in E.outcomes] or [E.st.pc]
    verdict = None
    for pc in pcs[-3:] + pcs[:3]:
        verdict = satisfiable(E, M, list(pc), scale)
        if verdict == 'sat':
            break
    res['vacuity'] = 'satisfiable' if verdict == 'sat' else 'not established'
    res['vacuity_s'] = round(time.time() - vt, 2)
    if verdict == 'unsat':
        res['error'] = 'vacuous precondition'
        return
    for name, pc, f, kind in obls:
        o = {'name': name, 'result': None, 'backend': None, 's': 0}
        res['obligations'].append(o)
        if time.time() > deadline:
            o['result'] = 'unknown'
            o['why'] = 'time budget'
            continue
        ot = time.time()
        try:
            discharge(E, M, thm, prog, name, pc, f, kind, o, scale)
        except Unsupported as e:
            o['result'] = 'unknown'
            o['why'] = 'unsupported: %s' % (e.args,)
        o['s'] = round(time.time() - ot, 3)
        if o['result'] == 'violated':
            break
    res['wall_s'] = round(time.time() - t0, 2)
    res['feas_queries'] = M.stats['feas']
    res['feas_s'] = round(M.stats['feas_s'], 2)


def satisfiable(E, M, pc, scale):
    """is there an input that satisfies the path condition? small and regular ones are tried first"""
    import z3
    import solve
    fs = solve.with_defs(M, pc)
    small = [t <= 2 for n, t in reals_of(fs, M).items() if n.startswith('n_')]
    none = [t == 0 for n, t in reals_of(fs, M).items() if n.startswith('n_')]
    for extra, to in ((E.hints + small, 1500), ([], 1500), (E.hints + none, 1500), (E.hints + small, 6000)):
        s = z3.Solver()
        s.set('timeout', int(to * scale))
        s.add(*fs)
        s.add(*extra)
        r = s.check()
        if r == z3.sat:
            return 'sat'
        if r == z3.unsat and not extra:
            return 'unsat'
    r, m, be, s = solve.check(fs, scale)
    if r != 'unknown':
        return r
    return 'sat' if search(M, pc, scale, 6) is not None else 'unknown'


def flatten(goal):
    import z3
    if isinstance(goal, bool):
        return [goal]
    if z3.is_and(goal):
        out = []
        for c in goal.children():
            out.extend(flatten(c))
        return out
    return [goal]


def discharge(E, M, thm, prog, name, pc, f, kind, o, scale):
    import z3
    import solve
    from spec import Tol
    Tol.v = Fraction(0)
    goal = f()
    for g in flatten(goal):
        if g is True:
            o['result'] = o['result'] or 'proved'
            o['backend'] = o['backend'] or 'evaluation'
            continue
        ng = z3.BoolVal(True) if g is False else z3.Not(g)
        forms = solve.with_defs(M, list(pc) + [ng])
        r, m, be, s = solve.check(forms, scale, uf=solve.with_defs(M, list(pc) + [ng], uf=True))
        if r == 'unsat':
            o['result'] = 'proved'
            o['backend'] = be
            continue
        # not proved: look for a concrete counterexample
        confirm(E, M, thm, prog, name, pc, f, kind, g, ng, r, m, o, scale)
        return
    if o['result'] is None:
        o['result'] = 'proved'
        o['backend'] = 'evaluation'


def reals_of(forms, M):
    import z3
    out = {}
    seen = set()
    stack = list(forms)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (M is None or t.decl().name() not in M.defs) and '!' not in t.decl().name():
                out[t.decl().name()] = t
            stack.extend(t.children())
    return out


def search(M, forms, scale, tries, seed=1):
    """randomised model search: fix some inputs to simple values so that the rest gets easy"""
    import random
    import z3
    import solve
    fs = solve.with_defs(M, forms)
    rs = reals_of(fs, M)
    names = sorted(rs)
    rnd = random.Random(seed)
    pool = [0, 1, 2, 3, 5, 10, Fraction(1, 2), Fraction(3, 2), 4, 8, 20, 30, -1, -2]
    for k in range(tries):
        s = z3.Solver()
        s.set('timeout', int(1500 * scale))
        s.add(*fs)
        frac = [0.3, 0.5, 0.7, 0.85][k % 4]
        t0 = time.time()
        for n in names:
            if rnd.random() > frac:
                continue
            t = rs[n]
            if not z3.is_arith(t):
                continue
            s.push()
            v = rnd.choice(pool)
            if z3.is_int(t):
                v = int(v)
                s.add(t == v)
            else:
                s.add(t == z3.RealVal(str(v)))
            q = z3.Solver()
            q.set('timeout', 80)
            q.add(*s.assertions())
            if q.check() == z3.unsat or time.time() - t0 > 4:
                s.pop()
                if time.time() - t0 > 4:
                    break
        if s.check() == z3.sat:
            return s.model()
    return None


def confirm(E, M, thm, prog, name, pc, f, kind, g, ng, r, m, o, scale):
    import z3
    import solve
    import spec
    import replay
    from values import Unsupported
    models = []

    def cand(forms, how, secs=4):
        fs = solve.with_defs(M, forms)
        s = z3.Solver()
        s.set('timeout', int(1000 * secs * scale))
        s.add(*fs)
        if s.check() == z3.sat:
            models.append((how, s.model()))
            return True
        return False

    def goal_tol(tol):
        spec.Tol.v = tol
        try:
            gt = f()
        finally:
            spec.Tol.v = Fraction(0)
        return z3.BoolVal(True) if gt is False else (None if gt is True else z3.Not(gt))
    ngt = goal_tol(Fraction(1, 1000)) if kind != 'panic' else ng
    base = list(pc)
    bnd = []
    for n, t in reals_of(solve.with_defs(M, base + [ng]), M).items():
        if z3.is_real(t):
            bnd += [t <= 200, t >= -200]
        elif z3.is_int(t) and not any(k in n for k in ('tag',)):
            bnd += [t <= 64]
    small = [t <= 4 for n, t in reals_of(base, M).items() if n.startswith('n_')] + E.hints
    if ngt is not None:
        cand(base + [ngt] + bnd + small, 'margin+bounds')
        if not models:
            mm = search(M, base + [ngt] + bnd + small, scale, 12)
            if mm is not None:
                models.append(('search', mm))
        if not models:
            cand(base + [ngt] + bnd, 'margin+long lists', 15)
        if not models:
            cand(base + [ngt], 'margin')
    if not models:
        cand(base + [ng] + bnd + small, 'strict+bounds')
    if not models and r == 'sat':
        models.append(('strict', m))
    if not models:
        o['result'] = 'unknown'
        o['why'] = 'solvers gave up and no counterexample was found'
        return
    why = []
    rpc = replay.Rpc(prog.harness)
    try:
        for how, mod in models:
            E2 = spec.Env(prog, 'conc', model_fn(mod), rpc)
            spec.Tol.v = Fraction(1, 10 ** 9)
            try:
                panic = None
                try:
                    thm.fn(E2, *thm.args)
                except spec.ReplayPanic as e:
                    panic = e.msg
                if panic is not None or E2.failed:
                    o['result'] = 'violated'
                    o['confirmed'] = True
                    o['replay'] = {'failed_postconditions': E2.failed, 'panic': panic,
                                   'inputs': {k: str(v) for k, v in E2.inputs.items()}, 'program': rpc.log[-6:], 'model_from': how}
                    return
                why.append('contradicted: %s: the real code satisfies the postcondition on the model' % how)
            except (spec.ReplayInvalid, Unsupported) as e:
                why.append('not replayable: %s' % (e,))
            except Exception as e:
                why.append('not replayable: %s' % traceback.format_exc()[-600:])
            finally:
                spec.Tol.v = Fraction(0)
    finally:
        rpc.close()
    o['why'] = why
    if r != 'sat' or any(w.startswith('contradicted') for w in why):
        o['result'] = 'unknown'
        return
    o['result'] = 'violated'
    o['confirmed'] = False
    o['model'] = str(m)[:4000]
    o['goal'] = str(g)[:3000]


def explore(E, prog, thm, seconds, seed=1, batch=16):
    """Runs the contract on the compiled crate with inputs drawn from its precondition (and, where the execution
    got that far, from the path conditions of its outcomes). A stand-in for contracts left undecided; bounded."""
    import random
    import z3
    import replay
    import solve
    import spec
    from values import Unsupported
    t0 = time.time()
    end = t0 + seconds
    M = E.M
    rnd = random.Random(seed)
    late = lambda pc: tuple(pc) + tuple(c for c in E.pre if not any(c is d for d in pc))
    pcs = [late(o.st.pc) for o in E.outcomes] or [tuple(E.pre)]
    out = {'runs': 0, 'rejected': 0, 'failure': None, 'why': {}}
    b = replay.Batch(prog.harness)

    def one(ev, tol):
        def body(case):
            E2 = spec.Env(prog, 'conc', ev, case)
            case.E = E2
            panic = None
            spec.Tol.v = tol
            try:
                thm.fn(E2, *thm.args)
            except spec.ReplayPanic as e:
                panic = e.msg
            if panic is not None and (not thm.panics or any(k in panic for k in E2.panic_ok)):
                raise spec.ReplayInvalid('allowed panic')
            return (E2.failed, panic)
        return body

    def nudged(ev, seed):
        r = random.Random(seed)
        share = [0.1, 0.5, 0.8][seed % 3]
        memo = {}

        def f(t):
            v = ev(t)
            k = str(t)
            if z3.is_real(t) and not isinstance(v, bool):
                if k not in memo:
                    memo[k] = v if r.random() < share else Fraction(repr(float(v) + r.uniform(-1, 1) * 1e-4 * max(1.0, abs(float(v)))))
                return memo[k]
            return v
        return f
    try:
        rounds = 0
        while time.time() < end and rounds < 4 and out['failure'] is None:
            rounds += 1
            evs = []
            stop = min(end, time.time() + seconds / 6)
            while len(evs) < batch and time.time() < stop:
                pc = rnd.choice(pcs)
                fs = solve.with_defs(M, list(pc))
                extra = []
                for n, t in reals_of(fs, M).items():
                    if n.startswith('n_'):
                        extra.append(t <= rnd.choice([1, 2, 3, 4]))
                    elif z3.is_real(t):
                        extra += [t <= 200, t >= -200]
                m = draw(fs, extra + E.hints, rnd) or draw(fs, E.hints, rnd)
                if m is not None:
                    evs.append(model_fn(m))
            if not evs:
                break
            cases = b.run([one(ev, Fraction(1, 10 ** 6)) for ev in evs], end)
            for ev, c in zip(evs, cases):
                if isinstance(c.result, BaseException):
                    out['rejected'] += 1
                    k = str(c.result)[:200]
                    out['why'][k] = out['why'].get(k, 0) + 1
                    continue
                out['runs'] += 1
                failed, panic = c.result
                if failed or panic is not None:
                    # rounding at a boundary is not a failure: it has to fail around the point as well
                    again = b.run([one(nudged(ev, s), Fraction(1, 1000)) for s in range(18)] + [one(ev, Fraction(1, 1000))], end + 60)
                    ok = [x.result for x in again[:-1] if not isinstance(x.result, BaseException)]
                    own = again[-1].result
                    if isinstance(own, BaseException) or not (own[0] or own[1] is not None):
                        continue
                    if len(ok) < 3 or not all(x[0] or x[1] is not None for x in ok):
                        continue
                    out['failure'] = {'failed_postconditions': failed, 'panic': panic, 'inputs': {k: str(v) for k, v in c.E.inputs.items()},
                                      'program': c.log[-6:], 'model_from': 'exploration', 'nudged_runs_failing': len(ok)}
                    break
    finally:
        spec.Tol.v = Fraction(0)
        b.close()
    out['s'] = round(time.time() - t0, 1)
    return out


def draw(fs, extra, rnd):
    """a random model: inputs are fixed to random simple values as far as the constraints allow"""
    import z3
    s = z3.Solver()
    s.set('timeout', 1500)
    s.add(*fs)
    s.add(*extra)
    rs = reals_of(fs, None)
    names = sorted(n for n in rs if z3.is_arith(rs[n]) or z3.is_bool(rs[n]))
    rnd.shuffle(names)
    pool = [0, 1, 2, 3, 5, 10, Fraction(1, 2), Fraction(3, 2), 4, 8, 20, 30, -1, -2, 15, 50, 100, Fraction(1, 10), Fraction(7, 10)]
    t0 = time.time()
    if s.check() != z3.sat:
        return None
    best = s.model()
    for n in names:
        if time.time() - t0 > 1.5:
            break
        if rnd.random() > 0.7:
            continue
        t = rs[n]
        if z3.is_bool(t):
            c = t if rnd.random() < 0.5 else z3.Not(t)
        elif z3.is_int(t):
            c = t == rnd.choice([0, 1, 2, 3])
        else:
            c = t == z3.RealVal(str(rnd.choice(pool) + Fraction(rnd.randrange(1000), 10000)))
        s.push()
        s.set('timeout', 150)
        s.add(c)
        if s.check() == z3.sat:
            best = s.model()
        else:
            s.pop()
    return best


def worker(prog, thm, tier, budget, end, conn):
    import signal
    try:
        import z3
        r = run_theorem(prog, thm, tier, budget, end)
    except BaseException:
        r = {'theorem': thm.name, 'bounded': thm.bounded, 'obligations': [], 'functions': [], 'models': [], 'error': 'crash: ' + traceback.format_exc()[-1500:]}
    conn.send(r)
    conn.close()


def run_all(prog, thms, tier, budget, t0):
    ctx = mp.get_context('fork')
    jobs = list(enumerate(sorted(thms, key=lambda t: -t.weight)))
    running = {}
    results = {}
    ncpu = max(1, min(8, os.cpu_count() or 2))
    while jobs or running:
        while jobs and len(running) < ncpu:
            i, t = jobs.pop(0)
            a, b = ctx.Pipe(False)
            # no contract may starve the others: the whole check stays within its time limit
            left = t0 + LIMIT - 250 - time.time()
            mine = max(10, min(budget, left if len(running) + len(jobs) < ncpu else left / 2))
            p = ctx.Process(target=worker, args=(prog, t, tier, mine, t0 + LIMIT - 120, b))
            p.start()
            b.close()
            running[i] = (p, a, t)
        time.sleep(0.02)
        for i in list(running):
            p, a, t = running[i]
            if a.poll():
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = {'theorem': t.name, 'bounded': t.bounded, 'obligations': [], 'functions': [], 'models': [], 'error': 'worker died'}
                p.join()
                del running[i]
            elif not p.is_alive():
                results[i] = {'theorem': t.name, 'bounded': t.bounded, 'obligations': [], 'functions': [], 'models': [], 'error': 'worker died'}
                del running[i]
            elif time.time() > t0 + LIMIT:
                p.kill()
                results[i] = {'theorem': t.name, 'bounded': t.bounded, 'obligations': [], 'functions': [], 'models': [], 'error': 'time limit'}
                del running[i]
    return [results[i] for i in sorted(results)]


def check(pid, tier):
    t0 = time.time()
    from machine import Prog
    harness = os.path.join(VERIF, 'props', pid.lower() + '.rs')
    if not os.path.exists(harness):
        harness = None
    try:
        prog = Prog(build.dump(harness))
        prog.harness = harness
    except build.BuildError as e:
        print('ERROR property=%s %s' % (pid, e))
        return 2
    mod, thms = load_prop(pid)
    if tier == 'quick':
        thms = [t for t in thms if t.tier == 'quick']
    only = os.environ.get('VERIF_ONLY')
    if only:
        thms = [t for t in thms if only in t.name]
    budget = float(os.environ.get('VERIF_BUDGET', '300' if tier == 'quick' else '500'))
    results = run_all(prog, thms, tier, budget, t0)
    errors, viol, unk = [], [], []
    proved = bounded = 0
    backends, solver_s = {}, 0.0
    fns, models, entries = set(), set(), []
    for r in results:
        if r['error']:
            errors.append('%s: %s' % (r['theorem'], r['error']))
        fns.update(r['functions'])
        models.update(r['models'])
        for e in r.get('entry', []):
            if e not in entries:
                entries.append(e)
        for o in r['obligations']:
            solver_s += o['s']
            if o['result'] == 'proved':
                if r['bounded']:
                    bounded += 1
                else:
                    proved += 1
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            elif o['result'] == 'violated':
                viol.append((r, o))
            else:
                unk.append('%s / %s: %s' % (r['theorem'], o['name'], o.get('why')))
    known = [k for k in load_known() if k[0] == pid]
    total = sum(len(r['obligations']) for r in results if not r['bounded'])
    btotal = sum(len(r['obligations']) for r in results if r['bounded'])
    ev = {
        # bounded obligations are not counted as proved; a check that has nothing else does not claim the level
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': getattr(mod, 'LEVEL', 'proof') if total else 'other',
        'coverage': {
            'obligations': total, 'discharged': proved, 'source_sha256': build.source_sha256(build.REPO),
            'checker_cmd': 'python3-vt engine/run.py check %s --tier %s' % (pid, tier),
            'trusted_base': ASSUMPTIONS + list(getattr(mod, 'ASSUMES', [])),
            'bounded_obligations': btotal, 'bounded_discharged': bounded,
            'bounds': sorted(set(r['bounded'] for r in results if r['bounded'])),
            'callees_by_contract': sorted({x for r in results for x in r.get('abstracted', ())}),
            'contracts': len(results), 'functions_under_contract': sorted(fns), 'entry_points': entries,
            'library_models': sorted(models), 'backends': backends, 'solver_s': round(solver_s, 2),
            'executor_queries': sum(r.get('feas_queries', 0) for r in results),
            'vacuity_checks_passed': sum(1 for r in results if r.get('vacuity') == 'satisfiable'),
            'per_contract': [{'contract': r['theorem'], 'bounded': r['bounded'], 'obligations': len(r['obligations']),
                              'discharged': sum(1 for o in r['obligations'] if o['result'] == 'proved'), 'wall_s': r.get('wall_s')} for r in results],
        },
        'assumptions': list(getattr(mod, 'ASSUMES', [])) + sorted({'contract "%s": %s' % (r['theorem'].split('[')[0], x) for r in results for x in r.get('assumed', ())}),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if ev['level'] == 'other':
        ev['coverage']['explanation'] = ('deductive verification of the real code in which the central contracts are bounded (see bounds): a fixed number of '
                                         'roads and vehicles with arbitrary values; their obligations are not counted as proved')
    rc = 0
    lines = []
    if viol:
        rc = 1
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        # confirmed ones first
        viol.sort(key=lambda x: not x[1].get('confirmed'))
        path = os.path.join(rd, '%s.json' % pid)
        with open(path, 'w') as fh:
            json.dump([{'property': pid, 'contract': r['theorem'], 'obligation': o['name'], 'confirmed_on_real_code': o.get('confirmed'),
                        'replay': o.get('replay'), 'why_not_replayed': o.get('why'), 'verifier_model': o.get('model'), 'goal': o.get('goal')} for r, o in viol], fh, indent=1)
        conf = any(o.get('confirmed') for _, o in viol)
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if conf else ' no-failing-input-found'))
        for r, o in viol[:5]:
            ev['coverage'].setdefault('failed', []).append({'contract': r['theorem'], 'obligation': o['name'], 'confirmed': bool(o.get('confirmed')), 'replay': path})
            lines.append('  failed: %s / %s%s' % (r['theorem'], o['name'], ' (confirmed on the real code)' if o.get('confirmed') else ''))
    elif errors or unk:
        # undecided contracts are reported as such; the answer rests on the decided ones and on the runs of the compiled code
        open_ = [r for r in results if r['error'] or any(o['result'] != 'proved' for o in r['obligations'])]
        ran = [r for r in open_ if r.get('explored', {}).get('runs', 0) >= 4]
        answered = len(results) - len(open_) + len(ran)
        rc = 0 if 2 * answered >= len(results) and answered else 2
        word = 'UNDECIDED' if rc == 0 else 'ERROR'
        for e in (errors + unk)[:8]:
            lines.append('%s property=%s %s' % (word, pid, e if rc else e[:300]))
        lines.append('%s property=%s %d of %d contracts not discharged, %d of them explored on the compiled code without a failure' % (word, pid, len(open_), len(results), len(ran)))
        ev['coverage']['undecided'] = [{'contract': r['theorem'], 'error': r['error'], 'open_obligations': [o['name'] for o in r['obligations'] if o['result'] != 'proved'],
                                        'explored_runs': r.get('explored', {}).get('runs', 0)} for r in open_]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', '%s%s.json' % (pid, '.partial' if only else '')), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for l in lines:
        print(l)
    for _, txt in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, txt))
    print('%s: %d contracts, %d/%d obligations discharged, %d/%d bounded, %.1fs' % (pid, len(results), proved, total, bounded, btotal, time.time() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for r in results:
            if r.get('explored'):
                print('      explored', {k: v for k, v in r['explored'].items() if k != 'failure'})
            print('  %-50s exec %ss vac %ss %s wall %ss %d obls %s' % (r['theorem'], r.get('exec_s'), r.get('vacuity_s'), r.get('vacuity'), r.get('wall_s'), len(r['obligations']), r['error'] or ''))
            for o in r['obligations']:
                if o['result'] != 'proved' or o['s'] > 1:
                    print('     ', o['name'], o['result'], o['backend'], o['s'])
    return rc


def explore_worker(prog, thm, conn):
    import spec
    E = spec.Env(prog, deadline=time.time() + 200)
    try:
        thm.fn(E, *thm.args)
        r = explore(E, prog, thm, float(os.environ.get('VERIF_EXPLORE', '60')), int(os.environ.get('VERIF_SEED', '1')))
    except BaseException:
        r = {'runs': 0, 'rejected': 0, 'why': {traceback.format_exc()[-500:]: 1}, 'failure': None}
    conn.send(r)
    conn.close()


def selftest(pid):
    """runs every contract on the compiled code: on a tree that satisfies the contracts nothing may fail"""
    from machine import Prog
    harness = os.path.join(VERIF, 'props', pid.lower() + '.rs')
    harness = harness if os.path.exists(harness) else None
    prog = Prog(build.dump(harness))
    prog.harness = harness
    mod, thms = load_prop(pid)
    only = os.environ.get('VERIF_ONLY')
    thms = [t for t in thms if not only or only in t.name]
    ctx = mp.get_context('fork')
    todo, running, bad = list(thms), [], 0
    while todo or running:
        while todo and len(running) < 8:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=explore_worker, args=(prog, t, b))
            p.start()
            b.close()
            running.append((t, p, a))
        time.sleep(0.05)
        for x in list(running):
            t, p, a = x
            if a.poll() or not p.is_alive():
                try:
                    r = a.recv()
                except EOFError:
                    r = {'runs': 0, 'rejected': 0, 'why': {'died': 1}, 'failure': None}
                p.join()
                running.remove(x)
                print('%-60s runs %d rejected %d %s' % (t.name[:60], r['runs'], r['rejected'], 'FAIL' if r['failure'] else ''), {k[:110]: v for k, v in r['why'].items()} if r['rejected'] or not r['runs'] else '')
                if r['failure']:
                    bad += 1
                    print(json.dumps(r['failure'], indent=1)[:int(os.environ.get('VERIF_WIDTH', '1500'))])
                sys.stdout.flush()
    return 1 if bad else 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                rest = l[len('known: property='):]
                pid, txt = rest.split(' ', 1)
                out.append((pid, txt))
    return out


def main():
    a = sys.argv[1:]
    if a[0] == 'setup':
        print(build.dump())
        return 0
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        return check(a[1], tier)
    if a[0] == 'explore':
        return selftest(a[1])
    if a[0] == 'list':
        mod, th = load_prop(a[1])
        for t in th:
            print(t.name, t.bounded or '')
        return 0
    print('usage')
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
