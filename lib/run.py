"""check driver: verify every contract of a property against /repo's current source."""
import sys, os, re, json, time, tempfile, shutil, threading, traceback, random, itertools, importlib, signal, hashlib
from multiprocessing import get_context
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from fractions import Fraction
import ir, sym, intercept, contract, native
from contract import SymC, NatC, Reject
from prove import Prover
from terms import *

VERIF = native.VERIF
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(200000)

def big(f, *a):
    """run in a thread with a large stack"""
    box = {}
    def g():
        try: box['r'] = f(*a)
        except BaseException as ex: box['e'] = ex; box['tb'] = traceback.format_exc()
    t = threading.Thread(target=g); t.start(); t.join()
    if 'e' in box: raise box['e']
    return box['r']

def make_engine(mod, ct, deadline):
    return sym.Engine(mod, intercept.Intercepts(ct.opt.get('modular')), deadline=deadline)

def discharge(ct, eng, c, obl, deadline, stopfirst=False):
    """prove each obligation; list of (name, verdict)"""
    res = []
    hq = [h for h in c.hyps if z3.is_quantifier(h)]
    P = Prover(eng.S, hq, timeout_ms=ct.opt.get('smt_ms', 10000), deadline=deadline)
    seen = set(); todo = []
    for nm, hy, goal in obl:
        hyl = [h for h in hy if h is not True]
        g = goal
        if isz(g): 
            key = (g.get_id(), frozenset(h.get_id() if isz(h) else h for h in hyl))
            if key in seen: continue
            seen.add(key)
        todo.append((nm, hyl, g))
    n = ct.opt.get('procs', 1) if not stopfirst else 1
    if n > 1 and len(todo) > n: return discharge_forked(P, todo, n), P
    for nm, hyl, g in todo:
        t0 = time.time(); v = P.prove(hyl, g)
        if os.environ.get('VP_DBG'): print('OBL %.1fs %s %s' % (time.time() - t0, nm, v if isinstance(v, str) else v[0]), flush=True)
        res.append((nm, v, hyl, g))
        if v != 'proved' and stopfirst: break
    return res, P

def discharge_forked(P, todo, n):
    """obligations are independent of one another: share them among n forked copies of the prover (models do not cross, so a refuted one is redone here)"""
    kids = []
    for j in range(n):
        r, w = os.pipe(); pid = os.fork()
        if pid == 0:
            out = []
            try:
                os.close(r)
                for i in range(j, len(todo), n):
                    v = P.prove(todo[i][1], todo[i][2])
                    out.append((i, v if isinstance(v, str) else (v[0], v[1] if isinstance(v[1], str) else None)))
                with os.fdopen(w, 'w') as f: json.dump({'v': out, 'stats': P.stats}, f)
            finally: os._exit(0)
        os.close(w); kids.append((pid, r))
    vs = {}
    for pid, r in kids:
        with os.fdopen(r) as f: txt = f.read()
        os.waitpid(pid, 0)
        if not txt: continue
        d = json.loads(txt)
        for i, v in d['v']: vs[i] = v if isinstance(v, str) else tuple(v)
        for k, x in d['stats'].items(): P.stats[k] = P.stats.get(k, 0) + x
    res = []; redone = 0
    for i, (nm, hyl, g) in enumerate(todo):
        v = vs.get(i, ('unknown', 'prover process ended'))
        if v[0] == 'failed' and redone < 3: v = P.prove(hyl, g); redone += 1
        res.append((nm, v, hyl, g))
    return res

def sym_job(mod, ct, budget):
    t0 = time.time(); deadline = t0 + budget
    out = {'name': ct.name, 'status': 'limit', 'obligations': 0, 'discharged': 0, 'failed': [], 'why': '', 'executed': [], 'trusted': [], 'backends': {}}
    try:
        eng = make_engine(mod, ct, deadline)
        c = SymC(eng)
        ct.body(c)
        # vacuity: the precondition is satisfiable
        s = z3.Solver(); s.set('timeout', 3000); s.add(*c.hyps)
        if s.check() == z3.unsat: raise RuntimeError('vacuous precondition in ' + ct.id)
        obl = c.obligations()
        if c.nret == 0 and c.thr is None: out['why'] = 'no normal return'; out['status'] = 'failed'; out['failed'] = ['returns normally']
        res, P = discharge(ct, eng, c, obl, deadline)
        out['obligations'] = len(res); out['discharged'] = sum(1 for r in res if r[1] == 'proved')
        bad = [r for r in res if r[1] != 'proved']
        hints = []
        for r in bad[:6]:
            m = r[1][1] if r[1][0] == 'failed' else None
            if m is not None and hasattr(m, 'eval'):
                try: v = model_inputs(c, m)
                except Exception: continue
                ints = {k: x for k, x in v.items() if isinstance(x, int)}
                for h in (ints, v):
                    if h and h not in hints and all(abs(x) <= 3000 for x in ints.values()): hints.append(h)
        out['hints'] = hints[:8]
        out['failed'] = out['failed'] + ['%s [%s]' % (r[0], 'refuted' if r[1][0] == 'failed' else 'undecided: ' + r[1][1]) for r in bad][:8]
        if bad or out['failed']: out['status'] = 'failed' if any(r[1][0] == 'failed' for r in bad) or not bad else 'unknown'
        elif not res: out['status'] = 'limit'; out['why'] = 'no obligations generated'
        else: out['status'] = 'proved'
        out['backends'] = {'normaliser': P.stats['norm'], 'z3': P.stats['z3'], 'cvc5': P.stats['cvc5'], 'engine_z3_queries': eng.qcount}
        out['solver_s'] = round(P.stats['time'] + eng.qtime, 2)
        out['executed'] = sorted(x for x in eng.executed if 'Plato' in x); out['trusted'] = sorted(eng.trusted)
    except EngineLimit as ex:
        out['why'] = 'engine limit: ' + str(ex)
        if os.environ.get('VP_TRACE'): out['why'] += '\n' + traceback.format_exc()
    except RuntimeError as ex: out['why'] = str(ex); out['status'] = 'broken' if 'vacuous' in str(ex) else 'limit'
    except Exception as ex:
        out['why'] = 'internal: ' + repr(ex) + ' ' + traceback.format_exc()[-600 if not os.environ.get('VP_TRACE') else -6000:]
    out['t'] = round(time.time() - t0, 2)
    return out

def size_combos(ct, limit):
    """small sizes declared by the contract"""
    names = {}
    class Probe(NatC):
        def size(self, name, lo=1, small=(1, 2, 3)):
            names[name] = [max(lo, x) for x in small]; return super().size(name, lo, small)
    for s in range(30):
        try: ct.body(Probe(random.Random(s))); break
        except Reject: continue
        except Exception: break
    if not names: return [{}]
    combos = [dict(zip(names, x)) for x in itertools.product(*[sorted(set(v)) for v in names.values()])]
    combos.sort(key=lambda d: sum(d.values()))
    if len(combos) > limit: combos = combos[:limit - 2] + combos[-2:]
    return combos

def model_inputs(c, m):
    vals = {}
    for n, x in c.inputs.items():
        if not isz(x): vals[n] = x; continue
        v = m.eval(x, model_completion=True)
        if z3.is_int_value(v): vals[n] = v.as_long()
        elif z3.is_rational_value(v): vals[n] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        elif z3.is_algebraic_value(v): vals[n] = float(v.approx(20).as_fraction())
        elif z3.is_true(v): vals[n] = True
        elif z3.is_false(v): vals[n] = False
        else: vals[n] = 0
    return vals

def bounded_job(mod, ct, sizes, budget):
    """fixed sizes, all values. returns dict(status proved|cex|unknown, inputs list)"""
    t0 = time.time(); deadline = t0 + budget
    out = {'sizes': sizes, 'status': 'unknown', 'inputs': [], 'why': '', 'obligations': 0}
    try:
        eng = make_engine(mod, ct, deadline)
        eng.S.bound = 4
        c = SymC(eng, dict(sizes))
        ct.body(c)
        s = z3.Solver(); s.set('timeout', 3000); s.add(*c.hyps)
        if s.check() == z3.unsat: out['status'] = 'proved'; out['why'] = 'empty'; return out
        obl = c.obligations()
        res, P = discharge(ct, eng, c, obl, deadline)
        out['obligations'] = len(res)
        bad = [r for r in res if r[1] != 'proved']
        if not bad: out['status'] = 'proved'; return out
        out['why'] = bad[0][0]
        for nm, v, hy, g in bad[:4]:
            # prefer models with moderate values and a visible difference
            base = list(hy) + [h for h in c.hyps]
            gz = z3.BoolVal(g) if isinstance(g, bool) else g
            small = [z3.And(x >= -8, x <= 8) for x in c.inputs.values() if isz(x) and z3.is_real(x)]
            vis = []
            if z3.is_eq(gz) and gz.arg(0).sort() == z3.RealSort():
                d = gz.arg(0) - gz.arg(1); vis = [z3.Or(d > z3.Q(1, 8), d < -z3.Q(1, 8))]
            for extra in ([vis + small, vis, small, []] if vis else [small, []]):
                s = z3.Solver(); s.set('timeout', 5000)
                fs = base + [z3.Not(gz)] + extra
                s.add(*fs); s.add(*math_axioms(fs)); s.add(*[a for a in eng.S.axioms if not z3.is_quantifier(a)])
                if s.check() == z3.sat:
                    out['inputs'].append((nm, model_inputs(c, s.model()))); break
            if time.time() > deadline: break
        out['status'] = 'cex' if out['inputs'] else 'unknown'
    except EngineLimit as ex: out['why'] = 'engine limit: ' + str(ex)
    except Exception as ex: out['why'] = 'internal: ' + repr(ex) + traceback.format_exc()[-400:]
    return out

def native_trials(ct, so, seed, n, fixed=None, hints=(), big=False):
    """(number of runs, failure or None)"""
    ctxs = []; cases = []
    tries = 0
    rng = random.Random('%s/%s' % (seed, ct.id))
    items = list(fixed) if fixed is not None else None
    while (items if items is not None else (len(cases) < n and tries < 40 * n)):
        tries += 1
        vals = items.pop(0) if items is not None else None
        if vals is None and hints and tries % 2: vals = hints[(tries // 2) % len(hints)]
        try:
            c = NatC(random.Random(rng.random()), vals, big and tries % 4 == 0)
            ct.body(c)
            cases.append(c.case()); ctxs.append(c)
        except Reject: continue
    if not cases: return 0, None, []
    res = native.run_cases(so, cases)
    good = 0
    for c, case, r in zip(ctxs, cases, res):
        if r['kind'] == 'timeout': return good, None, []
        try: bad = c.judge(r)
        except Reject: continue
        good += 1
        if bad: return good, {'clause': bad, 'inputs': c.inputs, 'case': case, 'result': r}, []
    return good, None, [x.inputs for x in ctxs[:2]]

# ------------------------------------------------------------------ parallel map with fork and time limits
def pmap(jobs, nproc, wall):
    """jobs: list of (key, fn, args); each in a forked child. Returns dict key -> result or None"""
    ctx = get_context('fork')
    pend = list(jobs); run = {}; res = {}
    t_end = time.time() + wall
    while pend or run:
        while pend and len(run) < nproc and time.time() < t_end:
            key, fn, args = pend.pop(0)
            r, w = ctx.Pipe(False)
            def child(fn=fn, args=args, w=w):
                os.setpgrp()
                try: w.send(big(fn, *args))
                except BaseException as ex:
                    try: w.send({'status': 'limit', 'why': 'child: ' + repr(ex)})
                    except Exception: pass
                w.close()
            p = ctx.Process(target=child); p.start(); w.close()
            run[key] = (p, r, time.time())
        for key in list(run):
            p, r, t0 = run[key]
            if r.poll(0.02):
                try: res[key] = r.recv()
                except EOFError: res[key] = None
                p.join(5); 
                if p.is_alive(): kill(p)
                del run[key]
            elif not p.is_alive():
                res[key] = None; del run[key]
            elif time.time() > t_end + 5:
                kill(p); res[key] = None; del run[key]
        if time.time() >= t_end:
            for key, fn, args in pend: res[key] = None
            pend = []
        time.sleep(0.01)
    return res
def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except Exception: pass
    p.kill(); p.join(2)

def load_contracts(prop):
    sys.path.insert(0, os.path.join(VERIF, 'contracts'))
    contract.REG.clear()
    importlib.import_module(prop.lower())
    return [c for c in contract.REG if c.prop == prop]

def known_findings(prop):
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)) if f['property'] == prop and f.get('status') == 'known']

def expected_status(prop):
    """verdicts on the unchanged tree (written by --record)"""
    p = os.path.join(VERIF, 'contracts', 'expected.json')
    return json.load(open(p)).get(prop, {}) if os.path.exists(p) else {}

def record(prop, res):
    p = os.path.join(VERIF, 'contracts', 'expected.json')
    d = json.load(open(p)) if os.path.exists(p) else {}
    d[prop] = {n: ('proved' if r['status'] == 'proved' else 'bounded' if r.get('label') == 'bounded' else 'replayed') for n, r in sorted(res.items())}
    json.dump(d, open(p, 'w'), indent=1, sort_keys=True); open(p, 'a').write('\n')

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('--no-native', action='store_true')
    ap.add_argument('-v', action='store_true'); ap.add_argument('--record', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cts = load_contracts(a.prop)
    if a.only: cts = [c for c in cts if a.only in c.name]
    thorough = a.tier == 'thorough'
    work = tempfile.mkdtemp(prefix='vp_%s_' % a.prop)
    try: rc = check(a, cts, seed, thorough, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def check(a, cts, seed, thorough, work, t0):
    tus = sorted({c.tu for c in cts})
    irp = {t: native.start_ir(t, work) for t in tus}
    nat = {} if a.no_native else {t: native.start_native(t, work) for t in tus}
    mods = {}; notes = []
    for t, (p, ll) in irp.items():
        o, _ = p.communicate()
        if p.returncode: notes.append('harness %s does not compile against the current tree: %s' % (t, o[-400:])); continue
        mods[t] = ir.Module(ll)
    budget = 900 if thorough else 150
    late = set() if thorough else {c.name for c in cts if c.opt.get('deep')}      # proved in the thorough tier only; evaluated on the compiled code in both
    jobs = [(c.name, sym_job, (mods[c.tu], c, c.opt.get('budget', budget))) for c in cts if c.tu in mods and c.name not in late]
    res = pmap(jobs, 8, 3000 if thorough else 420)
    sos = {}
    for t, (p, so) in nat.items():
        o, _ = p.communicate()
        if p.returncode: notes.append('native build of %s failed: %s' % (t, o[-400:]))
        else: sos[t] = so
    if not mods:
        print('\n'.join(notes)); print('ERROR: nothing could be verified'); return 2
    expected = expected_status(a.prop)
    # ---- replay: every contract is also evaluated on the compiled code
    ntr = 400 if thorough else 60
    live = [c for c in cts if c.tu in mods]
    byname = {c.name: c for c in live}
    viol = []          # (contract, dict)
    jobs = []
    for c in live:
        r = res.get(c.name) or {'name': c.name, 'status': 'limit', 'why': 'proved in the thorough tier only' if c.name in late else 'time limit', 'obligations': 0, 'discharged': 0, 'failed': [], 'executed': [], 'trusted': [], 'backends': {}}
        res[c.name] = r
        if c.name in late: r['label'] = 'replayed; proof in the thorough tier'
        if c.tu in sos:
            n = ntr if r['status'] == 'proved' else ntr * 8
            jobs.append((c.name, native_trials, (c, sos[c.tu], seed, n, None, r.get('hints', ()), r['status'] != 'proved')))
    nres = pmap(jobs, 8, 200)
    evals = 0; samples = []
    for c in live:
        x = nres.get(c.name)
        if not isinstance(x, tuple): continue
        evals += x[0]
        if x[1]: viol.append((c, x[1]))
        elif x[2]: samples.append({c.name: x[2][0]})
    # ---- proof did not go through and no failing input yet: bounded instances
    vn = {c.name for c, _ in viol}
    open_ = [c for c in live if res[c.name]['status'] != 'proved' and c.name not in vn and c.name not in late]
    # an obligation that is normally discharged ran out of solver time (a busy machine): once more, with more time, before anything is concluded
    again = [c for c in open_ if expected.get(c.name) == 'proved' and res[c.name]['status'] in ('failed', 'unknown', 'limit')][:8]
    left = 560 - (time.time() - t0)
    if again and left > 60 and not thorough:
        for c in again: c.opt['smt_ms'] = 4 * c.opt.get('smt_ms', 10000)
        for k, v in pmap([(c.name, sym_job, (mods[c.tu], c, min(left, 300))) for c in again], 8, min(left, 300)).items():
            if v and v['status'] == 'proved': res[k] = v
        open_ = [c for c in open_ if res[c.name]['status'] != 'proved']
    jobs = []
    for c in open_:
        for sz in size_combos(c, 40 if thorough else 12):
            jobs.append(((c.name, json.dumps(sz)), bounded_job, (mods[c.tu], c, sz, 60)))
    bres = pmap(jobs, 8, 600 if thorough else max(20, min(200, 780 - (time.time() - t0)))) if jobs else {}
    for c in open_:
        mine = {k[1]: v for k, v in bres.items() if k[0] == c.name}
        fixed = []; names = []
        for v in mine.values():
            if v and v.get('inputs'):
                for nm, x in v['inputs']: fixed.append(x); names.append(nm)
        if fixed and c.tu in sos:
            for x, nm in zip(fixed, names):
                n, bad, _ = native_trials(c, sos[c.tu], seed, 1, [x])
                evals += n
                if bad: bad['obligation'] = nm; viol.append((c, bad)); break
        if c.name in {x.name for x, _ in viol}: continue
        st = [v['status'] if v else None for v in mine.values()]
        res[c.name]['bounded'] = {'sizes': [json.loads(k) for k, v in mine.items() if v and v['status'] == 'proved'], 'of': len(st)}
        if st and all(s == 'proved' for s in st): res[c.name]['label'] = 'bounded'
        else: res[c.name]['label'] = 'replayed only'
        res[c.name]['bounded_why'] = [v['why'] for v in mine.values() if v and v['status'] != 'proved'][:2]
        exp = expected.get(c.name)
        undone = res[c.name]['status'] in ('failed', 'unknown') and not all('time budget' in x for x in res[c.name]['failed'])
        slow = res[c.name]['why'] == 'time limit' or 'time budget' in (res[c.name]['why'] or '') or (res[c.name]['failed'] and all('time budget' in x for x in res[c.name]['failed']))
        if exp == 'proved' and undone or exp in ('proved', 'bounded') and res[c.name]['label'] == 'replayed only' and not slow or c.tu not in sos and any(s == 'cex' for s in st):
            # an obligation that is discharged on the unchanged tree is not any more (or the code left the verifier's reach and its bounded instances are not accepted either), and no failing input was found
            viol.append((c, {'clause': (names + res[c.name]['failed'] + [res[c.name]['why'] or 'obligation'])[0], 'noinput': True, 'inputs': fixed[0] if fixed else {}}))
    # ---- report
    rc = 0
    known = known_findings(a.prop)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    nviol = 0
    for c, bad in viol:
        kf = next((k for k in known if k['contract'] == c.name and k.get('clause', '') in bad['clause']), None)
        if kf: continue
        nviol += 1
        path = os.path.join(VERIF, 'evidence', 'replay_%s_%s.json' % (a.prop, re.sub(r'[^A-Za-z0-9_.-]', '_', c.name)))
        json.dump({'property': a.prop, 'contract': c.name, 'failed_clause': bad['clause'], 'failed_obligations': res[c.name].get('failed'), 'inputs': bad['inputs'],
                   'call': bad.get('case'), 'result_of_compiled_code': bad.get('result'), 'seed': seed,
                   'rerun': 'VERIF_SEED=%d bash check %s --only "%s"' % (seed, a.prop, c.name), 'verifier_status': res[c.name]['status'], 'verifier_message': res[c.name].get('why')},
                  open(path, 'w'), indent=1, default=str)
        print('contract %s: clause "%s" fails; inputs %s' % (c.name, bad['clause'], json.dumps(bad['inputs'], default=str)[:400]))
        print('VIOLATION property=%s replay=%s%s' % (a.prop, path, ' no-failing-input-found' if bad.get('noinput') else ''))
        rc = 1
    for k in known:
        if k['contract'] in byname and res[k['contract']]['status'] != 'proved': print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    proved = [n for n in byname if res[n]['status'] == 'proved']
    und = [n for n in byname if res[n]['status'] != 'proved' and n not in {c.name for c, _ in viol}]
    broken = [n for n in byname if res[n]['status'] == 'broken']
    for n in sorted(byname):
        r = res[n]
        if a.v or r['status'] != 'proved':
            print('  %-44s %-8s obl %d/%d %ss %s' % (n, r['status'] + ('/' + r['label'] if r.get('label') else ''), r['discharged'], r['obligations'], r.get('t', '?'), (r['why'] or '; '.join(r['failed'][:3]))[:1500 if a.v else 260]), r.get('bounded_why') or '')
    kn = {k['contract'] for k in known}
    claim = [n for n in byname if expected.get(n, 'proved') == 'proved' and n not in kn and n not in late]     # the others are reported apart and never counted as proved
    nobl = sum(res[n]['obligations'] for n in claim); ndis = sum(res[n]['discharged'] for n in claim)
    ex = sorted({x for r in res.values() for x in r['executed']})
    ex = [x for x in ex if x.startswith('Plato') or '::Plato' in x]
    tr = sorted({x for r in res.values() for x in r['trusted']})
    be = {}
    for r in res.values():
        for k, v in (r['backends'] or {}).items(): be[k] = be.get(k, 0) + v
    print('%s: %d contracts, %d proved, %d not proved (%s); obligations %d, discharged %d; %d replays of compiled code; %.0fs' % (
        a.prop, len(byname), len(proved), len(und), ', '.join('%s:%s' % (n, res[n].get('label', res[n]['status'])) for n in und)[:300], nobl, ndis, evals, time.time() - t0))
    for n in notes: print('NOTE', n)
    if not a.only:
        ev = {'property': a.prop, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': 'proof',
              'coverage': {'obligations': nobl, 'discharged': ndis, 'checker_cmd': 'bash check %s%s' % (a.prop, ' --tier thorough' if thorough else ''),
                           'trusted_base': ['clang 18 front end and mem2reg (C++ to LLVM IR)', '/verif/lib verification-condition generator, loop summariser and polynomial normaliser',
                                            'z3 %s, cvc5 1.1.2' % z3.get_version_string()] + ['assumed contract: ' + x for x in tr],
                           'contracts': {n: {'status': res[n]['status'], 'label': res[n].get('label'), 'obligations': res[n]['obligations'], 'discharged': res[n]['discharged'], 'why': res[n]['why'][:300],
                                             'undischarged': res[n]['failed'], 'bounded': res[n].get('bounded'), 'solver_s': res[n].get('solver_s')} for n in sorted(byname)},
                           'contracts_proved': len(proved), 'contracts_bounded': sorted(n for n in und if res[n].get('label') == 'bounded'),
                           'contracts_replayed_only': sorted(n for n in und if res[n].get('label') != 'bounded'),
                           'functions_under_contract': ex, 'backends': be, 'solver_s': round(sum(r.get('solver_s', 0) for r in res.values()), 1),
                           'native_replays': evals, 'native_replay_samples': samples[:3], 'not_compiled': notes},
              'assumptions': ['doubles are mathematical reals, machine integers are mathematical integers (no rounding, overflow or NaN in the proved arithmetic)',
                              'ScalarType = double instantiations; the Sacado AD instantiations of the same templates are not separately proved',
                              'Kokkos Serial execution space: parallel_for/parallel_reduce bodies run once per index, in any order the loop summariser accepts as independent',
                              'output streams have no effect on results'] ,
              'wall_s': round(time.time() - t0, 1), 'violations': nviol}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1, default=str)
    if a.record and not a.only: record(a.prop, {n: res[n] for n in byname})
    if broken: print('ERROR: vacuous contract'); return 2
    return rc

if __name__ == '__main__': main()
