"""check.py <property> : decide one property by symbolic execution of the repository's code.

The harness (harness/<property>.py, Python 2) is executed symbolically together with the repository's modules
(translated from the current source), path by path, until every path within the bounds has been explored; each
obligation on a path is an SMT query.  Every path's witness, and every counterexample, is replayed on the real code
under Jython; only a counterexample the real code reproduces is reported."""
import collections
import json
import multiprocessing as mp
import os
import queue
import random
import re
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')

import terms
from terms import X, PathAbort, Unsupported, DepthLimit
import rt
import strings
import models
import translate
import sapi
import jvm

WORKERS = int(os.environ.get('VERIF_WORKERS', '7'))


class Setup(object):
    """modules translated from the current source, plus the harness"""

    def __init__(self, prop, jv):
        self.prop = prop
        self.src = os.path.join(VERIF, 'harness', prop + '.py')
        self.jv = jv
        self.cache = {}
        self.roots = [os.path.join(VERIF, 'harness'), REPO]
        self.imp = translate.Importer(self.roots, self.parse, models.MODULES)
        models.bind(self.imp)
        self.names = {}
        self.tops = set(jv.cmd('modules', None, 60)[1])
        self.imp.ask = models.ASK[0] = self.ask
        self.imp.opaque = models.module

    def ask(self, name):
        """the names a library module has in Jython, None when it cannot be imported, () when it is too late to ask"""
        top = name.split('.')[0]
        if top == 'request_parser' or top not in self.tops:
            return None
        if name not in self.names and self.jv is not None:
            r = self.jv.cmd('module', name, 60)
            self.names[name] = r[1] if r[0] == 'ok' else ()
        return self.names.get(name, ())

    def parse(self, path):
        if path not in self.cache:
            if os.path.getsize(path) == 0:
                self.cache[path] = []
            else:
                st, r = self.jv.cmd('parse', path, 60)
                if st != 'ok':
                    raise SyntaxError('%s: %s' % (path, r))
                self.cache[path] = r
        return self.cache[path]

    def fresh(self):
        self.imp.fresh()
        models.reset()
        rt.TICK.n = 0
        return self.imp.load(self.prop)


def tohost(x):
    """a case description as plain Python data"""
    if isinstance(x, strings.BaseStr):
        return x._c
    if isinstance(x, dict):
        return {tohost(k): tohost(v) for k, v in dict.items(x)}
    if isinstance(x, (list, tuple)):
        return [tohost(y) for y in x]
    return x


def toguest(x):
    if isinstance(x, str):
        return strings.S(x)
    if isinstance(x, dict):
        d = rt.PDict()
        for k, v in x.items():
            d[toguest(k)] = toguest(v)
        return d
    if isinstance(x, list):
        return [toguest(y) for y in x]
    return x


def frames(tb):
    out = []
    while tb is not None:
        out.append((tb.tb_frame.f_code.co_filename, tb.tb_lineno, tb.tb_frame.f_code.co_name))
        tb = tb.tb_next
    return out


def run_path(setup, case, prefix, rng, opts):
    """one path: re-execute the decision prefix, then go on with the first alternative at every new branch"""
    X.begin(prefix)
    X.max_decisions = opts.get('max_decisions', 6000)
    rt.TICK.limit = opts.get('loop_limit', 20000)
    api = sapi.SApi()
    res = {'case': case, 'exc': None, 'why': None}
    status = 'ok'
    before = set(setup.imp.entered)
    setup.imp.entered.clear()
    try:
        try:
            mod = setup.fresh()
            mod.run(api, toguest(opts['cases'][case]))
        except (PathAbort, Unsupported, DepthLimit, sapi.Assumed):
            raise
        except (GeneratorExit, KeyboardInterrupt, SystemExit):
            raise
        except RecursionError:
            raise Unsupported('recursion depth')
        except Exception as e:
            if X.dead is not None:
                raise X.dead
            res['exc'] = sapi.excname(e)._c
            fr = frames(e.__traceback__)
            res['inrepo'] = any(f[0].startswith(REPO + '/') for f in fr)
            res['where'] = ' <- '.join('%s:%d %s' % (os.path.basename(f[0]), f[1], f[2]) for f in fr[::-1][:6]) + ' ' + repr(e)[:200]
        if X.dead is not None and not isinstance(X.dead, PathAbort):
            raise X.dead
    except PathAbort as e:
        status = 'abort:' + str(e)
    except sapi.Assumed:
        status = 'assumed'
    except Unsupported as e:
        status = 'unsupported'
        res['why'] = str(e)
        fr = frames(e.__traceback__)
        res['where'] = ' <- '.join('%s:%d %s' % (os.path.basename(f[0]), f[1], f[2]) for f in fr[::-1][:8])
    except DepthLimit as e:
        status = 'limit'
        res['why'] = str(e)
        fr = [f for f in frames(e.__traceback__) if f[0].startswith(REPO)]
        res['where'] = ' <- '.join('%s:%d %s' % (os.path.basename(f[0]), f[1], f[2]) for f in fr[::-1][:4])
    X.dead = None
    res['funcs'] = sorted(setup.imp.entered)
    setup.imp.entered |= before
    res['status'] = status
    res['stat'] = api.stat
    res['reached'] = list(api.reached)
    res['decisions'] = len(X.trace)
    res['cands'] = [(c.msg, c.values, c.how) for c in api.candidates]
    res['ncons'] = len(X.nonu)
    if status == 'ok' and not api.confirm():
        status = res['status'] = 'unsupported'
        res['why'] = 'engine: the solver does not confirm the equalities of the path'
    if status in ('ok', 'unsupported', 'limit'):
        # the path condition is satisfiable (no vacuous pass), decided by z3 over all inputs of the path
        X.deadline = None
        r, zm = X.check()
        m = None
        if r == 'sat':
            m = X.witness(rng)
        if m is None:
            if r == 'unsat':
                res['status'] = status = 'abort:infeasible'
            else:
                res['status'] = status = 'unsupported'
                res['why'] = 'path condition: solver unknown'
        else:
            res['values'] = api.export(m)
            if status == 'ok':
                try:
                    res['obs'] = [(l, sapi.canon(f, m)) for l, f in api.obs]
                except Exception:
                    res['obs'] = None
    pending = X.pending
    X.end()
    return res, pending


def worker(setup, opts, jobs, results, seed):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    rng = random.Random(seed)
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)

    def loop():
        while True:
            job = jobs.get()
            if job is None:
                return
            case, prefix = job
            stack = [prefix]
            out = []
            t0 = time.time()
            slice_ = opts['slice']
            while stack and time.time() - t0 < slice_ and time.time() < opts['deadline']:
                p = stack.pop()
                X.deadline = opts['deadline']
                try:
                    r, pend = run_path(setup, case, p, rng, opts)
                except BaseException as e:
                    X.end()
                    r = {'case': case, 'status': 'unsupported', 'why': 'engine: %r' % (e,), 'where': traceback.format_exc()[-1500:], 'stat': {}, 'cands': [],
                         'funcs': [], 'decisions': 0, 'reached': [], 'exc': None}
                    pend = X.pending
                out.append(r)
                stack.extend(pend)
            st = X.stats
            results.put((case, out, stack, (st.queries, st.solver_s, st.sat, st.unsat, st.unknown, st.decisions, st.domain_decisions)))
            X.stats = terms.Stats()
    t = threading.Thread(target=loop)
    t.start()
    t.join()
    results.close()
    results.join_thread()
    os._exit(0)


def explore(setup, opts, verbose=False):
    """all paths of all cases; returns the path records and the solver statistics"""
    ctx = mp.get_context('fork')
    jobs, results = ctx.Queue(), ctx.Queue()
    ws = [ctx.Process(target=worker, args=(setup, opts, jobs, results, opts['seed'] * 1000 + i), daemon=True) for i in range(WORKERS)]
    for w in ws:
        w.start()
    backlog = collections.deque((c, []) for c in range(len(opts['cases'])))
    inflight = 0
    recs = []
    tot = [0, 0.0, 0, 0, 0, 0, 0]
    dropped = 0
    last = time.time()
    while backlog or inflight:
        while backlog and inflight < WORKERS * 2:
            jobs.put(backlog.popleft())
            inflight += 1
        try:
            case, out, left, st = results.get(timeout=5)
        except queue.Empty:
            if not any(w.is_alive() for w in ws) or time.time() > opts['deadline'] + 60:
                dropped += len(backlog) + inflight
                break
            dead = [w for w in ws if not w.is_alive()]
            if dead and len(dead) == len(ws):
                break
            if dead and time.time() - last > 60:
                dropped += 1
                break
            continue
        last = time.time()
        inflight -= 1
        recs.extend(out)
        for i in range(7):
            tot[i] += st[i]
        if time.time() > opts['deadline']:
            dropped += len(left) + len(backlog)
            backlog.clear()
        elif left:
            # spread the unexplored prefixes
            for p in left:
                backlog.append((case, p))
        if verbose and time.time() - verbose[0] > 5:
            verbose[0] = time.time()
            print('  .. %d paths, backlog %d' % (len(recs), len(backlog)), file=sys.stderr)
        if opts.get('stop_on') and sum(1 for r in recs if r['cands'] or (r['exc'] and r['inrepo'])) >= opts['stop_on']:
            dropped += len(backlog)
            break
    for _ in ws:
        jobs.put(None)
    for w in ws:
        w.join(0.5)
        if w.is_alive():
            w.kill()
    return recs, tot, dropped


def private_gone(tb):
    tb = (tb or '').strip()
    return REPO + '/' not in tb and re.search(r"AttributeError: .*attribute '_[a-z]", tb.splitlines()[-1] if tb else '') is not None


def native_fail(nat):
    """messages the real run violates: failed requirements, or an exception that left the library code"""
    st, exc, fails, obs, reached, tb = nat
    out = list(fails)
    if st == 'ran' and exc is not None:
        # raised by the library, or by what the harness asked of it (a method that is gone); a private attribute
        # that the harness looks at and does not find is no violation
        if not private_gone(tb):
            out.append('unexpected exception ' + exc)
    return out


class Native(object):
    def __init__(self, prop, src, work):
        self.prop, self.src, self.work = prop, src, work
        self.jv = None
        self.n = 0

    def start(self):
        if self.jv is None:
            self.jv = jvm.Jvm([os.path.join(VERIF, 'harness'), REPO], os.path.join(self.work, 'jython.log'))
            r = self.jv.cmd('load', (self.prop, self.src), 120)
            if r[0] != 'ok':
                raise RuntimeError('harness does not load on the real code:\n' + r[1])
        return self.jv

    def run(self, items, timeout):
        """[(case, values)] -> results; raises jvm.Timeout"""
        self.n += 1
        self.start()
        try:
            r = self.jv.cmd('run', (self.prop, self.src, items, os.path.join(self.work, 'n%d_%d' % (id(self), self.n))), timeout)
        except (jvm.Timeout, EOFError):
            self.jv.kill()
            self.jv = None
            raise
        if r[0] != 'ok':
            raise RuntimeError(r[1])
        return r[1]

    def close(self):
        if self.jv is not None:
            self.jv.kill()
            self.jv = None


def confirm(prop, src, work, case, values, timeout=25):
    """replay one input on a fresh JVM: list of violated messages"""
    n = Native(prop, src, work)
    try:
        n.start()
        try:
            return native_fail(n.run([(case, values)], timeout)[0]), None
        except jvm.Timeout:
            return ['does not terminate'], None
    finally:
        n.close()


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def is_known(known, prop, msg, case, values):
    for k in known:
        if k['property'] == prop and k['message'] == msg:
            if k.get('case') is not None and any(case.get(a) != b for a, b in k['case'].items()):
                continue
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    sys.setrecursionlimit(20000)
    work = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        sys.exit(check(prop, tier, seed, t0, work, '-v' in sys.argv))
    finally:
        shutil.rmtree(work, True)


def check(prop, tier, seed, t0, work, verbose):
    src = os.path.join(VERIF, 'harness', prop + '.py')
    pj = jvm.Jvm([os.path.join(VERIF, 'harness'), REPO], os.path.join(work, 'jython.log'))
    setup = Setup(prop, pj)
    X.begin([])
    try:
        mod = setup.fresh()
    except (Exception, Unsupported) as e:
        # the modules use, while they are imported, what the engine cannot execute: no verdict
        pj.kill()
        why = ''.join(traceback.format_exception_only(type(e), e)).strip()[-400:]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {
            'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'exhaustive': False, 'inconclusive': {'import': why}},
            'assumptions': ['nothing was explored'], 'wall_s': round(time.time() - t0, 1), 'violations': 0, 'complete': False},
            open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        print('%s %s: INCOMPLETE, the code under test is not executable by the engine: %s' % (prop, tier, why))
        return 0
    cases = tohost(mod.cases(strings.S(tier)))
    hopts = tohost(getattr(mod, 'OPTS', {}))
    bounds = tohost(getattr(mod, 'BOUNDS', strings.S('')))
    X.end()
    setup.imp.entered.clear()
    # modules the harness only reaches later: importing them here keeps workers from needing the JVM
    for root, _, fs in os.walk(os.path.join(REPO, 'request_parser')):
        if '/tests' in root:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                setup.parse(os.path.join(root, f))
    pj.kill()
    setup.jv = None
    t_setup = time.time() - t0
    # quick must end well inside 900 s
    budget = float(os.environ.get('VERIF_BUDGET', hopts.get('budget_' + tier, 240 if tier == 'quick' else 2400)))
    opts = {'cases': cases, 'seed': seed, 'slice': 1.0 if tier == 'quick' else 3.0, 'deadline': time.time() + budget, 'stop_on': 60}
    opts.update({k: v for k, v in hopts.items() if not k.startswith('budget')})
    # native replays run alongside
    nat = Native(prop, src, work)
    boot = threading.Thread(target=lambda: _quiet(nat.start))
    boot.start()
    recs, tot, dropped = explore(setup, opts, [time.time()] if verbose else None)
    t_exp = time.time() - t0 - t_setup
    boot.join()
    known = load_known()

    # candidates first
    cands = []
    seen = set()
    for r in recs:
        for msg, values, how in r['cands']:
            cands.append((msg, r['case'], values, how))
        if r.get('exc') and r['status'] == 'ok' and 'values' in r:
            cands.append(('unexpected exception ' + r['exc'], r['case'], r['values'], r.get('where')))
        if r['status'] == 'limit' and r['why'] == 'loop' and 'values' in r:
            cands.append(('does not terminate', r['case'], r['values'], r.get('where')))
    violations = []
    refuted = []
    knownhits = {}
    permsg = collections.Counter()
    for msg, c, values, how in cands:
        if permsg[msg] >= 3 or sum(permsg.values()) > 24 or (violations and permsg[msg] >= 1 and not how == 'x' and any(v[0] == msg for v in violations)):
            continue
        if violations and time.time() - t0 > 600:
            break
        permsg[msg] += 1
        try:
            try:
                fails = native_fail(nat.run([(cases[c], values)], 20)[0])
            except jvm.Timeout:
                fails = ['does not terminate']
            if fails:
                fails, _ = confirm(prop, src, work, cases[c], values)
        except (RuntimeError, EOFError) as e:
            refuted.append((msg, c, values, 'native run failed: %s' % str(e)[-300:]))
            continue
        new = [f for f in fails if is_known(known, prop, f, cases[c], values) is None]
        for f in fails:
            k = is_known(known, prop, f, cases[c], values)
            if k is not None:
                knownhits.setdefault(f, k)
        if new:
            violations.append((new[0], c, values, how))
        elif not fails:
            refuted.append((msg, c, values, how))

    # every explored path is replayed on the real code
    todo = [r for r in recs if 'values' in r and not (r['status'] == 'limit' and r['why'] == 'loop')]
    cap = int(hopts.get('replays_' + tier, 2500 if tier == 'quick' else 12000))
    rng = random.Random(seed)
    total_paths = len(todo)
    if len(todo) > cap:
        bad = [r for r in todo if r['status'] != 'ok']
        good = [r for r in todo if r['status'] == 'ok']
        rng.shuffle(good)
        rng.shuffle(bad)
        todo = (bad[:cap // 2] + good)[:cap]
    validated = mismatches = 0
    mism = []
    hung = 0
    native_err = None
    tnat = time.time()
    nat_limit = tnat + max(60, float(os.environ.get('VERIF_REPLAY_BUDGET', 200 if tier == 'quick' else 900)))
    B = 40
    i = 0
    while i < len(todo) and time.time() < nat_limit:
        batch = todo[i:i + B]
        i += B
        try:
            outs = nat.run([(cases[r['case']], r['values']) for r in batch], 60)
        except jvm.Timeout:
            outs = []
            for r in batch:
                try:
                    outs.append(nat.run([(cases[r['case']], r['values'])], 25)[0])
                except jvm.Timeout:
                    outs.append(None)
                    hung += 1
                    violations.append(('does not terminate', r['case'], r['values'], 'witness replay'))
                if hung > 2:
                    break
        except (RuntimeError, EOFError) as e:
            native_err = str(e)
            break
        for r, o in zip(batch, outs):
            if o is None:
                continue
            st, exc, fails, obs, reached, tb = o
            nf = native_fail(o)
            new = [f for f in nf if is_known(known, prop, f, cases[r['case']], r['values']) is None]
            for f in nf:
                k = is_known(known, prop, f, cases[r['case']], r['values'])
                if k is not None:
                    knownhits.setdefault(f, k)
            if new and not any(v[0] == new[0] for v in violations):
                # the real code breaks the property on a solver-chosen input: confirm on a fresh JVM
                again, _ = confirm(prop, src, work, cases[r['case']], r['values'])
                if any(f in again for f in new):
                    violations.append(([f for f in new if f in again][0], r['case'], r['values'], 'witness of path condition; ' + str(r.get('why') or '')))
            if r['status'] == 'ok':
                exp_reached = r['reached']
                if r['cands']:
                    continue
                if st == 'ran' and exc == r['exc'] and not (fails) and reached == exp_reached and obs == [tuple(x) for x in (r.get('obs') or [])]:
                    validated += 1
                else:
                    mismatches += 1
                    if len(mism) < 10:
                        mism.append({'case': cases[r['case']], 'values': r['values'], 'native': [st, exc, fails, reached], 'native_obs': obs, 'symbolic': [r['exc'], exp_reached],
                                     'symbolic_obs': r.get('obs'), 'tb': (tb or '')[-900:], 'where': r.get('where')})
        if hung > 2:
            break
    nat.close()

    # ---- verdict
    st = collections.Counter(r['status'].split(':')[0] for r in recs)
    unsup = collections.Counter((r.get('why'), r.get('where')) for r in recs if r['status'] in ('unsupported', 'limit'))
    ob = collections.Counter()
    for r in recs:
        ob.update(r['stat'])
    funcs = sorted({f for r in recs for f in r['funcs'] if f.startswith('request_parser')})
    reached = collections.Counter(l for r in recs for l in r['reached'])
    want = set(tohost(getattr(mod, 'REACH', [])))
    vacuous = sorted(want - set(reached))
    complete = (dropped == 0 and not unsup and not mismatches and ob['unknown'] == 0 and not vacuous and native_err is None)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    reported = []
    names = set()
    for msg, c, values, how in violations:
        if msg in names:
            continue
        names.add(msg)
        d = os.path.join(VERIF, 'work', 'replays')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (prop, len(reported)))
        json.dump({'property': prop, 'message': msg, 'case': cases[c], 'values': values, 'how': str(how),
                   'replay': 'python3-vt /verif/engine/replay.py ' + p}, open(p, 'w'), indent=1)
        reported.append((msg, p))
    samples = []
    for r in recs:
        if r['status'] == 'ok' and 'values' in r and len(samples) < 4 and (not samples or r['case'] != samples[-1]['case_index']):
            samples.append({'case_index': r['case'], 'case': cases[r['case']], 'path_witness': r['values'], 'decisions': r['decisions'], 'reached': r['reached'][:8]})
    npaths = st['ok'] + st['assumed'] + st['unsupported'] + st['limit'] + st['abort']
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': npaths, 'transitions': tot[5] + sum(r['decisions'] for r in recs if r['status'] == 'ok'),
            'traces_validated_against_impl': validated, 'samples': samples or [{'case': c} for c in cases[:1]],
            'exhaustive': bool(complete),
            'method': 'path-by-path symbolic execution of the translated Python 2 source; states = explored path prefixes ended, transitions = branch decisions; feasibility and obligations decided by z3 %s' % '.'.join(map(str, terms.z3.get_version()[:3])),
            'bounds': bounds, 'cases': len(cases), 'paths': dict(st), 'paths_with_witness': total_paths, 'paths_replayed': i if i < len(todo) else len(todo),
            'obligations': {'total': ob['obligations'], 'discharged_by_solver': ob['discharged'], 'implied_by_the_path': ob['structural'],
                            'character_equalities_of_these': ob['equalities'], 'solver_queries_confirming_them': ob['eqqueries'], 'unknown': ob['unknown']},
            'solver': {'queries': tot[0], 'seconds': round(tot[1], 2), 'sat': tot[2], 'unsat': tot[3], 'unknown': tot[4], 'branch_decisions': tot[5], 'decided_by_domains': tot[6]},
            'functions_encoded': funcs, 'reached': dict(reached), 'not_reached': vacuous,
            'inconclusive': {'dropped_prefixes': dropped, 'unsupported_paths': [[str(k), n] for k, n in unsup.most_common(8)], 'native_mismatches': mismatches,
                             'refuted_candidates': [[m, cases[c], v, str(h)[:300]] for m, c, v, h in refuted[:5]], 'native_error': native_err},
        },
        'assumptions': ['the translation and the library models in engine/ describe Jython 2.7: every path witness replayed above is executed on the real code and compared',
                        'inputs outside the stated bounds are not covered'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(reported), 'complete': bool(complete), 'mismatch_samples': mism,
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d cases, %d paths %s, %d obligations (%d by solver, %d implied by the path, %d equalities confirmed), %d queries %.1fs solver, %d/%d replays agree, %s, setup %.1fs explore %.1fs total %.1fs' % (
        prop, tier, len(cases), npaths, dict(st), ob['obligations'], ob['discharged'], ob['structural'], ob['equalities'], tot[0], tot[1], validated, len(todo),
        'complete' if complete else 'INCOMPLETE', t_setup, t_exp, time.time() - t0))
    if unsup:
        for k, n in unsup.most_common(8):
            print('  inconclusive x%d: %s' % (n, k))
    if dropped:
        print('  inconclusive: %d prefixes not explored within the budget' % dropped)
    if vacuous:
        print('  inconclusive: never reached %s' % vacuous)
    if refuted:
        print('  %d counterexamples not reproduced by the real code (engine imprecision): %s' % (len(refuted), [x[0] for x in refuted[:3]]))
        if verbose:
            for x in refuted[:3]:
                print('     ', x[0], cases[x[1]], x[2], str(x[3])[:400])
    if mismatches:
        print('  %d replays differ from the symbolic run' % mismatches)
        if verbose:
            for m in mism[:3]:
                print(json.dumps(m, default=str)[:3000])
    if native_err:
        print('  native replay stopped: ' + native_err[-600:])
    for f, k in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k.get('what', f)))
    for msg, p in reported:
        print('  ' + msg)
        print('VIOLATION property=%s replay=%s' % (prop, p))
    return 1 if reported else 0


def _quiet(f):
    try:
        f()
    except BaseException:
        pass


if __name__ == '__main__':
    main()
