"""Runtime-monitoring core: runs a workload of cases against the real meshmagick code of the repository, lets the
monitors (oracles) of a check judge what they observe, and turns the observations into a three-valued verdict.

exit 0  every oracle evaluation held (known findings may be reported)
exit 1  at least one violation that known_findings.txt does not list  (VIOLATION line)
exit 2  inconclusive: harness error, watchdog, or an oracle that must be reached was never evaluated
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')

CASE_WATCHDOG = 40           # seconds of wall clock for one case, then the case is replayed under a step counter
STEP_LIMIT = 3000000         # executions of one source line of the code under test
MAX_FAIL_PER_CASE = 20


class Watchdog(BaseException):
    pass


class NonTermination(BaseException):
    pass


def repo_import(name):
    return importlib.import_module(name)


def _jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): _jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [_jsonable(v) for v in list(o)[:200]]
    if isinstance(o, np.ndarray):
        if o.size > 200:
            return {'shape': list(o.shape), 'head': _jsonable(o.ravel()[:20].tolist())}
        return _jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        return float(o) if o == o and abs(o) != float('inf') else repr(float(o))
    if isinstance(o, (np.bool_,)):
        return bool(o)
    if isinstance(o, (str, int, bool)) or o is None:
        return o
    return repr(o)[:400]


class Ctx(object):
    """What one case sees: a deterministic random generator, and the recorder of oracle evaluations."""

    def __init__(self, prop, seed, kind, idx, params, tier):
        import numpy as np
        self.prop, self.seed, self.kind, self.idx, self.params, self.tier = prop, seed, kind, idx, params, tier
        self.rng = np.random.default_rng([seed, zlib.crc32(prop.encode()), zlib.crc32(kind.encode()), idx])
        self.evals = collections.Counter()      # oracle -> evaluations
        self.seen = collections.Counter()       # observed events / states
        self.fails = []
        self.digests = set()
        self.nontrivial = False
        self.sample = None
        self.state = {}

    # --- oracles -----------------------------------------------------------------------------------------------
    def check(self, oracle, ok, msg='', mech=None, **data):
        self.evals[oracle] += 1
        ok = bool(ok)
        if not ok and len(self.fails) < MAX_FAIL_PER_CASE:
            self.fails.append({'oracle': oracle, 'mech': mech, 'msg': str(msg)[:600], 'data': _jsonable(data)})
        return ok

    def close(self, oracle, got, want, atol, msg='', mech=None, **data):
        """|got - want| <= atol, elementwise, same shape; NaN only where expected."""
        import numpy as np
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            return self.check(oracle, False, '%s: shape %s, expected %s' % (msg, g.shape, w.shape), mech,
                              got=got, want=want, **data)
        if g.size == 0:
            return self.check(oracle, True)
        with np.errstate(invalid='ignore'):
            d = np.abs(g - w)
        bad = ~(d <= atol)
        bad &= ~(np.isnan(g) & np.isnan(w))
        if bad.any():
            k = int(np.argmax(np.where(np.isnan(d), np.inf, d).ravel()))
            return self.check(oracle, False, '%s: %d of %d values differ, worst got %r want %r (|d|=%g, tol %g)' % (
                msg, int(bad.sum()), g.size, g.ravel()[k], w.ravel()[k], d.ravel()[k],
                float(np.max(atol))), mech, got=got, want=want, **data)
        return self.check(oracle, True)

    def equal(self, oracle, got, want, msg='', mech=None, **data):
        import numpy as np
        try:
            ok = bool(np.array_equal(np.asarray(got), np.asarray(want)))
        except Exception:
            ok = got == want
        return self.check(oracle, ok, '%s: got %.200r, expected %.200r' % (msg, got, want), mech, **data)

    def distinct(self, *things):
        """Registers the case as non-trivial with this identity."""
        import numpy as np
        h = hashlib.blake2b(digest_size=8)
        for t in things:
            if isinstance(t, np.ndarray):
                h.update(np.ascontiguousarray(t).tobytes())
            else:
                h.update(repr(t).encode())
        self.digests.add(h.hexdigest())

    def saw(self, *names):
        for n in names:
            self.seen[n] += 1


def _fmt_tb(exc):
    return ''.join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-3000:]


def in_repo(exc):
    """Did the exception come out of the code under test (or something it called)?"""
    tb = exc.__traceback__
    pkg = os.path.join(os.path.realpath(REPO), 'meshmagick')
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def _alarm(signum, frame):
    raise Watchdog()


class StepCounter(object):
    """Counts executions of every line of the package: the deterministic notion of "does not terminate"."""

    def __init__(self, limit=STEP_LIMIT, only=''):
        self.limit = limit
        self.only = only               # counts the lines of this file only (the others then run at full speed)
        self.n = collections.Counter()
        self.pkg = os.path.join(os.path.realpath(REPO), 'meshmagick')

    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith(self.only) or not os.path.realpath(frame.f_code.co_filename).startswith(self.pkg):
            return None
        return self._line

    def _line(self, frame, event, arg):
        if event == 'line':
            k = (frame.f_code.co_filename, frame.f_lineno)
            self.n[k] += 1
            if self.n[k] > self.limit:
                raise NonTermination('line %s:%d executed more than %d times' % (k[0], k[1], self.limit))
        return self._line

    def __enter__(self):
        sys.settrace(self._trace)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def run_case(mod, ctx, scratch):
    """Runs one case in an empty scratch working directory.  Returns a result dict."""
    status = 'ok'
    detail = ''
    for attempt in (0, 1):
        d = tempfile.mkdtemp(prefix='case_', dir=scratch)
        os.chdir(d)
        signal.signal(signal.SIGALRM, _alarm)
        dog = getattr(mod, 'WATCHDOG', CASE_WATCHDOG)
        signal.alarm(dog if attempt == 0 else 8 * dog)
        try:
            if attempt == 0:
                mod.run(ctx)
            else:
                ctx = Ctx(ctx.prop, ctx.seed, ctx.kind, ctx.idx, ctx.params, ctx.tier)
                with StepCounter(getattr(mod, 'STEPS', STEP_LIMIT), getattr(mod, 'STEPS_FILE', '')):
                    mod.run(ctx)
            signal.alarm(0)
            if attempt == 1:
                status = 'ok'
            break
        except Watchdog as exc:
            signal.alarm(0)
            detail = _fmt_tb(exc)
            status = 'watchdog'
        except NonTermination as exc:
            signal.alarm(0)
            ctx.check('terminates', False, str(exc))
            status = 'ok'
            break
        except Exception as exc:
            signal.alarm(0)
            if in_repo(exc):
                ctx.check('no-unexpected-exception', False, '%s: %s' % (type(exc).__name__, exc),
                          traceback=_fmt_tb(exc))
                status = 'ok'
            elif not isinstance(exc, (OSError, MemoryError, RecursionError, SyntaxError)):
                # the result of the code under test does not have the parts, types or shapes the oracles look at
                ctx.check('result-usable', False, 'the result cannot be examined: %s: %s' % (type(exc).__name__, exc),
                          traceback=_fmt_tb(exc))
                status = 'ok'
            else:
                status = 'harness-error'
                detail = _fmt_tb(exc)
            break
        except SystemExit as exc:
            signal.alarm(0)
            ctx.check('no-unexpected-exit', False, 'SystemExit(%r)' % (exc.code,), traceback=_fmt_tb(exc))
            break
        finally:
            signal.alarm(0)
            os.chdir(scratch)
            shutil.rmtree(d, ignore_errors=True)
    return {'kind': ctx.kind, 'idx': ctx.idx, 'params': _jsonable(ctx.params), 'status': status, 'detail': detail,
            'evals': dict(ctx.evals), 'seen': dict(ctx.seen), 'fails': ctx.fails, 'digests': sorted(ctx.digests),
            'sample': _jsonable(ctx.sample)}


def worker(mod, todo, seed, tier, scratch, out, progress):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    warnings.simplefilter('ignore')
    hung = 0
    with open(out, 'w') as f:
        for kind, idx, params in todo:
            with open(progress, 'w') as p:
                p.write('%s %d' % (kind, idx))
            if hung >= 2:                # enough is known: the verdict is a violation, do not wait for the others
                res = {'kind': kind, 'idx': idx, 'params': _jsonable(params), 'status': 'ok', 'detail': '', 'evals': {},
                       'seen': {'skipped after non-terminating cases': 1}, 'digests': [], 'sample': None, 'fails': []}
            else:
                res = run_case(mod, Ctx(mod.PROP, seed, kind, idx, params, tier), scratch)
                hung += any(x['oracle'] == 'terminates' for x in res['fails'])
            f.write(json.dumps(res) + '\n')
            f.flush()
    with open(progress, 'w') as p:
        p.write('done')


def spawn(mod, todo, seed, tier, scratch, tag):
    out, prog = os.path.join(scratch, 'out_%s' % tag), os.path.join(scratch, 'prog_%s' % tag)
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            d = os.path.join(scratch, 'w_%s' % tag)
            os.mkdir(d)
            worker(mod, todo, seed, tier, d, out, prog)
            code = 0
        except BaseException:
            try:
                with open(out + '.err', 'w') as f:
                    f.write(traceback.format_exc())
            except Exception:
                pass
        finally:
            os._exit(code)
    return pid, out, prog


def load_findings(prop):
    res = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: '):
                    head, _, rest = line[len('finding: '):].partition(' mech=')
                    mech, _, what = rest.partition(' ')
                    if head.strip() == 'property=%s' % prop:
                        res[mech] = what
    return res


def setup_repo():
    sys.dont_write_bytecode = True
    pyc = tempfile.mkdtemp(prefix='mmv_pyc_')
    shutil.rmtree(pyc)
    sys.pycache_prefix = pyc           # never read stale byte code: sources are what is judged
    sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import meshmagick
    if not os.path.realpath(meshmagick.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print('INCONCLUSIVE: meshmagick imported from %s' % meshmagick.__file__)
        sys.exit(2)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '0')) or (os.cpu_count() or 4))
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.time()
    setup_repo()
    import numpy  # noqa
    mod = importlib.import_module('mon.checks.%s' % a.prop.lower())
    assert mod.PROP == a.prop
    if hasattr(mod, 'preload'):
        mod.preload()
    if a.replay:
        return replay(mod, a)

    todo = []
    for kind, idx, params in mod.cases(a.tier, a.seed):
        if a.only and not kind.startswith(a.only):
            continue
        todo.append((kind, idx, params))
    scratch = tempfile.mkdtemp(prefix='mmv_%s_' % a.prop)
    inconclusive = []
    results = []
    try:
        jobs = max(1, min(a.jobs, len(todo)))
        # heavy cases are declared first by the checks; deal them round robin
        procs = {}
        for j in range(jobs):
            pid, out, prog = spawn(mod, todo[j::jobs], a.seed, a.tier, scratch, 'a%d' % j)
            procs[pid] = (j, out, prog, todo[j::jobs])
        gen = 0
        while procs:
            pid, st = os.wait()
            if pid not in procs:
                continue
            j, out, prog, mine = procs.pop(pid)
            got = []
            if os.path.exists(out):
                with open(out) as f:
                    for line in f:
                        try:
                            got.append(json.loads(line))
                        except ValueError:
                            pass
            results += got
            if os.path.exists(out + '.err'):
                inconclusive.append('worker error: ' + open(out + '.err').read()[-1500:])
                continue
            if st != 0 and len(got) < len(mine):
                # the interpreter itself died in the case after the last result: run that one again alone, twice
                bad = mine[len(got)]
                deaths = 0
                for k in range(2):
                    gen += 1
                    p2, o2, _ = spawn(mod, [bad], a.seed, a.tier, scratch, 'r%d' % gen)
                    _, s2 = os.waitpid(p2, 0)
                    if os.WIFSIGNALED(s2) and os.WTERMSIG(s2) != signal.SIGKILL:
                        deaths += 1
                if deaths == 2:
                    results.append({'kind': bad[0], 'idx': bad[1], 'params': _jsonable(bad[2]), 'status': 'ok',
                                    'detail': '', 'evals': {'no-crash': 1}, 'seen': {}, 'digests': [], 'sample': None,
                                    'fails': [{'oracle': 'no-crash', 'mech': None, 'data': {},
                                               'msg': 'the interpreter is killed by a signal'}]})
                else:
                    inconclusive.append('worker ended (status %d) in case %s[%d]' % (st, bad[0], bad[1]))
                rest = mine[len(got) + 1:]
                if rest:
                    gen += 1
                    pid, out, prog = spawn(mod, rest, a.seed, a.tier, scratch, 'a%d_%d' % (j, gen))
                    procs[pid] = (j, out, prog, rest)
        os.chdir(VERIF)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return verdict(mod, a, results, inconclusive, len(todo), t0)


def verdict(mod, a, results, inconclusive, ncases, t0):
    prop = a.prop
    findings = load_findings(prop)
    evals, seen = collections.Counter(), collections.Counter()
    digests = set()
    kinds = collections.Counter()
    samples = {}
    viol, known = [], collections.OrderedDict()
    for r in sorted(results, key=lambda r: (r['kind'], r['idx'])):
        kinds[r['kind']] += 1
        evals.update(r['evals'])
        seen.update(r['seen'])
        digests.update(r['digests'])
        if r['sample'] is not None and r['kind'] not in samples:
            samples[r['kind']] = {'kind': r['kind'], 'idx': r['idx'], 'params': r['params'], 'case': r['sample']}
        if r['status'] != 'ok':
            inconclusive.append('%s in case %s[%d]: %s' % (r['status'], r['kind'], r['idx'], r['detail'][-1500:]))
        for f in r['fails']:
            if f['mech'] and f['mech'] in findings:
                known.setdefault(f['mech'], []).append((r, f))
            else:
                viol.append((r, f))
    if len(results) < ncases:
        inconclusive.append('%d of %d cases have no result' % (ncases - len(results), ncases))
    if not a.only:
        for o in getattr(mod, 'REQUIRED', ()):
            if evals[o] == 0 and not viol:
                inconclusive.append('oracle %r was never evaluated' % o)
    for mech, lst in known.items():
        print('KNOWN-FINDING: property=%s %s [mech=%s, %d observations]' % (prop, findings[mech], mech, len(lst)))
    rep = None
    if viol:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        rep = os.path.join(VERIF, 'replays', '%s_seed%d_%s.json' % (prop, a.seed, a.tier))
        with open(rep, 'w') as f:
            json.dump({'property': prop, 'seed': a.seed, 'tier': a.tier, 'violations': [
                {'kind': r['kind'], 'idx': r['idx'], 'params': r['params'], 'failure': fl} for r, fl in viol[:40]]},
                f, indent=1)
        per = collections.Counter((r['kind'], fl['oracle']) for r, fl in viol)
        for (k, o), n in per.most_common(12):
            ex = next((r, fl) for r, fl in viol if r['kind'] == k and fl['oracle'] == o)
            print('  violated oracle %s in workload %s: %d times, e.g. case %d %s: %s%s' % (
                o, k, n, ex[0]['idx'], json.dumps(ex[0]['params'])[:200], ex[1]['msg'],
                (' mech=%s' % ex[1]['mech']) if ex[1]['mech'] else ''))
            if a.v:
                print(json.dumps(ex[1]['data'], indent=1)[:3000])
    ev = {'property': prop, 'tier': a.tier, 'seed': a.seed, 'level': mod.LEVEL,
          'coverage': {'evaluations': sum(evals.values()), 'distinct_nontrivial': len(digests), 'rule': mod.RULE,
                       'samples': list(samples.values())[:8] or [{'none': True}],
                       'cases_run': len(results), 'cases_per_workload': dict(kinds),
                       'oracle_evaluations': dict(sorted(evals.items())), 'observed': dict(sorted(seen.items())),
                       'known_findings_observed': {m: len(v) for m, v in known.items()},
                       'inconclusive': inconclusive[:5]},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', ())), 'wall_s': round(time.time() - t0, 2),
          'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s tier=%s seed=%d: %d cases, %d oracle evaluations over %d oracles, %d distinct non-trivial cases, %.1f s' % (
        prop, a.tier, a.seed, len(results), sum(evals.values()), len(evals), len(digests), time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if inconclusive:
        print('INCONCLUSIVE: %s' % '\n  '.join(inconclusive[:6]))
        return 2
    return 0


def replay(mod, a):
    with open(a.replay) as f:
        rec = json.load(f)
    scratch = tempfile.mkdtemp(prefix='mmv_replay_')
    bad = 0
    try:
        done = set()
        for v in rec['violations']:
            key = (v['kind'], v['idx'])
            if key in done:
                continue
            done.add(key)
            match = [c for c in mod.cases(rec['tier'], rec['seed']) if (c[0], c[1]) == key]
            res = run_case(mod, Ctx(mod.PROP, rec['seed'], key[0], key[1], match[0][2], rec['tier']), scratch)
            for fl in res['fails']:
                bad += 1
                print(key, fl['oracle'], fl['mech'], fl['msg'])
                print(json.dumps(fl['data'], indent=1)[:2000])
            if res['status'] != 'ok':
                print(key, res['status'], res['detail'])
    finally:
        os.chdir(VERIF)
        shutil.rmtree(scratch, ignore_errors=True)
    if bad:
        print('VIOLATION property=%s replay=%s' % (mod.PROP, a.replay))
    return 1 if bad else 0
