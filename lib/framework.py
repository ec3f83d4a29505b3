"""Harness shared by all checks.

A check module (checks/<id>.py) registers sub-checks with ``@sub(strategy, quick=N,
thorough=M)``.  Each is a function of one generated case (plain data, so that it can be
pickled, shrunk by Hypothesis and replayed without it).  The function raises
``Violation`` (through ``check``/``close``/``same``/``fail``) when the property does not
hold for that case.  An exception escaping from the code under test on a valid case is a
violation too; an error of the harness itself is an error exit, never a violation.
"""
import contextlib
import faulthandler
import hashlib
import importlib
import io
import json
import os
import pathlib
import pickle
import pprint
import sys
import time
import traceback
import warnings

import numpy as np
import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo')).resolve()
SCRATCH = (pathlib.Path(os.environ['VERIF_SCRATCH_DIR'])
           if os.environ.get('VERIF_SCRATCH_DIR') else None)
HANG = float(os.environ.get('VERIF_HANG', 200))     # s, one case (normally well below 1 s)
SHRINK = 60.                                        # s
PID = ['?']
_watch = {'armed': 0.}
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
BUDGET = float(os.environ.get('VERIF_BUDGET', 240 if TIER == 'quick' else 780))

SUBS = []
FINDINGS = {}


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class HarnessError(Exception):
    pass


def fail(msg, finding=None):
    raise Violation(msg, finding)


def check(cond, msg, finding=None):
    if not bool(cond):
        raise Violation(msg() if callable(msg) else msg, finding)


def _short(x):
    with np.printoptions(threshold=60, precision=10, suppress=False):
        s = repr(x)
    return s if len(s) < 1500 else s[:1500] + '...'


def same(got, want, msg, finding=None):
    """Equal shape and equal values (NaN equal to NaN)."""
    g, w = np.ma.getdata(got) if np.ma.isMaskedArray(got) else np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f'{msg}: shape {g.shape}, expected {w.shape}', finding)
    try:
        ok = np.array_equal(g, w, equal_nan=True)
    except TypeError:
        ok = np.array_equal(g, w)
    if not ok:
        raise Violation(f'{msg}: got {_short(g)}\nexpected {_short(w)}', finding)


def close(got, want, tol, msg, finding=None):
    """Equal shape and |got - want| <= tol (NaN only equal to NaN)."""
    g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if g.shape != w.shape:
        raise Violation(f'{msg}: shape {g.shape}, expected {w.shape}', finding)
    if g.size == 0:
        return
    with np.errstate(all='ignore'):
        bad = ~((np.abs(g - w) <= tol) | (np.isnan(g) & np.isnan(w)) | (g == w))
    if bad.any():
        with np.errstate(all='ignore'):
            dev = np.nanmax(np.where(bad, np.abs(g - w), 0))
        raise Violation(f'{msg}: max deviation {dev:.3g} (tol {np.max(tol):.3g}), '
                        f'{int(bad.sum())} of {bad.size} values\ngot {_short(g)}\n'
                        f'expected {_short(w)}', finding)


def raises(exc, fn, msg):
    """fn must raise exc (a clean refusal)."""
    try:
        fn()
    except exc:
        return
    raise Violation(msg)


class Sub:
    def __init__(self, name, fn, strategy, quick, thorough, rule, weight, examples):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.weight = weight
        self.examples = examples
        self.evals = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.skipped = 0
        self.known = 0
        self.wall = 0.


def sub(strategy, quick=200, thorough=5000, rule='', weight=1., examples=()):
    """Register a sub-check. ``rule`` says what makes a case non-trivial; the function
    returns True (or a label string) for a non-trivial case."""
    def deco(fn):
        SUBS.append(Sub(fn.__name__, fn, strategy, quick, thorough, rule or
                        (fn.__doc__ or '').strip(), weight, examples))
        return fn
    return deco


def finding(key):
    """Register a probe for a known finding: returns a description while it still fails."""
    def deco(fn):
        FINDINGS[key] = fn
        return fn
    return deco


def known_findings(pid):
    path = ROOT / 'known_findings.json'
    if not path.exists():
        return {}
    data = json.loads(path.read_text())
    return {f['key']: f for f in data.get('findings', []) if f['property'] == pid}


def _digest(case):
    try:
        return hashlib.blake2b(pickle.dumps(case, protocol=4), digest_size=12).digest()
    except Exception:
        return hashlib.blake2b(repr(case).encode(), digest_size=12).digest()


def _from_repo(tb):
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        try:
            if REPO in pathlib.Path(f).resolve().parents:
                return True
        except Exception:
            pass
        tb = tb.tb_next
    return False


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                yield


def run_case(sub_, case):
    """Run one case: returns the label; raises Violation or HarnessError."""
    try:
        with quiet():
            return sub_.fn(case)
    except Violation:
        raise
    except hypothesis.errors.UnsatisfiedAssumption:
        raise
    except (MemoryError, KeyboardInterrupt, ImportError):
        raise
    except Exception as e:
        tb = e.__traceback__
        text = ''.join(traceback.format_exception(type(e), e, tb)[-6:])
        if _from_repo(tb):
            raise Violation(f'exception on a valid case: {type(e).__name__}: {e}\n{text}') from e
        if isinstance(e, (ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError,
                          TypeError, AttributeError, np.linalg.LinAlgError)):
            # produced by the oracle from the values the code returned
            raise Violation(f'result cannot be interpreted: {type(e).__name__}: {e}\n{text}') from e
        raise HarnessError(text) from e


def watch(sub_, case):
    """Arm the watchdog: a case that is still running after HANG seconds ends the
    process with code 1 (from a C thread, so also inside compiled code); run.sh then
    reports the case saved here."""
    if SCRATCH is None:
        return
    if 'file' not in _watch:
        _watch['file'] = open(SCRATCH / 'current.pkl', 'wb', buffering=0)
    f = _watch['file']
    f.seek(0)
    f.truncate()
    f.write(pickle.dumps({'property': PID[0], 'sub': sub_.name, 'case': case}))
    if time.time() > _watch['armed'] + 5:       # arming is slow
        _watch['armed'] = time.time()
        faulthandler.dump_traceback_later(HANG, exit=True, file=sys.__stderr__)


def _fewer_mutations():
    """Hypothesis spends five of six cases on variants of the last one, most of them degenerate here
    (its parts replaced by copies of each other): do so after every fourth new case only."""
    from hypothesis.internal.conjecture.engine import ConjectureRunner as Runner
    mutate = getattr(Runner, 'generate_mutations_from', None)
    if mutate is None:
        return

    def sometimes(self, data):
        self.new_cases = getattr(self, 'new_cases', 0) + 1
        if self.new_cases % 4 == 0:
            mutate(self, data)
    Runner.generate_mutations_from = sometimes


_fewer_mutations()


def _drive(sub_, deadline, known):
    """Run the sub-check under Hypothesis. Returns None or (case, violation)."""
    n = sub_.quick if TIER == 'quick' else sub_.thorough
    n = max(1, int(n * float(os.environ.get('VERIF_SCALE', '1'))))
    last = {}
    t0 = time.time()

    def body(case):
        if time.time() > deadline and not last:
            sub_.skipped += 1
            return
        if last and time.time() > last['first'] + SHRINK:
            return      # stop shrinking (hypothesis calls it flaky; `last` is kept)
        sub_.evals += 1
        watch(sub_, case)
        try:
            label = run_case(sub_, case)
        except Violation as v:
            if v.finding is not None and v.finding in known:
                sub_.known += 1
                return
            last.setdefault('first', time.time())
            last['case'], last['violation'] = case, v
            raise
        if label:
            sub_.nontrivial.add(_digest(case))
            for lab in ([label] if not isinstance(label, (list, tuple, set)) else label):
                if isinstance(lab, str):
                    sub_.labels[lab] = sub_.labels.get(lab, 0) + 1
            if len(sub_.samples) < 3 and sub_.evals % 7 in (1, 5):
                sub_.samples.append(case)

    for case in sub_.examples:
        try:
            body(case)
        except Violation:
            sub_.wall += time.time() - t0
            return last['case'], last['violation']

    test = given(sub_.strategy)(body)
    test = settings(
        max_examples=n, deadline=None, database=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example],
    )(test)
    test = hypothesis.seed(SEED * 7919 + sum(map(ord, sub_.name)))(test)
    try:
        with quiet():
            test()
    except Violation as v:
        pass
    except HarnessError:
        raise
    except BaseException:
        if not last:
            raise
    finally:
        sub_.wall += time.time() - t0
    if last:
        return last['case'], last['violation']
    return None


def write_replay(pid, sub_, case, violation):
    d = ROOT / 'replays'
    d.mkdir(exist_ok=True)
    path = d / f'{pid}-{sub_.name}.pkl'
    with open(path, 'wb') as f:
        pickle.dump({'property': pid, 'sub': sub_.name, 'case': case}, f)
    with open(path.with_suffix('.txt'), 'w') as f:
        f.write(f'property {pid}, sub-check {sub_.name}\n{violation}\n\ncase:\n')
        with np.printoptions(threshold=100000, precision=17):
            f.write(pprint.pformat(case, width=100))
        f.write(f'\n\nreplay: bash run.sh {pid} --replay {path}\n')
    return path


def jsonable(x, depth=0):
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:30]}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, np.ndarray):
        if x.size <= 40:
            return jsonable(x.tolist(), depth + 1)
        return f'array{x.shape} {_short(x.ravel()[:12].tolist())}...'
    if isinstance(x, (bool, int, str)) or x is None:
        return x
    if isinstance(x, (float, np.floating)):
        return float(x) if np.isfinite(x) else str(x)
    if isinstance(x, np.integer):
        return int(x)
    return _short(x)


def write_evidence(pid, wall, violations, budget_hit):
    cov = {
        'evaluations': sum(s.evals for s in SUBS),
        'distinct_nontrivial': sum(len(s.nontrivial) for s in SUBS),
        'rule': 'Cases are drawn by Hypothesis from VERIF_SEED; distinct = distinct pickled '
                'case. Non-trivial per sub-check: ' +
                '; '.join(f'{s.name}: {" ".join(s.rule.split())}' for s in SUBS),
        'samples': [{'sub': s.name, 'case': jsonable(c)} for s in SUBS for c in s.samples[:2]],
        'per_sub_check': {
            s.name: {'evaluations': s.evals, 'distinct_nontrivial': len(s.nontrivial),
                     'labels': s.labels, 'excluded_known_findings': s.known,
                     'skipped_over_budget': s.skipped, 'wall_s': round(s.wall, 2)}
            for s in SUBS},
        'budget_hit': budget_hit,
    }
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration',
        'coverage': cov,
        'assumptions': ['numpy, scipy, scikit-image, numba and networkx behave as documented',
                        'the oracle written in checks/%s.py is right' % pid.lower()],
        'wall_s': round(wall, 2), 'violations': violations,
    }
    out = ROOT / 'evidence'
    out.mkdir(exist_ok=True)
    (out / f'{pid}.json').write_text(json.dumps(ev, indent=1) + '\n')


def run(argv):
    if argv[:1] == ['--selftest']:
        print('hypothesis', hypothesis.__version__, 'numpy', np.__version__, 'ok')
        return 0
    pid = PID[0] = argv[0].upper()
    t0 = time.time()
    with quiet():
        importlib.import_module(f'checks.{pid.lower()}')
    only = os.environ.get('VERIF_ONLY')
    if only:
        SUBS[:] = [s for s in SUBS if s.name in only.split(',')]
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1], 'rb') as f:
            rec = pickle.load(f)
        s = next(s for s in SUBS if s.name == rec['sub'])
        try:
            faulthandler.dump_traceback_later(HANG, exit=True, file=sys.__stderr__)
            run_case(s, rec['case'])
            faulthandler.cancel_dump_traceback_later()
        except Violation as v:
            print(v)
            print(f'VIOLATION property={pid} replay={argv[argv.index("--replay") + 1]}')
            return 1
        print('case passes')
        return 0

    known = known_findings(pid)
    for key in known:
        probe = FINDINGS.get(key)
        if probe is None:
            raise HarnessError(f'no probe for known finding {key}')
        try:
            with quiet():
                what = probe()
        except Exception as e:
            what = f'{known[key]["what"]} ({type(e).__name__})'
        if what:
            print(f'KNOWN-FINDING: property={pid} {known[key]["what"]}')

    total = sum(s.weight for s in SUBS)
    violations = 0
    start = time.time()
    budget_hit = False
    spent = 0.
    for s in SUBS:
        spent += s.weight
        deadline = start + BUDGET * spent / total
        res = _drive(s, deadline, known)
        budget_hit |= s.skipped > 0
        if res is not None:
            case, v = res
            path = write_replay(pid, s, case, v)
            print(f'[{s.name}] {v}')
            print(f'VIOLATION property={pid} replay={path}')
            violations += 1
            break
    faulthandler.cancel_dump_traceback_later()
    write_evidence(pid, time.time() - t0, violations, budget_hit)
    if not violations:
        print(f'{pid}: held on {sum(s.evals for s in SUBS)} cases '
              f'({sum(len(s.nontrivial) for s in SUBS)} distinct non-trivial) '
              f'in {time.time() - t0:.1f} s' + (' [budget hit]' if budget_hit else ''))
        for s in SUBS:
            print(f'   {s.name}: {s.evals} ({len(s.nontrivial)} nt, {s.wall:.1f} s) {s.labels or ""}')
    return 1 if violations else 0
