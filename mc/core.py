"""
Explorer: enumerates the cases of a check exhaustively (in parallel, deterministically), judges each on the
real library, writes evidence and replayable counterexamples.
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SQLPUZZLE_REPO', '/repo')   # the override is only for experiments on scratch copies
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

CASE_TIMEOUT = 60       # seconds of processor time for one case
CASE_WAIT = 240         # seconds altogether, for a case that waits for something that never comes
ENOUGH = 400      # seconds after which a run that has found a violation stops


def load():
    """Import the library from the repository's working tree (never bytecode)."""
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(5000)     # so that a few more frames per level of nesting do not matter
    sys.path.insert(0, REPO)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sp = importlib.import_module('sqlpuzzle')
        importlib.import_module('sqlpuzzle.relations')
        importlib.import_module('sqlpuzzle.exceptions')
    where = os.path.realpath(sp.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit('sqlpuzzle was imported from %s, not from %s' % (where, REPO))
    return sp


sp = load()
from .terms import Builder  # noqa: E402

builder = Builder(sp)


class HarnessTimeout(BaseException):
    pass


def outcome(func, *args):
    """('ok', value) or ('exc', class name, is in the library's exception family)"""
    try:
        return ('ok', func(*args))
    except HarnessTimeout:
        raise
    except RecursionError:
        return ('exc', 'RecursionError', False)
    except sp.exceptions.SqlPuzzleException as exc:
        return ('exc', type(exc).__name__, True)
    except Exception as exc:  # pylint: disable=broad-except
        return ('exc', type(exc).__name__, False)


def use(backend):
    sp.configure(backend)


class Problem:
    def __init__(self, what, expected=None, got=None, key=None):
        self.what, self.expected, self.got, self.key = what, expected, got, key

    def asdict(self):
        return {'what': self.what, 'expected': repr(self.expected), 'got': repr(self.got)}


class Family:
    """
    One exhaustively enumerated family of cases.
    shards: list of small picklable shard descriptions; cases(shard) yields printable case descriptions;
    judge(ctx, case) runs one case on the real library and returns None or a Problem.
    """
    def __init__(self, name, shards, cases, judge, bound):
        self.name, self.shards, self.cases, self.judge, self.bound = name, list(shards), cases, judge, bound


class Ctx:
    """Counters of one shard."""
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.extra = {}

    def state(self, *key):
        self.states.add(digest(key))

    def saw(self, value):
        self.outcomes.add(digest((value,)))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def digest(key):
    return hash64(repr(key))


def hash64(text):
    return int.from_bytes(hashlib.blake2b(text.encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


MAX_PROBLEMS = 5


def raised_by_library(exc):
    """Did the exception come out of the library's code (and not of the harness)?"""
    tb, last = exc.__traceback__, ''
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return os.path.realpath(last).startswith(os.path.realpath(REPO) + os.sep)

_FAMILIES = {}


def _alarm(_sig, _frame):
    raise HarnessTimeout()


def _run_shard(job):
    fam_name, shard_index = job
    fam = _FAMILIES[fam_name]
    ctx = Ctx()
    problems, sample, n, slow = [], [], 0, False
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    slowest = (0, None)
    builder.calls = 0
    try:
        for case in fam.cases(fam.shards[shard_index]):
            n += 1
            signal.setitimer(signal.ITIMER_REAL, CASE_WAIT)
            signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
            began = time.process_time()
            try:
                problem = fam.judge(ctx, case)
            except HarnessTimeout:
                problem, slow = Problem('did not finish within %d s' % CASE_TIMEOUT), True
            except (MemoryError, OSError):
                raise
            except Exception as exc:
                # The harness digests everything the unchanged library gives it, so this is the library's doing too.
                problem = Problem('the library raised where it must not' if raised_by_library(exc) else
                                  'the library gave something unusable', None, traceback.format_exc()[-800:])
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.setitimer(signal.ITIMER_PROF, 0)
            took = time.process_time() - began
            if took > slowest[0]:
                slowest = (took, repr(case)[:200])
            if n in (1, 50, 2000):
                sample.append(repr(case))
            if problem is not None:
                problems.append((problem.key, repr(case), problem.asdict()))
                if sum(1 for p in problems if p[0] is None) >= MAX_PROBLEMS or slow:
                    break
    except Exception:
        return {'error': traceback.format_exc(), 'job': job, 'problems': problems}
    ctx.transitions += builder.calls
    return {
        'job': job, 'problems': problems, 'sample': sample, 'cases': n, 'states': ctx.states,
        'outcomes': ctx.outcomes, 'transitions': ctx.transitions, 'traces': ctx.traces or n, 'extra': ctx.extra, 'slowest': slowest,
    }


def known_findings(prop):
    """key -> text of the findings listed for this property."""
    found = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                    rest = line.strip().split(' ', 2)[2]
                    key, text = rest.split(' ', 1)
                    assert key.startswith('key='), line
                    found[key[4:]] = text
    return found


def run(prop, module, tier):
    start = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    families = module.families(tier)
    jobs = []
    for fam in families:
        assert fam.name not in _FAMILIES
        _FAMILIES[fam.name] = fam
        jobs += [(fam.name, i) for i in range(len(fam.shards))]
    workers = int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    results, found = [], False
    mp = multiprocessing.get_context('fork')
    with mp.Pool(workers, maxtasksperchild=1) as pool:
        for result in pool.imap_unordered(_run_shard, jobs, chunksize=1):
            results.append(result)
            found = found or any(p[0] is None for p in result['problems'])
            if found and (os.environ.get('MC_FAIL_FAST') or time.time() - start > ENOUGH):
                pool.terminate()        # a violation is known, and the rest may be slow because of it
                break
    order = {job: i for i, job in enumerate(jobs)}
    results.sort(key=lambda r: order[r['job']])

    errors = [r for r in results if 'error' in r]
    known = known_findings(prop)
    violations, seen_known = [], {}
    for r in results:
        for key, case, problem in r['problems']:
            if key is not None and key in known:
                seen_known.setdefault(key, (r['job'][0], case, problem))
            else:
                violations.append((r['job'][0], case, problem))

    states, outcomes, per_family, extra = set(), set(), {}, {}
    transitions = traces = cases = 0
    samples = []
    for r in results:
        if 'error' in r:
            continue
        states |= r['states']
        outcomes |= r['outcomes']
        transitions += r['transitions']
        traces += r['traces']
        cases += r['cases']
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
        fam = per_family.setdefault(r['job'][0], {'cases': 0, 'sample': []})
        fam['cases'] += r['cases']
        fam['sample'] = fam['sample'][:1] + r['sample'][-1:]
        fam['slowest_case_s'] = max(fam.get('slowest_case_s', 0), round(r['slowest'][0], 2))
        if os.environ.get('MC_SLOW') and r['slowest'][0] > 5:
            print('slow: %s %.1f s %s' % ((r['job'][0],) + r['slowest']))
    for fam in families:
        info = per_family.setdefault(fam.name, {'cases': 0, 'sample': []})
        info['bound'] = fam.bound
        samples += [fam.name + ': ' + s for s in info.pop('sample')]

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(states), 'transitions': transitions, 'traces_validated_against_impl': traces,
            'distinct_outcomes': len(outcomes), 'families': per_family, 'samples': samples[:40],
            'exhaustive': not violations and not errors, 'known_findings_seen': sorted(seen_known),
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'violations': len(violations), 'wall_s': round(time.time() - start, 2),
    }
    evidence['coverage'].update(extra)
    os.makedirs(EVIDENCE, exist_ok=True)

    for key in sorted(seen_known):
        print('KNOWN-FINDING: property=%s key=%s %s' % (prop, key, known[key]))
    code = 0
    if violations:
        path = os.path.join(EVIDENCE, 'replay-%s.json' % prop)
        with open(path, 'w') as f:
            json.dump({
                'property': prop, 'tier': tier,
                'replay_with': './replay %s' % path,
                'violations': [
                    dict(family=fam, case=case, **problem) for fam, case, problem in violations[:20]],
            }, f, indent=1)
        fam, case, problem = violations[0]
        print('%s: %s\n  case: %s\n  expected: %s\n  got:      %s' % (
            fam, problem['what'], clip(case), clip(problem['expected']), clip(problem['got'])))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    elif errors:
        # The harness itself failed: that is neither "held" nor "violated".
        sys.stderr.write(errors[0]['error'])
        code = 2
    with open(os.path.join(EVIDENCE, '%s.json' % prop), 'w') as f:
        json.dump(evidence, f, indent=1)
    print('%s %s: cases=%d states=%d transitions=%d outcomes=%d violations=%d %.1fs' % (
        prop, tier, cases, len(states), transitions, len(outcomes), len(violations), time.time() - start))
    return code


def clip(text, n=1500):
    return text if len(text) <= n else text[:n] + '...'


# ---------------------------------------------------------------- helpers for judges

def compare(ctx, case_what, expected, got):
    """expected: ('ok', text) or ('exc', class name or None, True)"""
    ctx.saw(got)
    if expected[0] == 'ok':
        if got != expected:
            return Problem(case_what, expected, got)
        return None
    if got[0] != 'exc' or not got[2] or (expected[1] is not None and got[1] != expected[1]):
        return Problem(case_what, expected, got)
    return None


def chunks(seq, n):
    """Split a list into at most n contiguous shards (simplest cases first)."""
    seq = list(seq)
    size = max(1, -(-len(seq) // n))
    return [seq[i:i + size] for i in range(0, len(seq), size)]
