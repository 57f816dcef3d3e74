"""Run searches in parallel, report violations and write the evidence."""
import collections
import concurrent.futures
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback

import mv

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
WORKERS = 8


class Violation(Exception):
    """The property is broken."""


class Stop(BaseException):
    """Stop the search."""


def dumps(value):
    """Dump keeping the order of keys."""
    return json.dumps(value, ensure_ascii=True)


def loads(text):
    """Load keeping the order of keys."""
    return json.loads(text, object_pairs_hook=collections.OrderedDict)


def digest(value):
    """Identify a case."""
    return hashlib.sha1(
        (value if isinstance(value, str) else dumps(value)).encode(
            'utf-8', 'surrogatepass')).hexdigest()[:16]


class Recorder:
    """Count what was explored."""

    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.counters = collections.Counter()
        self.samples = []
        self.failures = []  # type: list

    def case(self, key=None, sample=None):
        """Record a case; ``key`` identifies it if it is non-trivial."""
        self.evaluations += 1
        if key is not None:
            before = len(self.keys)
            self.keys.add(digest(key))
            if sample is not None and len(
                    self.samples) < 3 and len(self.keys) > before:
                self.samples.append(sample)

    def count(self, what, number=1):
        self.counters[what] += number

    def fail(self, message, case):
        """Record a failure; ``case`` is JSON-able."""
        self.failures.append({'message': message, 'case': case})

    def merge(self, other):
        self.evaluations += other.evaluations
        self.keys |= other.keys
        self.counters.update(other.counters)
        self.samples.extend(other.samples)
        self.failures.extend(other.failures)


def shard_seed(shard):
    """Give the seed of a shard."""
    return (SEED * 1000003 + shard * 7919) % (2**63)


def hypothesis_search(
        strategy, test, rec, shard, max_examples, max_seconds=240,
        shrink_seconds=40):
    """
    Search with Hypothesis.

    The strategy gives JSON-able cases; ``test(case, rec)`` raises ``Violation``.  The failure is
    shrunk.
    """
    import hypothesis
    from hypothesis import HealthCheck, Phase

    start = time.monotonic()
    state = {'best': None, 'message': None, 'since': None}

    @hypothesis.seed(shard_seed(shard))
    @hypothesis.settings(
        max_examples=max_examples,
        deadline=None,
        database=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        phases=[Phase.generate, Phase.shrink],
        suppress_health_check=list(HealthCheck))
    @hypothesis.given(strategy)
    def body(case):
        now = time.monotonic()
        if state['since'] is None:
            if now - start > max_seconds:
                rec.count('stopped by the time budget')
                raise Stop()
        elif now - state['since'] > shrink_seconds:
            raise Stop()
        try:
            test(case, rec if state['since'] is None else Recorder())
        except Violation as err:
            text = dumps(case)
            if state['best'] is None or len(text) <= len(state['best']):
                state['best'] = text
                state['message'] = str(err)
            if state['since'] is None:
                state['since'] = now
            raise

    try:
        body()
    except Stop:
        pass
    except Violation:
        pass
    except Exception as err:  # pylint: disable=broad-except
        # Failures which do not re-appear are harness errors unless we have a case
        if state['best'] is None:
            raise
        del err
    if state['best'] is not None:
        rec.fail(state['message'], json.loads(state['best']))


def collect(strategy, shard, count):
    """Collect generated cases with Hypothesis without testing them."""
    import hypothesis
    from hypothesis import HealthCheck, Phase
    out = []

    @hypothesis.seed(shard_seed(shard))
    @hypothesis.settings(
        max_examples=count,
        deadline=None,
        database=None,
        phases=[Phase.generate],
        suppress_health_check=list(HealthCheck))
    @hypothesis.given(strategy)
    def body(case):
        out.append(case)

    body()
    return out


def _initialize(scratch):
    # die with the parent
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _call(func, args):
    try:
        return 'ok', func(*args)
    except BaseException:  # pylint: disable=broad-except
        return 'error', traceback.format_exc()


class HarnessError(Exception):
    """The machinery failed."""


def parallel(func, args_list, scratch=None, workers=WORKERS):
    """Run in parallel processes and give the results in order."""
    context = multiprocessing.get_context('fork')
    results = []
    with concurrent.futures.ProcessPoolExecutor(
            max_workers=workers,
            mp_context=context,
            initializer=_initialize,
            initargs=(scratch or tempfile.gettempdir(), )) as pool:
        futures = [pool.submit(_call, func, args) for args in args_list]
        for future in futures:
            status, value = future.result()
            if status == 'error':
                raise HarnessError(value)
            results.append(value)
    return results


def search_shard(module, search, shard, examples, max_seconds):
    """Run one shard of a registered search."""
    import importlib
    mod = importlib.import_module('mv.checks.' + module)
    strategy, test = getattr(mod, search)()
    rec = Recorder()
    hypothesis_search(strategy, test, rec, shard, examples, max_seconds)
    return rec


class Context:
    """Context of a running check."""

    def __init__(self, prop, scratch):
        self.prop = prop
        self.tier = TIER
        self.seed = SEED
        self.scratch = scratch
        self.rec = Recorder()
        self.start = time.monotonic()
        self.known = load_known(prop)

    @property
    def quick(self):
        return self.tier != 'thorough'

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def search(self, module, search, quick, thorough, quick_seconds=200):
        """Search with Hypothesis in parallel; give the recorder."""
        examples = self.scale(quick, thorough)
        seconds = self.scale(quick_seconds, 780)
        per = max(1, (examples + WORKERS - 1) // WORKERS)
        recs = parallel(
            search_shard,
            [(module, search, shard, per, seconds)
             for shard in range(WORKERS)], self.scratch)
        for rec in recs:
            for failure in rec.failures:
                failure['search'] = search
                failure['module'] = module
            self.rec.merge(rec)

    def elapsed(self):
        return time.monotonic() - self.start


def load_known(prop):
    """Load the known findings of a property."""
    path = os.path.join(mv.VERIF, 'known_findings.json')
    with open(path, 'rt', encoding='utf-8') as fid:
        entries = json.load(
            fid, object_pairs_hook=collections.OrderedDict)['findings']
    return [
        e for e in entries if e['property'] == prop and e['status'] == 'known'
    ]


def write_replay(prop, failure):
    """Write the replay file."""
    folder = os.path.join(mv.VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(
        folder, '{}-{}.json'.format(prop, digest(failure['case'])))
    with open(path, 'wt', encoding='utf-8') as fid:
        json.dump({'property': prop, **failure}, fid, indent=1)
        fid.write('\n')
    return path


def finish(ctx, rule, assumptions=(), extra=None):
    """Report and write the evidence; give the exit code."""
    rec = ctx.rec
    seen = set()
    failures = []
    for failure in rec.failures:
        key = failure['message'][:80]
        if key in seen:
            continue
        seen.add(key)
        failures.append(failure)
    failures.sort(key=lambda f: len(dumps(f['case'])))
    coverage = collections.OrderedDict()
    coverage['evaluations'] = rec.evaluations
    coverage['distinct_nontrivial'] = len(rec.keys)
    coverage['rule'] = rule
    coverage['samples'] = rec.samples[:5]
    coverage['classes'] = dict(sorted(rec.counters.items()))
    if extra:
        coverage.update(extra)
    evidence = collections.OrderedDict()
    evidence['property'] = ctx.prop
    evidence['tier'] = 'thorough' if not ctx.quick else 'quick'
    evidence['seed'] = ctx.seed
    evidence['level'] = 'exploration'
    evidence['coverage'] = coverage
    evidence['assumptions'] = list(assumptions)
    evidence['wall_s'] = round(ctx.elapsed(), 2)
    evidence['violations'] = len(failures)
    os.makedirs(os.path.join(mv.VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(mv.VERIF, 'evidence', ctx.prop + '.json')
    with open(path, 'wt', encoding='utf-8') as fid:
        json.dump(evidence, fid, indent=1, default=str)
        fid.write('\n')
    print(
        '{}: {} evaluations, {} distinct non-trivial, {:.1f} s'.format(
            ctx.prop, rec.evaluations, len(rec.keys), ctx.elapsed()))
    for failure in failures[:5]:
        replay = write_replay(ctx.prop, failure)
        print(
            'VIOLATION property={} replay={}'.format(ctx.prop, replay),
            flush=True)
        print('  ' + failure['message'].replace('\n', '\n  ')[:3000])
    sys.stdout.flush()
    return 1 if failures else 0
