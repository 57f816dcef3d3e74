"""Check that parsing and serializing have no side effects."""
import collections
import time

from hypothesis import strategies as st

from .. import cpprun, gen, gorun, model, pyrun, reduce, runner
from ..runner import Violation
from . import compiled, pycode

OPTIONS = gen.Options(langs=('py', ), weird_names=10)

# ---------------------------------------------------------------------------
# Python
# ---------------------------------------------------------------------------


def freeze(value):
    """Represent the value together with its types and order."""
    if isinstance(value, dict):
        return (
            type(value).__name__, tuple((k, freeze(v)) for k, v in value.items()))
    if isinstance(value, list):
        return ('list', tuple(freeze(v) for v in value))
    return (type(value).__name__, repr(value))


def mutable_parts(value, module, seen):
    """Collect the lists, mappings and instances of generated classes by identity."""
    stack = [value]
    while stack:
        item = stack.pop()
        if id(item) in seen:
            continue
        if isinstance(item, dict):
            seen[id(item)] = item
            stack.extend(item.values())
        elif isinstance(item, (list, tuple, set)):
            if not isinstance(item, tuple):
                seen[id(item)] = item
            stack.extend(item)
        elif type(item).__module__ == module:
            seen[id(item)] = item
            stack.extend(vars(item).values())
    return seen


class History:
    """Run a history of calls and compare the outcomes of equal calls."""

    def __init__(self, package, docs):
        self.package = package
        self.docs = docs
        self.frozen = [freeze(doc) for doc in docs]
        self.seen = {}
        self.own = {}
        for doc in docs:
            self.claim(doc, 'a document', fresh=False)
        self.graphs = {}
        self.outcomes = {}
        self.snapshots = []

    def claim(self, value, what, fresh=True):
        """Check that the value shares nothing with what came before."""
        parts = mutable_parts(value, self.package.types.__name__, {})
        if fresh:
            for key, part in parts.items():
                if key in self.own:
                    raise Violation(
                        '{} shares a {} with {}: {!r}'.format(
                            what, type(part).__name__, self.own[key][1],
                            part)[:600])
        for key, part in parts.items():
            # keep them alive so that the identities are not used again
            self.own.setdefault(key, (part, what))

    def same(self, key, outcome, what):
        """Compare with the earlier outcome of the same call."""
        if key not in self.outcomes:
            self.outcomes[key] = outcome
        elif self.outcomes[key] != outcome:
            raise Violation(
                '{} gave another outcome than before:\n{}\nbefore: {}'.format(
                    what, repr(outcome)[:1500],
                    repr(self.outcomes[key])[:1500]))

    def content(self, graph):
        """Freeze the content of a graph."""
        try:
            return freeze(self.package.content(graph))
        except pyrun.Mismatch as err:
            # The types of the values are judged by the other properties.
            return str(err)

    def unchanged(self, what):
        """Check all the documents and the graphs."""
        for doc, frozen in zip(self.docs, self.frozen):
            if freeze(doc) != frozen:
                raise Violation(
                    '{} changed a document: {!r}'.format(what, doc)[:1500])
        for graph, frozen in self.snapshots:
            if self.content(graph) != frozen:
                raise Violation('{} changed a graph'.format(what))

    def read(self, i, cap):
        """Parse a document."""
        what = 'parsing'
        try:
            graph, errors, _ = self.package.read(self.docs[i], cap=cap)
        except Exception as err:  # pylint: disable=broad-except
            # judged by the other properties
            self.same((i, cap), 'raised {}'.format(type(err).__name__), what)
            self.unchanged(what)
            return False
        if graph is not None:
            self.claim(graph, 'a parsed graph')
            frozen = self.content(graph)
            self.snapshots.append((graph, frozen))
            self.graphs.setdefault(i, graph)
            self.same((i, cap), frozen, what)
        else:
            self.same((i, cap), errors, what)
        self.unchanged(what)
        return graph is not None

    def write(self, i, ordered):
        """Serialize a graph."""
        graph = self.graphs.get(i)
        if graph is None:
            return False
        what = 'serializing'
        try:
            out = self.package.write(graph, ordered)
        except Exception as err:  # pylint: disable=broad-except
            self.same(
                (i, 'write', ordered), 'raised {}'.format(type(err).__name__),
                what)
            self.unchanged(what)
            return False
        self.claim(out, 'a serialized document')
        self.same((i, 'write', ordered), freeze(out), what)
        self.unchanged(what)
        return True


def test_python(case, rec):
    """Run a history."""
    schema = model.Schema(case['mapping'])
    with pycode.load(case['mapping']) as package:
        pycode.schema_classes(schema, rec)
        docs = [
            pycode.ordered(doc) if i % 2 else pycode.plain(doc)
            for i, doc in enumerate(case['docs'] + case['faulty'])
        ]
        history = History(package, docs)
        valid = 0
        with pycode.Guard('a history of calls'):
            for what, i, arg in case['calls']:
                if what == 'read':
                    valid += history.read(i % len(docs), (1000, 1, 3)[arg % 3])
                    rec.count('calls of parsing')
                else:
                    rec.count(
                        'calls of serializing',
                        history.write(i % len(docs), arg % 2 == 0))
        rec.case(
            [case['mapping'], case['docs'], case['calls']] if valid and any(
                isinstance(doc, dict) and doc for doc in case['docs']) else
            None,
            sample=case)


def search_python():
    """Give the search."""

    def more(d, case, result):
        del case
        result['calls'] = [['read', i, 0] for i in range(2)] + [
            [d.choice(('read', 'read', 'write')),
             d.int(0, 4),
             d.int(0, 2)] for _ in range(d.int(4, 12))
        ]

    return pycode.doc_cases(OPTIONS, 3, 2, more), test_python


# ---------------------------------------------------------------------------
# Go and C++
# ---------------------------------------------------------------------------


def make_cases(name, seed, count):
    """Generate schemas with documents and histories of calls."""
    lang = compiled.Language(name)
    out = []
    for i in range(count):
        d = gen.R(seed * 1000 + i)
        case = compiled.make_schema('C24', lang, d)
        docs = [
            compiled.as_json(gen.DocMaker(d, case).make()) for _ in range(3)
        ]
        faults = gen.Faults(d, case)
        docs.extend(
            compiled.as_json(faults.make(d.choice(docs), 1, 3))
            for _ in range(2))
        calls = [
            [d.int(0, len(docs) - 1),
             d.choice((0, 0, 2)),
             d.chance(60)] for _ in range(8)
        ]
        out.append({
            'lang': name,
            'mapping': case.mapping,
            'docs': docs,
            'calls': calls
        })
    return out


def outcome(lang, answer):
    """Give what must not depend on the history."""
    if 'threw' in answer:
        return ['threw', answer['what'], answer.get('stage')]
    errors = answer.get('errors')
    if errors is not None and lang.name == 'go':
        # maps are iterated in random order
        errors = sorted(r for r, _ in errors)
    return [
        errors
    ] + [answer.get(key) for key in ('content', 'written', 'errors2')]


def test_compiled(lang, batch, number, case, rec):
    """Run a history of calls and look for side effects of every call."""
    seen = {}
    for i, cap, write in case['calls']:
        cap = cap or lang.infinite
        answer = batch.parse(number, case['docs'][i], cap=cap, write=write)
        compiled.check_answer(answer)
        got = outcome(lang, answer)
        if lang.name == 'go' and cap != lang.infinite:
            # which of the errors are reported depends on the order of maps
            got[0] = len(got[0]) if isinstance(got[0], list) else got[0]
        key = (i, cap, write)
        if seen.setdefault(key, got) != got and not (
                lang.name == 'go' and 'threw' in (got[0], seen[key][0])):
            raise Violation(
                'another outcome than before: {} before: {}'.format(
                    compiled.text_of(got), compiled.text_of(seen[key])))
        rec.count('calls in ' + lang.name)
    for doc in case['docs']:
        answer = batch.request({
            'case': number,
            'op': 'pure',
            'doc': doc,
            'ref': 'doc#',
            'cap': lang.infinite
        })
        compiled.check_answer(answer)
        if 'threw' in answer:
            raise Violation('a call threw: {}'.format(compiled.text_of(answer)))
        if answer.get('problems'):
            raise Violation(answer['problems'][0][:1500])
        rec.count('documents with simultaneous calls in ' + lang.name)
    rec.case(
        [case['mapping'], case['docs']]
        if any(isinstance(doc, dict) and doc for doc in case['docs']) else None)


def run_batch(lang, toolchain, cases, rec):
    """Run a batch; give the failures."""
    failures = []
    with lang.batch([case['mapping'] for case in cases], toolchain) as batch:
        for i, case in enumerate(cases):
            if batch.status[i] != 'ok':
                rec.count('not compiled')
                if len(failures) < 40:
                    try:
                        compiled.check_status(batch, i)
                    except Violation as err:
                        failures.append({'message': str(err), 'case': case})
                continue
            try:
                test_compiled(lang, batch, i, case, rec)
            except Violation as err:
                failures.append({'message': str(err), 'case': case})
    return failures


class Evaluator:
    """Evaluate the candidates of a reduction."""

    def __init__(self, lang, toolchain):
        self.lang = lang
        self.toolchain = toolchain

    def __call__(self, cases):
        out = []
        rec = runner.Recorder()
        with self.lang.batch([c['mapping'] for c in cases],
                             self.toolchain) as batch:
            for i, case in enumerate(cases):
                try:
                    compiled.check_status(batch, i)
                    test_compiled(self.lang, batch, i, case, rec)
                except Violation as err:
                    out.append(str(err))
                else:
                    out.append(None)
        return out


def search_compiled(ctx, name, size, seconds):
    """Search in batches."""
    lang = compiled.Language(name)
    toolchain = lang.toolchain(ctx.scratch)
    number = 0
    start = time.monotonic()
    try:
        while True:
            per = (size + runner.WORKERS - 1) // runner.WORKERS
            parts = runner.parallel(
                make_cases,
                [(name, (ctx.seed * 7919 + 26 + number) * 10 + shard, per)
                 for shard in range(runner.WORKERS)], ctx.scratch)
            cases = [part[j] for j in range(per) for part in parts]
            failures = run_batch(lang, toolchain, cases, ctx.rec)
            number += 1
            if failures or ctx.quick or time.monotonic() - start > seconds:
                break
        failures.sort(key=lambda f: len(runner.dumps(f['case'])))
        for failure in failures[:2]:
            ctx.rec.fail(failure['message'], failure['case'])
    finally:
        toolchain.close()


def check(prop, ctx):
    """Run the check."""
    del prop
    ctx.search('purity', 'search_python', 1600, 40000)
    search_compiled(ctx, 'go', 320, 180)
    search_compiled(ctx, 'cpp', 96, 180)
    return runner.finish(
        ctx,
        'a distinct history of calls in which a document which is not empty is '
        'parsed without errors (Python), a distinct pair of a schema and '
        'documents which are not all empty (Go, C++)',
        ('simultaneous calls are run in threads (C++) and goroutines (Go); the '
         'interleavings are left to the scheduler', ))


def replay(prop, failure, scratch):
    """Replay a failure; give the message or None."""
    del prop
    case = failure['case']
    if 'lang' not in case:
        try:
            test_python(case, runner.Recorder())
        except Violation as err:
            return str(err)
        return None
    lang = compiled.Language(case['lang'])
    toolchain = lang.toolchain(scratch)
    try:
        return Evaluator(lang, toolchain)([case])[0]
    finally:
        toolchain.close()
