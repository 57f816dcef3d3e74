"""Check that compatible extensions keep documents readable (C23)."""
import collections
import json

from hypothesis import strategies as st

from .. import (
    cpprun, evolve, gen, gorun, known, model, names, pyrun, reduce, runner)
from ..runner import Violation
from . import compiled, pycode


# ---------------------------------------------------------------------------
# The relations
# ---------------------------------------------------------------------------


def relate(read, mapping, steps, item, rec):
    """
    Check the relations on a document.

    ``read`` takes 'old' or 'new', a document and whether to write it again; it gives
    ('errors', references), ('threw', what) or ('content', content, written document).
    """
    old = model.Schema(mapping)
    new = model.Schema(evolve.extended(mapping, steps))
    kind, doc = item['kind'], item['doc']
    same = compiled.same_content

    def must(which, doc, what, write=False):
        got = read(which, doc, write)
        if got[0] != 'content':
            raise Violation(
                '{}: {} {}'.format(what, got, compiled.text_of(doc)))
        return got

    def differs(what, got, want):
        raise Violation(
            '{}: \n got: {}\nwant: {}'.format(
                what, compiled.show(got), compiled.show(want)))

    def readable(which, got):
        """Tell whether the code itself reads what it wrote (see C09, C14 and C18)."""
        if compiled.has_null(got[2]):
            return False
        again = read(which, got[2], False)
        if again[0] == 'content' and same(again[1], got[1]):
            return True
        rec.count('written document left to the other properties')
        return False

    first = 'new' if kind == 'new' else 'old'
    base = read(first, doc, kind != 'faulty')
    if base[0] == 'threw' or (base[0] == 'errors') != (kind == 'faulty'):
        # judged by the other properties
        rec.count('document left to the other properties')
        return
    rec.case(
        [mapping, steps, doc] if doc and steps else None,
        sample={
            'schema': mapping,
            'extensions': steps,
            'document': doc
        })
    rec.count('document: ' + kind)
    extended, added = evolve.with_unknown((old, new), doc, item['extras'])

    if kind == 'faulty':
        if any(
                set(value) & (
                    evolve.known_keys((new, ), comp.name) -
                    evolve.known_keys((old, ), comp.name))
                for comp, value, _ in evolve.places(old, doc)):
            # a key with a typing error is the name of an added property
            rec.count('faulty document with the key of an added property')
            return
        got = read('new', doc, False)
        if got[0] == 'threw':
            return
        if got != base:
            raise Violation(
                'an extension changes what is rejected: {} instead of {}'.
                format(got, base))
        if added:
            got = read('old', extended, False)
            if got[0] != 'threw' and got != base:
                raise Violation(
                    'unknown keys change what is rejected: {} instead of {}'.
                    format(got, base))
        return

    if kind == 'new':
        # written with the extended schema, read with the original
        want, _ = evolve.project(old, base[1])
        got = must(
            'old', doc, 'a document of the extended schema is rejected with '
            'the original one', True)
        if not same(got[1], want):
            differs(
                'a document of the extended schema is read differently with '
                'the original one', got[1], want)
        if readable('new', base):
            got = must(
                'old', base[2], 'a document written with the extended schema '
                'is rejected with the original one')
            if not same(got[1], want):
                differs(
                    'a document written with the extended schema is read '
                    'differently with the original one', got[1], want)
        return

    got = must(
        'new', doc, 'a valid document is rejected after a compatible '
        'extension', True)

    def compare(got, what):
        left, rest = evolve.project(old, got[1])
        if not same(left, base[1]):
            differs(what, left, base[1])
        if any(v is not None for v in rest):
            raise Violation(
                '{}: the new values are not empty: {}'.format(what, rest[:5]))

    compare(got, 'the content differs after a compatible extension')
    writes = readable('old', base)
    if writes:
        compare(
            must(
                'new', base[2], 'a document written with the original schema '
                'is rejected after a compatible extension'),
            'a document written with the original schema differs after a '
            'compatible extension')
    if writes and readable('new', got):
        again = must(
            'old', got[2], 'a document written after a compatible extension '
            'is rejected with the original schema')
        if not same(again[1], base[1]):
            differs(
                'a document written after a compatible extension is read '
                'differently', again[1], base[1])
    if added:
        rec.count('document with unknown keys')
        again = must(
            'old', extended, 'a document with unknown keys is rejected', True)
        if not same(again[1], base[1]):
            differs('unknown keys change the content', again[1], base[1])
        if not same_written(again[2], base[2]):
            raise Violation(
                'unknown keys change what is written: {} instead of {}'.format(
                    compiled.text_of(again[2]), compiled.text_of(base[2])))
    removals = evolve.removals(old, doc)
    for pick in item['removals'] if removals else ():
        removal = removals[pick % len(removals)]
        rec.count('removal of an optional value')
        shorter = evolve.without(old, doc, removal)
        again = must(
            'old', shorter,
            'a document without an optional value is rejected')
        want = evolve.unset(base[1], removal[2])
        if not same(again[1], want):
            differs(
                'the removal of an optional value changes something else',
                again[1], want)


def same_written(left, right):
    """Compare the written documents without regard to the order of keys."""
    return json.dumps(left, sort_keys=True) == json.dumps(right, sort_keys=True)


# ---------------------------------------------------------------------------
# Generation
# ---------------------------------------------------------------------------

KEYS = (
    'unknownKey', 'zzUnknown', '', ' ', 'ID', 'id', 'Name', 'null', '$ref',
    '{}', '%s', 'ü', '"', 'a.b', 'properties', 'errors', 'value', 'json')

VALUES = (
    None, True, 0, -1.5, 'x', '', [], {}, [None], {'x': []}, [[1], {}], {
        'id': 'a',
        'value': {
            'errors': [1]
        }
    })


def make_items(d, case, new_case, additive):
    """Draw documents with changes."""
    items = []

    def item(kind, doc):
        schema = case.schema
        extras = []
        for _ in range(d.int(0, 3) if kind == 'faulty' else d.int(1, 4)):
            if d.chance(25):
                # the key of another composite or in another case
                pool = [
                    p.json for c in schema.composites() for p in c.props
                ] + [c.registry for c in schema.classes.values()
                     ] + [c.name for c in schema.composites()]
                key = d.choice(pool)
                if d.chance(40):
                    key = d.choice((key.upper(), key + ' ', key.lower()))
            else:
                key = d.choice(KEYS)
            extras.append(
                [d.int(0, 1000), key,
                 d.choice(VALUES),
                 d.chance(50)])
        items.append(
            {
                'kind': kind,
                'doc': doc,
                'extras': extras,
                'removals': [d.int(0, 1000) for _ in range(2)]
            })

    docs = [gen.DocMaker(d, case).make() for _ in range(2)]
    for doc in docs:
        item('old', doc)
    if additive:
        item('new', gen.DocMaker(d, new_case).make())
        item('faulty', gen.Faults(d, case).make(d.choice(docs), 1, d.int(1, 3)))
    return items


def make_case(d, options):
    """Draw a schema, extensions and documents."""
    case = gen.SchemaMaker(d, options).make()
    if d.chance(options.weird_names):
        case = names.weird(d, case, options.langs)
    additive = d.chance(50)
    extender = evolve.Extender(d, case)
    mapping = extender.make(additive)
    new_case = gen.Case(mapping, case.patterns, options)
    return {
        'mapping': case.mapping,
        'steps': extender.steps,
        'items': make_items(d, case, new_case, additive)
    }


def count_steps(steps, rec):
    for step in steps:
        rec.count('extension: ' + (step[4] if step[0] == 'loosen' else step[0]))


# ---------------------------------------------------------------------------
# Python
# ---------------------------------------------------------------------------

OPTIONS = gen.Options(
    langs=('py', ), max_props=4, depth=3, weird_names=15, recursive=15)


def search():
    """Give the search."""

    @st.composite
    def strategy(draw):
        return make_case(gen.D(draw), OPTIONS)

    return strategy(), test_py


def read_py(packages, which, doc, write):
    package = packages[which]
    try:
        graph, errors, _ = package.read(doc)
        if graph is None or errors:
            return ('errors', sorted([r, m] for r, m in errors))
        content = package.content(graph)
        written = None
        if write:
            written = json.loads(
                json.dumps(package.write(graph)),
                object_pairs_hook=collections.OrderedDict)
    except Exception as err:  # pylint: disable=broad-except
        # including the mismatches of the known finding of C08
        return ('threw', '{}: {}'.format(type(err).__name__, err))
    return ('content', content, written)


def test_py(case, rec):
    """Check a schema and its extension in Python."""
    mapping, steps = case['mapping'], case['steps']
    count_steps(steps, rec)
    packages = {'old': pycode.load(mapping)}
    try:
        packages['new'] = pycode.load(evolve.extended(mapping, steps))
        for item in case['items']:
            relate(
                lambda *args: read_py(packages, *args), mapping, steps, item,
                rec)
    finally:
        for package in packages.values():
            package.close()


# ---------------------------------------------------------------------------
# Go and C++
# ---------------------------------------------------------------------------


def make_cases(lang, seed, count):
    """Draw cases for compiled code."""
    out = []
    for i in range(count):
        d = gen.R(seed * 1000 + i)
        options = gen.Options(
            langs=(lang, ),
            max_classes=d.choice((1, 2, 3)),
            max_embeds=d.choice((0, 2, 3)),
            max_props=d.choice((2, 4, 6)),
            depth=d.choice((1, 2, 3)),
            exotic_json=25,
            weird_names=15,
            recursive=15)
        case = make_case(d, options)
        for item in case['items']:
            item['doc'] = compiled.as_json(item['doc'])
        out.append(case)
    return out


class Batch:
    """The code of schemas and their extensions."""

    def __init__(self, lang, pairs, tool):
        self.lang = lang
        self.mappings = []
        for mapping, steps in pairs:
            self.mappings += [mapping, evolve.extended(mapping, steps)]
        self.batch = compiled.Language(lang).batch(self.mappings, tool)
        self.schemas = [model.Schema(m) for m in self.mappings]

    def status(self, pair):
        for number in (2 * pair, 2 * pair + 1):
            compiled.check_status(self.batch, number)

    def read(self, pair, which, doc, write):
        number = 2 * pair + (which == 'new')
        answer = self.batch.parse(number, doc, write=write)
        compiled.check_answer(answer)
        if 'undecodable' in answer:
            return ('threw', 'undecodable')
        if 'threw' in answer:
            return ('threw', answer['what'])
        if answer['errors']:
            return ('errors', sorted([r, m] for r, m in answer['errors']))
        module = gorun if self.lang == 'go' else cpprun
        try:
            content = module.Content(self.schemas[number]).graph(
                answer['content'])
        except pyrun.Mismatch as err:
            raise Violation('the object graph is wrong: {}'.format(err))
        return ('content', content, answer.get('written'))

    def test(self, pair, mapping, steps, item, rec):
        relate(
            lambda which, doc, write: self.read(pair, which, doc, write),
            mapping, steps, item, rec)

    def close(self):
        self.batch.close()


def run_batch(lang, tool, cases, rec):
    """Run the cases; give the failures."""
    failures = []
    batch = Batch(lang, [(c['mapping'], c['steps']) for c in cases], tool)
    try:
        for number, case in enumerate(cases):
            count_steps(case['steps'], rec)
            base = {
                'lang': lang,
                'mapping': case['mapping'],
                'steps': case['steps']
            }
            try:
                batch.status(number)
            except Violation as err:
                failures.append(
                    {
                        'message': str(err),
                        'case': dict(base, **case['items'][0])
                    })
                continue
            for item in case['items']:
                try:
                    batch.test(number, case['mapping'], case['steps'], item, rec)
                except Violation as err:
                    failures.append(
                        {
                            'message': str(err),
                            'case': dict(base, **item)
                        })
                    break
            if len(failures) > 20:
                break
    finally:
        batch.close()
    return failures


class Evaluator:
    """Evaluate the candidates of a reduction."""

    def __init__(self, lang, tool):
        self.lang = lang
        self.tool = tool

    def __call__(self, cases):
        keys = [runner.dumps([c['mapping'], c['steps']]) for c in cases]
        distinct = list(dict.fromkeys(keys))
        first = [cases[keys.index(k)] for k in distinct]
        try:
            batch = Batch(
                self.lang, [(c['mapping'], c['steps']) for c in first],
                self.tool)
        except (cpprun.ToolchainError, gorun.ToolchainError, KeyError) as err:
            raise runner.HarnessError(str(err))
        out = []
        try:
            for key, case in zip(keys, cases):
                number = distinct.index(key)
                try:
                    batch.status(number)
                    batch.test(
                        number, case['mapping'], case['steps'], case,
                        runner.Recorder())
                    out.append(None)
                except Violation as err:
                    out.append(str(err))
                except (KeyError, TypeError, AttributeError, IndexError):
                    out.append(None)
        finally:
            batch.close()
        return out


def drop_steps(case, message, evaluate):
    """Drop the extensions which are not needed."""
    i = 0
    while i < len(case['steps']):
        cand = dict(case, steps=case['steps'][:i] + case['steps'][i + 1:])
        try:
            got = evaluate([cand])[0]
        except runner.HarnessError:
            got = None
        if got is not None and reduce.kind_of(got) == reduce.kind_of(message):
            case, message = cand, got
        else:
            i += 1
    return case, message


def check(prop, ctx):
    """Run the check."""
    known.probe(ctx)
    ctx.search('evolution', 'search', 1200, 12000, quick_seconds=120)
    for lang, size in (('go', 64), ('cpp', 24)):
        tool = compiled.Language(lang).toolchain(ctx.scratch)
        start = ctx.elapsed()
        try:
            round_number = 0
            while True:
                per = size // runner.WORKERS
                parts = runner.parallel(
                    make_cases, [
                        (
                            lang, (ctx.seed * 100 + round_number) * 10 + shard
                            + (3 if lang == 'go' else 500), per)
                        for shard in range(runner.WORKERS)
                    ], ctx.scratch)
                cases = [part[j] for j in range(per) for part in parts]
                failures = run_batch(lang, tool, cases, ctx.rec)
                round_number += 1
                if failures or ctx.quick or ctx.elapsed() - start > 180 or (
                        ctx.elapsed() > 700):
                    break
            by_kind = collections.OrderedDict()
            failures.sort(key=lambda f: len(runner.dumps(f['case'])))
            for failure in failures:
                by_kind.setdefault(
                    reduce.kind_of(failure['message']), failure)
            for failure in list(by_kind.values())[:2]:
                evaluate = Evaluator(lang, tool)
                case, message = drop_steps(
                    failure['case'], failure['message'], evaluate)
                case, message = reduce.reduce(case, message, evaluate, 50)
                ctx.rec.fail(message, case)
        finally:
            tool.close()
    return runner.finish(
        ctx, 'a distinct triple of a schema, at least one extension and a '
        'non-empty document which the first schema of the relation accepts '
        '(or rejects, where the document is faulty)',
        compiled.ASSUMPTIONS['cpp'] + (
            'documents which the starting schema judges otherwise than '
            'expected are left to the other properties',
            'relations on written documents leave out those with a null (the '
            'known finding of C18)'))


def replay(prop, failure, scratch):
    """Replay a failure."""
    case = failure['case']
    if 'lang' not in case:
        try:
            test_py(case, runner.Recorder())
        except Violation as err:
            return str(err)
        return None
    tool = compiled.Language(case['lang']).toolchain(scratch)
    try:
        return Evaluator(case['lang'], tool)([case])[0]
    finally:
        tool.close()
