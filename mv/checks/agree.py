"""Check that the generated code of the three languages agrees."""
import collections
import json

from .. import cpprun, gen, gorun, known, model, pyrun, reduce, runner
from ..runner import Violation
from . import compiled

LANGS = ('py', 'go', 'cpp')


class Trio:
    """The code of some schemas in all the languages."""

    def __init__(self, mappings, tools):
        self.mappings = mappings
        self.go = gorun.Batch(mappings, tools['go'])
        self.cpp = cpprun.Batch(
            mappings, tools['cpp'], per_unit=4 if len(mappings) > 24 else 1)
        self.schemas = [model.Schema(m) for m in mappings]
        self.packages = {}

    def status(self, number):
        """Raise if the code is not usable."""
        for batch in (self.go, self.cpp):
            compiled.check_status(batch, number)
        if number not in self.packages:
            for other in list(self.packages):
                self.packages.pop(other).close()
            try:
                self.packages[number] = pyrun.Package(self.mappings[number])
            except pyrun.Refused as err:
                raise Violation('mapry refused a well-formed schema: ' + str(err))
        return self.packages[number]

    def read(self, lang, number, doc, write=False):
        """Give ('errors', refs), ('content', content, written) or ('threw', what)."""
        if lang == 'py':
            package = self.packages[number]
            try:
                graph, errors, _ = package.read(doc)
                if graph is None:
                    return ('errors', sorted(r for r, _ in errors))
                content = package.content(graph)
                written = None
                if write:
                    written = json.loads(
                        json.dumps(package.write(graph)),
                        object_pairs_hook=collections.OrderedDict)
            except Exception as err:  # pylint: disable=broad-except
                return ('threw', '{}: {}'.format(type(err).__name__, err))
            return ('content', content, written)
        batch = getattr(self, lang)
        answer = batch.parse(number, doc, write=write)
        compiled.check_answer(answer)
        if 'undecodable' in answer:
            return ('undecodable', )
        if 'threw' in answer:
            return ('threw', answer['what'])
        if answer['errors']:
            return ('errors', sorted(r for r, _ in answer['errors']))
        module = gorun if lang == 'go' else cpprun
        try:
            content = module.Content(self.schemas[number]).graph(
                answer['content'])
        except pyrun.Mismatch as err:
            raise Violation('the object graph is wrong: {}'.format(err))
        return ('content', content, answer.get('written'))

    def close(self):
        for package in self.packages.values():
            package.close()
        self.go.close()
        self.cpp.close()


def predictions(schema, doc):
    """Predict the outcomes; give None if the languages are known to differ."""
    out = {}
    for lang in LANGS:
        parser = model.Parser(schema, lang, 'doc#')
        try:
            content = parser.graph(doc)
        except model.Unknown:
            return None
        out[lang] = (content, parser.errors)
    kinds = [[k for _, k in out[lang][1]] for lang in LANGS]
    if kinds[0] != kinds[1] or kinds[1] != kinds[2]:
        return None
    if not kinds[0]:
        contents = [out[lang][0] for lang in LANGS]
        if not compiled.same_content(
                contents[0], contents[1]) or not compiled.same_content(
                    contents[1], contents[2]):
            return None
    return out


def test(trio, number, item, rec):
    """Check that the languages agree on a document."""
    schema = trio.schemas[number]
    doc = item['doc']
    want = predictions(schema, doc)
    if want is None:
        rec.count('documented differences between the languages')
        return
    valid = not want['py'][1]
    names = {
        py[0]: go[0]
        for py, go in zip(want['py'][1], want['go'][1])
    }
    rec.case(
        [trio.mappings[number], doc] if doc and isinstance(doc, dict) else None,
        sample={
            'schema': trio.mappings[number],
            'document': doc
        })
    rec.count('valid' if valid else 'invalid')
    got = {lang: trio.read(lang, number, doc, write=valid) for lang in LANGS}
    for lang in LANGS:
        if got[lang][0] == 'undecodable':
            return
        if got[lang][0] == 'threw':
            if lang == 'go' and got[lang][
                    1] == compiled.PANIC and not valid:
                rec.count('known panic on composites after an error')
                continue
            raise Violation('the code threw: {} {}'.format(lang, got[lang][1]))
    langs = [lang for lang in LANGS if got[lang][0] != 'threw']
    kinds = {lang: got[lang][0] for lang in langs}
    if len(set(kinds.values())) > 1:
        raise Violation(
            'a document is accepted in a language and refused in another: {}'.
            format(
                {
                    k: (v[:2] if v[0] == 'errors' else 'accepted')
                    for k, v in got.items()
                }))
    if kinds['py'] == 'errors':
        places = {
            lang: sorted(
                names.get(r, r) if lang == 'py' else r for r in got[lang][1])
            for lang in langs
        }
        if any(places[lang] != places['py'] for lang in langs):
            raise Violation(
                'the places of errors differ between the languages: {}'.format(
                    places))
        return
    for lang in LANGS[1:]:
        if not compiled.same_content(got['py'][1], got[lang][1]):
            raise Violation(
                'the content differs between the languages: \n  py: {}\n{:>4}: '
                '{}'.format(
                    compiled.show(got['py'][1]), lang,
                    compiled.show(got[lang][1])))
    for writer in LANGS:
        written = got[writer][2]
        if writer == 'cpp' and compiled.has_null(written):
            rec.count('known null in place of an empty structure')
            continue
        for reader in LANGS:
            if reader == writer:
                continue
            again = trio.read(reader, number, written)
            rec.count('documents written and read in different languages')
            if again[0] != 'content':
                raise Violation(
                    'a document written in a language is refused in another: '
                    '{} written by {}, read by {}: {}'.format(
                        compiled.text_of(written), writer, reader, again[1]))
            if not compiled.same_content(again[1], got[writer][1]):
                raise Violation(
                    'a document written in a language is read differently in '
                    'another: {} written by {}, read by {}: {}'.format(
                        compiled.text_of(written), writer, reader,
                        compiled.show(again[1])))


def make_cases(seed, count):
    """Generate schemas with documents."""
    out = []
    for i in range(count):
        d = gen.R(seed * 1000 + i)
        options = gen.Options(
            langs=LANGS,
            max_classes=d.choice((0, 1, 2, 3)),
            max_embeds=d.choice((0, 2, 3)),
            max_props=d.choice((2, 4, 6)),
            depth=d.choice((1, 2, 3)),
            exotic_json=25,
            big_integers=False,
            recursive=15)
        case = gen.SchemaMaker(d, options).make()
        items = compiled.docs_valid(None, d, case) + [
            {
                'doc': x['doc']
            } for x in compiled.docs_faulty(None, d, case)
        ]
        for item in items:
            item.pop('ref', None)
        out.append((case.mapping, items))
    return out


def run(tools, cases, rec):
    """Run the cases; give the failures."""
    failures = []
    trio = Trio([m for m, _ in cases], tools)
    try:
        for number, (mapping, items) in enumerate(cases):
            try:
                trio.status(number)
            except Violation as err:
                failures.append(
                    {
                        'message': str(err),
                        'case': {
                            'mapping': mapping,
                            'doc': {}
                        }
                    })
                continue
            for item in items:
                try:
                    test(trio, number, item, rec)
                except Violation as err:
                    failures.append(
                        {
                            'message': str(err),
                            'case': dict(item, mapping=mapping)
                        })
                    break
            if len(failures) > 20:
                break
    finally:
        trio.close()
    return failures


class Evaluator:
    """Evaluate the candidates of a reduction."""

    def __init__(self, tools):
        self.tools = tools

    def __call__(self, cases):
        keys = [runner.dumps(c['mapping']) for c in cases]
        distinct = list(dict.fromkeys(keys))
        trio = Trio(
            [cases[keys.index(k)]['mapping'] for k in distinct], self.tools)
        out = []
        try:
            for key, case in zip(keys, cases):
                number = distinct.index(key)
                try:
                    trio.status(number)
                    test(trio, number, case, runner.Recorder())
                    out.append(None)
                except Violation as err:
                    out.append(str(err))
                except (KeyError, TypeError, AttributeError, IndexError):
                    out.append(None)
        finally:
            trio.close()
        return out


def open_tools(scratch):
    return {'go': gorun.Toolchain(scratch), 'cpp': cpprun.Toolchain(scratch)}


def check(prop, ctx):
    """Run the check."""
    tools = open_tools(ctx.scratch)
    failures = []
    size = 96
    try:
        round_number = 0
        while True:
            per = size // runner.WORKERS
            parts = runner.parallel(
                make_cases, [
                    ((ctx.seed * 100 + round_number) * 10 + shard + 7, per)
                    for shard in range(runner.WORKERS)
                ], ctx.scratch)
            cases = [part[j] for j in range(per) for part in parts]
            failures = run(tools, cases, ctx.rec)
            round_number += 1
            if failures or ctx.elapsed() > (40 if ctx.quick else 600) or (
                    ctx.quick and round_number >= 3):
                break
        by_kind = collections.OrderedDict()
        failures.sort(key=lambda f: len(runner.dumps(f['case'])))
        for failure in failures:
            by_kind.setdefault(reduce.kind_of(failure['message']), failure)
        for failure in list(by_kind.values())[:3]:
            case, message = reduce.reduce(
                failure['case'], failure['message'], Evaluator(tools), 60)
            ctx.rec.fail(message, case)
        known.probe(ctx)
    finally:
        for tool in tools.values():
            tool.close()
    return runner.finish(
        ctx, 'a distinct pair of a schema and a non-empty document read in all '
        'three languages', compiled.ASSUMPTIONS['cpp'] + (
            'documents on which the documented semantics of the languages '
            'differ (null, numbers, paths) are left out, as told by the '
            'reference parser', ))


def replay(prop, failure, scratch):
    """Replay a failure."""
    tools = open_tools(scratch)
    try:
        return Evaluator(tools)([failure['case']])[0]
    finally:
        for tool in tools.values():
            tool.close()
