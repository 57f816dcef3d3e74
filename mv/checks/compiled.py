"""Check the generated Go and C++ code in batches."""
import collections
import concurrent.futures
import json
import os
import shutil
import tempfile
import time

from .. import cpprun, gen, gorun, known, model, names, pyrun, reduce, runner
from ..runner import Violation

PANIC = 'unexpected non-empty errors'

REFS = ('doc#', '', 'some/file.json#', 'a b', '%s', '{0}', 'ü#', '/')


class Language:
    """What differs between the languages."""

    def __init__(self, name):
        self.name = name
        self.infinite = {'go': 0, 'cpp': 1000000}[name]
        self.content = {'go': gorun.Content, 'cpp': cpprun.Content}[name]
        self.refusal = {
            'go': 'refused',
            'cpp': 'invalid_argument'
        }[name]

    def toolchain(self, scratch, sanitize=False):
        if self.name == 'go':
            return gorun.Toolchain(scratch)
        return cpprun.Toolchain(scratch, sanitize=sanitize)

    def batch(self, mappings, toolchain, tests=False):
        if self.name == 'go':
            return gorun.Batch(mappings, toolchain, tests=tests)
        return cpprun.Batch(
            mappings, toolchain, per_unit=4 if len(mappings) > 24 else 1)

    def options(self, prop, d):
        """Draw the options of the generator."""
        exotic = {'C11': 40, 'C15': 40}.get(prop, 25)
        return gen.Options(
            langs=(self.name, ),
            max_classes=d.choice((1, 2, 3, 4)),
            max_embeds=d.choice((0, 2, 3)),
            max_props=d.choice((2, 4, 6)),
            depth=d.choice((1, 2, 3, 4)),
            exotic_json=exotic,
            exotic_description=40 if prop in ('C11', 'C15') else 0,
            wide_formats=prop in ('C11', 'C15'),
            recursive=15,
            sparse=50 if prop in ('C11', 'C15', 'C24') else 10)


LANGS = {
    'C11': 'go',
    'C12': 'go',
    'C13': 'go',
    'C14': 'go',
    'C15': 'cpp',
    'C16': 'cpp',
    'C17': 'cpp',
    'C18': 'cpp'
}


# ---------------------------------------------------------------------------
# Generation
# ---------------------------------------------------------------------------


def as_json(value):
    """Turn to what is read from a JSON file."""
    return json.loads(
        json.dumps(value), object_pairs_hook=collections.OrderedDict)


def make_schema(prop, lang, d):
    """Draw a schema which is not refused."""
    case = gen.SchemaMaker(d, lang.options(prop, d)).make()
    if d.chance(50 if prop in ('C11', 'C15') else 15):
        case = names.weird(d, case, (lang.name, ))
    return case


def shuffled(d, value):
    """Change the order of keys."""
    if isinstance(value, dict):
        return collections.OrderedDict(
            (k, shuffled(d, value[k])) for k in d.sample(list(value), 99))
    if isinstance(value, list):
        return [shuffled(d, v) for v in value]
    return value


def docs_valid(lang, d, case):
    """Draw valid documents."""
    out = []
    for i in range(5):
        doc = as_json(gen.DocMaker(d, case).make())
        if i == 4:
            doc = shuffled(d, doc)
        out.append({'doc': doc, 'ref': d.choice(REFS)})
    return out


def docs_faulty(lang, d, case):
    """Draw faulty documents and arbitrary JSON values."""
    out = []
    bases = [gen.DocMaker(d, case).make() for _ in range(3)]
    for i in range(10):
        faults = 1 if i < 7 else d.int(2, 5)
        doc = gen.Faults(d, case).make(d.choice(bases), faults, faults)
        out.append({'doc': as_json(doc)})
    for i in range(2):
        doc = as_json(d.choice(bases))
        for _ in range(d.int(1, 3)):
            places = gen.containers(doc)
            if places:
                container, key = d.choice(places)
                container[key] = d.any_json(2)
        out.append({'doc': doc})
    out.append({'doc': as_json(d.any_json(3))})
    for item in out:
        item['ref'] = d.choice(REFS)
        item['caps'] = d.sample((1, 2, 3, 5), 2)
    return out


def docs_write(lang, d, case):
    """Draw documents to serialize."""
    out = []
    for _ in range(4):
        doc = as_json(gen.DocMaker(d, case).make())
        item = {'doc': doc, 'ref': 'doc#', 'foreign': None}
        count = len(case.schema.classes)
        if count:
            item['foreign'] = [
                d.int(0, count - 1),
                d.int(0, 5),
                d.chance(50),
                d.choice(('x', ' ', '/', 'ü', '0'))
            ]
        out.append(item)
    return out


DOCS = {
    'C12': docs_valid,
    'C13': docs_faulty,
    'C14': docs_write,
    'C16': docs_valid,
    'C17': docs_faulty,
    'C18': docs_write
}


def make_cases(prop, seed, count):
    """Generate schemas with documents."""
    lang = Language(LANGS[prop])
    out = []
    for i in range(count):
        d = gen.R(seed * 1000 + i)
        case = make_schema(prop, lang, d)
        docs = DOCS[prop](lang, d, case) if prop in DOCS else []
        out.append((case.mapping, docs))
    return out


# ---------------------------------------------------------------------------
# Tests
# ---------------------------------------------------------------------------


def text_of(answer):
    """Shorten an answer."""
    return json.dumps(answer, ensure_ascii=True)[:600]


def show(content):
    return json.dumps(
        model.jsonable_content(content), ensure_ascii=True)[:1200]


def same_content(left, right):
    """Compare without regard to the order of keys."""

    def plain(value):
        if isinstance(value, dict):
            return {k: plain(v) for k, v in value.items()}
        if isinstance(value, (list, tuple)):
            return [plain(v) for v in value]
        if isinstance(value, bool):
            return ['bool', value]
        return value

    return plain(left) == plain(right)


def translate(lang, schema, dumped):
    """Give the canonical content."""
    try:
        return lang.content(schema).graph(dumped)
    except pyrun.Mismatch as err:
        raise Violation('the object graph is wrong: {}'.format(err))


def check_answer(answer):
    """Check that the code survived."""
    if 'died' in answer:
        raise Violation(
            'the generated code crashed: exit code {} {}'.format(
                answer['died'], answer.get('stderr', '')[:800]))
    if 'hung' in answer:
        raise Violation('the generated code hung: no answer')
    if 'unknown' in answer:
        raise runner.HarnessError('unknown case')


def predict(lang, schema, item):
    """Give (content, errors); raise ``model.Unknown``."""
    parser = model.Parser(schema, lang.name, item['ref'])
    content = parser.graph(item['doc'])
    return content, parser.errors


def test_valid(lang, batch, number, schema, item, rec):
    """Check that a valid document is parsed exactly."""
    try:
        want, errors = predict(lang, schema, item)
    except model.Unknown:
        rec.count('document without a prediction')
        return
    if errors:
        rec.count('document which is not valid')
        return
    answer = batch.parse(number, item['doc'], ref=item['ref'])
    rec.case(
        [batch.mappings[number], item['doc']] if item['doc'] else None,
        sample={
            'schema': batch.mappings[number],
            'document': item['doc']
        })
    check_answer(answer)
    if 'threw' in answer:
        raise Violation('parsing threw: {}'.format(text_of(answer)))
    if answer['errors'] or not answer['empty']:
        raise Violation(
            'a valid document was rejected: {}'.format(answer['errors'][:5]))
    if answer['full'] and lang.name == 'cpp':
        raise Violation('the errors are full without an error: ')
    got = translate(lang, schema, answer['content'])
    if not same_content(got, want):
        raise Violation(
            'the content differs: \n got: {}\nwant: {}'.format(
                show(got), show(want)))


def check_messages(predicted, errors):
    """Check that the messages say something and that missing properties are named."""
    for ref, message in errors:
        if not message.strip():
            raise Violation('no message: at {}'.format(ref))
    for ref, what in predicted:
        if what.startswith('missing '):
            name = what[len('missing '):]
            if not any(r == ref and name in m for r, m in errors):
                raise Violation(
                    'the missing property is not named: {!r} at {}: {}'.format(
                        name, ref, [m for r, m in errors if r == ref]))


def test_faulty(lang, batch, number, schema, item, rec):
    """Check that a faulty document is rejected at the right places."""
    doc, ref = item['doc'], item['ref']
    try:
        want, predicted = predict(lang, schema, item)
    except model.Unknown:
        want, predicted = None, None
        rec.count('document without a prediction')
    answer = batch.parse(number, doc, ref=ref)
    if 'undecodable' in answer:
        rec.count('not decodable by the library')
        return
    rec.case(
        [batch.mappings[number], doc]
        if isinstance(doc, dict) and doc and predicted else None,
        sample={
            'schema': batch.mappings[number],
            'document': doc,
            'errors': [r for r, _ in predicted or ()]
        })
    check_answer(answer)
    if 'threw' in answer:
        if (lang.name == 'go' and answer['what'] == PANIC
                and (predicted is None or predicted)):
            # see the known findings
            rec.count('known panic on composites after an error')
            return
        raise Violation('parsing threw: {}'.format(text_of(answer)))
    errors = answer['errors']
    if answer['empty'] is not (not errors):
        raise Violation('the emptiness is wrong: {}'.format(text_of(answer)))
    if predicted is None:
        rec.count('only the survival was checked')
    else:
        got_refs = collections.Counter(r for r, _ in errors)
        want_refs = collections.Counter(r for r, _ in predicted)
        for _, what in predicted:
            rec.count('error: ' + what.split()[0])
        if got_refs != want_refs:
            if predicted and not errors:
                raise Violation(
                    'an invalid document was accepted: expected errors at {}'.
                    format(sorted(want_refs)))
            raise Violation(
                'the places of errors differ: reported {}, expected {}'.format(
                    sorted(got_refs.elements()),
                    sorted(want_refs.elements())))
        check_messages(predicted, errors)
        if not errors:
            got = translate(lang, schema, answer['content'])
            if not same_content(got, want):
                raise Violation(
                    'the content differs: \n got: {}\nwant: {}'.format(
                        show(got), show(want)))
    for cap in item['caps']:
        capped = batch.parse(number, doc, ref=ref, cap=cap)
        check_answer(capped)
        if 'threw' in capped:
            if lang.name == 'go' and capped['what'] == PANIC and errors:
                rec.count('known panic on composites after an error')
                continue
            raise Violation(
                'parsing with a cap threw: {}'.format(text_of(capped)))
        few = capped['errors']
        rec.count('parsed with a cap')
        if len(few) > cap:
            raise Violation(
                'more errors than the cap: {} of {}'.format(len(few), cap))
        if len(few) != min(cap, len(errors)):
            raise Violation(
                'the number of errors with a cap: {} with the cap {}, {} '
                'without'.format(len(few), cap, len(errors)))
        if capped['full'] is not (len(few) == cap) or capped['empty'] is not (
                not few):
            raise Violation(
                'fullness with a cap: {} with the cap {}'.format(
                    text_of(capped), cap))
        rest = collections.Counter(map(tuple, few)) - collections.Counter(
            map(tuple, errors))
        if lang.name == 'go':
            # maps are iterated in random order and the messages may depend on it
            rest = collections.Counter(r for r, _ in few) - collections.Counter(
                r for r, _ in errors)
        elif not rest and few != errors[:cap]:
            raise Violation(
                'not the first errors with a cap: {} of {}'.format(
                    few, errors))
        if rest:
            raise Violation('other errors with a cap: {}'.format(dict(rest)))


def test_write(lang, batch, number, schema, item, rec):
    """Check the serialization."""
    try:
        want, errors = predict(lang, schema, item)
    except model.Unknown:
        return
    if errors:
        return
    answer = batch.parse(number, item['doc'], write=True)
    rec.case(
        [batch.mappings[number], item['doc']] if item['doc'] else None,
        sample={
            'schema': batch.mappings[number],
            'document': item['doc']
        })
    check_answer(answer)
    if 'threw' in answer:
        if answer['stage'] == 'parse':
            raise Violation('parsing threw: {}'.format(text_of(answer)))
        raise Violation('serializing threw: {}'.format(text_of(answer)))
    if 'content' not in answer:
        raise Violation(
            'a valid document was rejected: {}'.format(answer['errors'][:5]))
    if 'written' not in answer:
        raise Violation('the graph is refused: {}'.format(text_of(answer)))
    content = translate(lang, schema, answer['content'])
    expected = model.normal_document(
        schema, model.serialize(schema, content))
    written = prune(
        schema, model.normal_document(schema, answer['written']), lang)
    if not model.same_json(
            written, prune(schema, expected, lang),
            numbers_loose=False):
        raise Violation(
            'the written document differs: \n got: {}\nwant: {}'.format(
                text_of(answer['written']), text_of(expected)))
    if lang.name == 'cpp' and has_null(answer['written']):
        # no valid content is written as null; see the known findings
        rec.count('known null in place of an empty structure')
        answer.pop('errors2')
        answer['content2'] = answer['content']
    if answer.get('errors2'):
        raise Violation(
            'the written document was rejected: {} in {}'.format(
                answer['errors2'], text_of(answer['written'])))
    if 'unmarshalable' in answer:
        raise Violation(
            'the written document is not JSON: {}'.format(
                answer['unmarshalable']))
    again = translate(lang, schema, answer['content2'])
    if not same_content(again, content):
        raise Violation(
            'the content differs after a round trip: \n got: {}\nwant: {}'.
            format(show(again), show(content)))
    if item.get('foreign') is not None:
        answer = batch.parse(number, item['doc'], foreign=item['foreign'])
        check_answer(answer)
        if 'threw' in answer:
            raise Violation('serializing threw: {}'.format(text_of(answer)))
        if 'foreign' in answer:
            rec.count('foreign ID')
            if answer['foreign'] != lang.refusal:
                raise Violation(
                    'a foreign ID was written: {}'.format(
                        text_of(answer['foreign'])))
    contract = batch.request({
        'n': 0,
        'case': number,
        'op': 'contract',
        'doc': item['doc'],
        'ref': 'doc#'
    })
    check_answer(contract)
    for key in ('null', 'filled', 'target'):
        if key in contract and contract[key] == 'accepted':
            raise Violation('a broken contract is accepted: {}'.format(key))


def has_null(value):
    """Tell whether there is a null in the document."""
    if isinstance(value, dict):
        return any(has_null(v) for v in value.values())
    if isinstance(value, list):
        return any(has_null(v) for v in value)
    return value is None


def prune(schema, doc, lang):
    """Drop empty registries and composites which some languages write and others do not."""
    if not isinstance(doc, dict):
        doc = collections.OrderedDict() if doc is None else doc
    if not isinstance(doc, dict):
        return doc
    doc = collections.OrderedDict(doc)
    for cls in schema.classes.values():
        if cls.registry in doc and not doc[cls.registry]:
            del doc[cls.registry]
        elif isinstance(doc.get(cls.registry), dict) and lang.name == 'cpp':
            doc[cls.registry] = collections.OrderedDict(
                (key, empty(schema, cls, value))
                for key, value in doc[cls.registry].items())
    if lang.name == 'cpp':
        doc = empty(schema, schema.graph, doc)
    return doc


def empty(schema, comp, value):
    """Replace null in place of a structure without any properties (a known finding)."""
    if value is None:
        return collections.OrderedDict()
    if not isinstance(value, dict):
        return value
    value = collections.OrderedDict(value)

    def nested(typ, item):
        if typ.kind == 'embed':
            return empty(schema, schema.embeds[typ.name], item)
        if typ.kind == 'array' and isinstance(item, list):
            return [nested(typ.values, v) for v in item]
        if typ.kind == 'map' and isinstance(item, dict):
            return collections.OrderedDict(
                (k, nested(typ.values, v)) for k, v in item.items())
        return item

    for prop in comp.props:
        if prop.json in value:
            value[prop.json] = nested(prop.type, value[prop.json])
    return value


TESTS = {
    'C12': test_valid,
    'C13': test_faulty,
    'C14': test_write,
    'C16': test_valid,
    'C17': test_faulty,
    'C18': test_write
}


def schema_classes(schema, rec):
    """Count the features of a schema."""
    from . import pycode
    pycode.schema_classes(schema, rec)
    if schema.cpp is not None:
        for key in ('path_as', 'optional_as', 'datetime_library'):
            rec.count('schema with {}'.format(schema.cpp[key]))


def check_status(batch, number):
    """Check that the code could be generated and compiled."""
    if batch.status[number] == 'refused':
        raise Violation(
            'mapry refused a well-formed schema: {}'.format(
                batch.message[number]))
    if batch.status[number] == 'compile':
        raise Violation(
            'the generated code does not compile: {}'.format(
                batch.message[number]))


class Evaluator:
    """Evaluate the candidates of a reduction; keep the last compiled schema."""

    def __init__(self, prop, toolchain):
        self.prop = prop
        self.lang = Language(LANGS[prop])
        self.toolchain = toolchain
        self.key = None
        self.last = None

    def __call__(self, cases):
        keys = [runner.dumps(c['mapping']) for c in cases]
        distinct = list(dict.fromkeys(keys))
        if len(distinct) == 1 and distinct[0] == self.key:
            batch = self.last
        else:
            self.close()
            try:
                batch = self.lang.batch(
                    [
                        cases[keys.index(k)]['mapping'] for k in distinct
                    ], self.toolchain, tests=self.prop == 'C11')
            except (cpprun.ToolchainError, gorun.ToolchainError,
                    KeyError) as err:
                raise runner.HarnessError(str(err))
            self.last = batch
            self.key = distinct[0] if len(distinct) == 1 else None
        out = []
        for key, case in zip(keys, cases):
            number = distinct.index(key)
            try:
                evaluate(self.prop, self.lang, batch, number, case)
            except Violation as err:
                out.append(str(err))
            except (KeyError, TypeError, AttributeError, IndexError):
                out.append(None)
            else:
                out.append(None)
        return out

    def close(self):
        if self.last is not None:
            self.last.close()
            self.last = None
            self.key = None


def evaluate(prop, lang, batch, number, case):
    """Evaluate a case; raise a violation."""
    rec = runner.Recorder()
    check_status(batch, number)
    schema = batch.schemas[number]
    if prop == 'C11':
        check_go_interface(batch, number)
    elif prop == 'C15':
        if case.get('separate'):
            separate(batch, number, case['separate'])
    else:
        TESTS[prop](lang, batch, number, schema, case, rec)


def run_batch(prop, lang, toolchain, cases, rec):
    """Run a batch; give the failures."""
    failures = []

    def fail(message, case):
        if len(failures) < 40:
            failures.append({'message': message, 'case': case})

    with lang.batch([m for m, _ in cases], toolchain,
                    tests=prop == 'C11') as batch:
        numbers = []
        for i, (mapping, items) in enumerate(cases):
            schema = batch.schemas[i]
            schema_classes(schema, rec)
            if prop in ('C11', 'C15'):
                rec.case(
                    mapping
                    if sum(len(c.props) for c in schema.composites()) > 1 else
                    None,
                    sample={'schema': mapping})
            try:
                check_status(batch, i)
                if prop == 'C11':
                    check_go_interface(batch, i)
            except Violation as err:
                # the other properties rely on the compilation
                case = {'mapping': mapping}
                if items:
                    case.update(items[0])
                fail(str(err), case)
                continue
            numbers.append(i)
            for item in items:
                try:
                    TESTS[prop](lang, batch, i, schema, item, rec)
                except Violation as err:
                    fail(str(err), dict(item, mapping=mapping))
        if prop == 'C15':
            for i, kind, message in separate_some(batch, numbers, rec):
                fail(message, {'mapping': cases[i][0], 'separate': kind})
    return failures


# ---------------------------------------------------------------------------
# Compilation
# ---------------------------------------------------------------------------


def check_go_interface(batch, number):
    """Check the fields of the Go structures."""
    answer = batch.request({'case': number, 'op': 'types'})
    check_answer(answer)
    message = gorun.check_fields(batch.schemas[number], answer)
    if message is not None:
        raise Violation('the fields are not as documented: ' + message)


USER = '''\
#include "{first}"
#include "types.h"
#include "parse.h"
#include "jsoncpp.h"
#include <iostream>

int main() {{
  Json::Value value;
  {space}::parse::Errors errors(10);
  {space}::{graph} graph;
  {space}::jsoncpp::{low}_from(value, "ref", &graph, &errors);
  if (errors.full()) std::cout << errors.get().size();
  const Json::Value out = {space}::jsoncpp::serialize_{low}(graph);
  return errors.empty() && !out.isNull() ? 0 : 1;
}}
'''


def lacks_string(schema):
    """Check for maps in a schema which does not make types.h include <string>.

    See the known finding cpp-map-without-string.
    """
    kinds = {t.kind for t in schema.types()}
    return (
        'map' in kinds and 'string' not in kinds and not schema.classes
        and not ('time_zone' in kinds
                 and schema.cpp['datetime_library'] == 'ctime'))


def separate(batch, number, kind):
    """Compile and link the files one by one as a user would do."""
    compiler, first = kind
    schema = batch.schemas[number]
    folder = tempfile.mkdtemp(prefix='sep', dir=batch.folder)
    code_dir = os.path.join(batch.folder, 'c{}'.format(number))
    user = os.path.join(folder, 'user.cpp')
    with open(user, 'wt') as fid:
        if first == 'types.h' and lacks_string(schema):
            # see the known finding cpp-map-without-string
            fid.write('#include <string>\n')
        fid.write(
            USER.format(
                first=first,
                space='::' + schema.cpp['namespace'],
                graph=model.ucamel(schema.graph.name),
                low=schema.graph.name.lower()))
    objects = []
    try:
        for name in ('parse.cpp', 'jsoncpp.cpp', user):
            source = os.path.join(code_dir, name)
            target = os.path.join(
                folder,
                os.path.basename(name).replace('.cpp', '.o'))
            code, out = cpprun.run(
                [
                    compiler, '-std=c++17', '-w', '-O0', '-DONLY_C_LOCALE=1',
                    '-I' + code_dir
                ] + cpprun.INCLUDES + ['-c', source, '-o', target])
            if code != 0:
                raise Violation(
                    'the file does not compile on its own: {} with {}\n{}'.
                    format(
                        os.path.basename(name), compiler, cpprun.brief(out)))
            objects.append(target)
        code, out = cpprun.run(
            [compiler, '-fuse-ld=lld' if compiler == 'clang++' else '-O0'] +
            objects +
            [os.path.join(batch.toolchain.folder, 'tz.o'), '-o',
             os.path.join(folder, 'user')] + cpprun.LIBS)
        if code != 0:
            raise Violation(
                'the files do not link: {}'.format(cpprun.brief(out)))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def separate_some(batch, numbers, rec):
    """Compile some schemas in separate files."""
    by_settings = collections.OrderedDict()
    for i in numbers:
        cpp = batch.schemas[i].cpp
        key = (cpp['path_as'], cpp['optional_as'], cpp['datetime_library'])
        by_settings.setdefault(key, []).append(i)
    batch.toolchain.tz.result()
    jobs = []
    for j, some in enumerate(by_settings.values()):
        # those with the most types
        some = sorted(
            some[:12],
            key=lambda i: -len({t.kind for t in batch.schemas[i].types()}))
        for k, i in enumerate(some[:2]):
            jobs.append(
                (i, (('g++', 'clang++')[(j + k) % 2],
                     ('types.h', 'parse.h', 'jsoncpp.h')[(j + k) % 3])))

    def job(args):
        i, kind = args
        try:
            separate(batch, i, kind)
        except Violation as err:
            return i, kind, str(err)
        return None

    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        results = list(pool.map(job, jobs))
    rec.count('schemas compiled as separate files and linked', len(jobs))
    return [r for r in results if r is not None]


# ---------------------------------------------------------------------------
# The checks
# ---------------------------------------------------------------------------

# (schemas in a batch, seconds of the thorough tier)
SIZES = {'go': (400, 620), 'cpp': (144, 560)}

RULES = {
    'C11': 'a schema with at least two properties',
    'C12': 'a distinct pair of a schema and a valid, non-empty document',
    'C13': 'a distinct pair of a schema and a non-empty invalid document',
    'C14': 'a distinct pair of a schema and a valid, non-empty document',
    'C15': 'a schema with at least two properties',
    'C16': 'a distinct pair of a schema and a valid, non-empty document',
    'C17': 'a distinct pair of a schema and a non-empty invalid document',
    'C18': 'a distinct pair of a schema and a valid, non-empty document'
}

ASSUMPTIONS = {
    'go': ('the Go tool chain and encoding/json are right', ),
    'cpp': (
        'clang, libstdc++, Boost and date.h are right',
        'cppshim/json/json.h behaves as jsoncpp (the library is not installed)',
        'automatic variables are zero (-ftrivial-auto-var-init=zero), see the '
        'known findings', 'date.h is compiled with ONLY_C_LOCALE')
}


def check(prop, ctx):
    """Run the check."""
    lang = Language(LANGS[prop])
    toolchain = lang.toolchain(ctx.scratch)
    size, seconds = SIZES[lang.name]
    seed = ctx.seed * 7919 + int(prop[1:])
    failures = []
    try:
        known.probe(ctx, toolchain)
        round_number = 0
        while True:
            per = (size + runner.WORKERS - 1) // runner.WORKERS
            parts = runner.parallel(
                make_cases,
                [(prop, (seed * 100 + round_number) * 10 + shard, per)
                 for shard in range(runner.WORKERS)], ctx.scratch)
            cases = []
            for j in range(per):
                for part in parts:
                    cases.append(part[j])
            failures = run_batch(prop, lang, toolchain, cases, ctx.rec)
            round_number += 1
            if failures or ctx.elapsed() > (45 if ctx.quick else seconds) or (
                    ctx.quick and round_number >= 3):
                break
            if not ctx.quick and lang.name == 'cpp' and round_number == 1:
                # look for undefined behaviour, too
                toolchain.close()
                toolchain = lang.toolchain(ctx.scratch, sanitize=True)
                size = 64
        ctx.rec.count('batches', round_number)
        by_kind = collections.OrderedDict()
        failures.sort(key=lambda f: len(runner.dumps(f['case'])))
        for failure in failures:
            by_kind.setdefault(reduce.kind_of(failure['message']), failure)
        evaluator = Evaluator(prop, toolchain)
        for failure in list(by_kind.values())[:3]:
            case, message = reduce.reduce(
                failure['case'], failure['message'], evaluator,
                60 if lang.name == 'cpp' else 40)
            ctx.rec.fail(message, case)
        evaluator.close()
    finally:
        toolchain.close()
    return runner.finish(
        ctx, RULES[prop], ASSUMPTIONS[lang.name], {
            'reduction': 'failing cases are reduced by mv/reduce.py'
        })


def replay(prop, failure, scratch):
    """Replay a failure; give the message or None."""
    lang = Language(LANGS[prop])
    toolchain = lang.toolchain(scratch)
    evaluator = Evaluator(prop, toolchain)
    try:
        return evaluator([failure['case']])[0]
    finally:
        evaluator.close()
        toolchain.close()
