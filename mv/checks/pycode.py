"""Check the generated Python code."""
import collections
import copy
import importlib
import inspect
import json
import os
import typing

from hypothesis import strategies as st

from .. import gen, known, model, names, pyrun, runner
from ..runner import Violation

OPTIONS = gen.Options(langs=('py', ), weird_names=15)
WIDE = gen.Options(
    langs=('py', ), exotic_json=40, exotic_description=40, wide_formats=True,
    weird_names=40, sparse=35)


def ordered(value):
    """Turn the mappings to ordered dictionaries."""
    if isinstance(value, dict):
        return collections.OrderedDict(
            (k, ordered(v)) for k, v in value.items())
    if isinstance(value, list):
        return [ordered(v) for v in value]
    return value


def plain(value):
    """Turn the mappings to plain dictionaries."""
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    if isinstance(value, list):
        return [plain(v) for v in value]
    return value


def unordered(content):
    """Make the comparison insensitive to the order of keys."""
    return plain(content)


def show(value):
    """Represent for the messages."""
    return json.dumps(
        model.jsonable_content(value), ensure_ascii=True, default=repr)[:1500]


class Guard:
    """Turn unexpected exceptions of the generated code into violations."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        if exc is None or not isinstance(exc, Exception) or isinstance(
                exc, (Violation, runner.HarnessError)):
            return False
        if isinstance(exc, pyrun.Refused):
            raise Violation(
                'mapry refused a well-formed schema: {}'.format(exc.message))
        if isinstance(exc, pyrun.Mismatch):
            raise Violation('{}: {}'.format(self.what, exc))
        raise Violation(
            '{} raised {}: {}'.format(self.what, exc_type.__name__, exc))


def load(mapping):
    """Generate and load the code."""
    with Guard('generating and loading the code'):
        return pyrun.Package(mapping)


def doc_cases(options, valid, faulty, more=None):
    """Generate a schema together with documents."""

    @st.composite
    def strategy(draw):
        d = gen.D(draw)
        maker = gen.SchemaMaker(d, options)
        case = maker.make()
        if d.chance(options.weird_names):
            case = names.weird(d, case, options.langs)
        result = {'mapping': case.mapping}
        docs = [gen.DocMaker(d, case).make() for _ in range(valid)]
        if faulty:
            base = docs or [gen.DocMaker(d, case).make()]
            result['faulty'] = [
                gen.Faults(d, case).make(d.choice(base), 1,
                                         4 if d.chance(30) else 1)
                for _ in range(faulty)
            ]
        result['docs'] = docs
        if more is not None:
            more(d, case, result)
        return result

    return strategy()


def schema_classes(schema, rec):
    """Count the features of a schema."""
    kinds = {t.kind for t in schema.types()}
    for kind in kinds:
        rec.count('schema with ' + kind)
    if any(p.optional for c in schema.composites() for p in c.props):
        rec.count('schema with optional')
    if any(t.values is not None and t.values.values is not None
           for t in schema.types()):
        rec.count('schema with nested containers')
    if any(p.json != p.name for c in schema.composites() for p in c.props):
        rec.count('schema with other JSON names')
    if any(c.id_pattern for c in schema.classes.values()):
        rec.count('schema with ID pattern')


def is_nontrivial(schema):
    """Tell whether the schema has at least two properties or a composite."""
    return sum(len(c.props) for c in schema.composites()) >= 2


# ---------------------------------------------------------------------------
# C06
# ---------------------------------------------------------------------------


def annotation_types(typ, schema):
    """Expected annotation of a type."""
    import datetime
    import pathlib
    kind = typ.kind
    return {
        'boolean': bool,
        'integer': int,
        'float': float,
        'string': str,
        'path': pathlib.Path
                if schema.py['path_as'] == 'pathlib.Path' else str,
        'date': datetime.date,
        'time': datetime.time,
        'datetime': datetime.datetime,
        'time_zone': str
                     if schema.py['timezone_as'] == 'str' else datetime.tzinfo,
        'duration': datetime.timedelta
    }.get(kind)


def check_annotation(typ, schema, hint, types, where):
    """Check the annotation of an argument."""
    origin = typing.get_origin(hint)
    if typ.kind == 'array':
        if origin is not list:
            raise Violation('{} is annotated {}'.format(where, hint))
        check_annotation(
            typ.values, schema,
            typing.get_args(hint)[0], types, where + '[]')
    elif typ.kind == 'map':
        import collections.abc
        if origin is None or not issubclass(
                origin, collections.abc.Mapping) or typing.get_args(
                    hint)[0] is not str:
            raise Violation('{} is annotated {}'.format(where, hint))
        check_annotation(
            typ.values, schema,
            typing.get_args(hint)[1], types, where + '[]')
    else:
        expected = annotation_types(typ, schema)
        if expected is None:
            expected = getattr(types, model.ucamel(typ.name))
        # typing caches references to classes of the same name
        if (getattr(hint, '__module__', None), getattr(
                hint, '__qualname__', hint)) != (
                    expected.__module__, expected.__qualname__):
            raise Violation(
                '{} is annotated {}, not {}'.format(where, hint, expected))


def test_c06(case, rec):
    """Check that the code loads and exposes the interface."""
    mapping = case['mapping']
    schema = model.Schema(mapping)
    for cleanup in getattr(typing, '_cleanups', ()):
        cleanup()  # the references to classes of earlier cases
    with load(mapping) as package:
        schema_classes(schema, rec)
        rec.case(
            mapping if is_nontrivial(schema) else None,
            sample={'schema': mapping})
        files = sorted(os.listdir(package.outdir))
        got = [f for f in files if f.endswith('.py')]
        if got != ['__init__.py', 'fromjsonable.py', 'parse.py',
                   'tojsonable.py']:
            raise Violation('unexpected files: {}'.format(files))
        for name in got:
            path = os.path.join(package.outdir, name)
            with open(path, 'rb') as fid:
                text = fid.read()
            try:
                compile(text, path, 'exec')
            except (SyntaxError, ValueError) as err:
                raise Violation('{} does not compile: {}'.format(name, err))

        with Guard('using the interface'):
            for comp in schema.composites():
                check_interface(schema, package, comp)
            errors = package.parse.Errors(3)
            if not errors.empty() or errors.full() or errors.count() != 0:
                raise Violation('fresh errors are not empty')
            for i in range(5):
                errors.add('r{}'.format(i), 'm{}'.format(i))
            got = [(e.ref, e.message) for e in errors.values()]
            if (got != [('r0', 'm0'), ('r1', 'm1'), ('r2', 'm2')]
                    or errors.empty() or not errors.full()
                    or errors.count() != 3):
                raise Violation('errors misbehave: {}'.format(got))


def check_interface(schema, package, comp):
    """Check the class and the functions of a composite."""
    cls = getattr(package.types, model.ucamel(comp.name))
    low = comp.name.lower()
    params = []
    if cls.__init__ is not object.__init__:
        params = list(inspect.signature(cls.__init__).parameters.values())[1:]
    names = [p.name for p in params]
    expected = [p.name.lower() for p in comp.props]
    required = {p.name.lower() for p in comp.props if not p.optional}
    if comp.kind == 'class':
        expected.append('id')
        required.add('id')
    elif comp.kind == 'graph':
        expected.extend(c.registry for c in schema.classes.values())
    if sorted(names) != sorted(expected):
        raise Violation(
            'arguments of {} are {}, expected {}'.format(
                comp.name, names, expected))
    got_required = {p.name for p in params if p.default is p.empty}
    if got_required != required:
        raise Violation(
            'required arguments of {} are {}, expected {}'.format(
                comp.name, sorted(got_required), sorted(required)))

    hints = {}
    if params:
        hints = typing.get_type_hints(cls.__init__, vars(package.types))
    for prop in comp.props:
        hint = hints[prop.name.lower()]
        if prop.optional:
            args = typing.get_args(hint)
            if len(args) != 2 or args[1] is not type(None):
                raise Violation(
                    '{}.{} is annotated {}'.format(
                        comp.name, prop.name, hint))
            hint = args[0]
        check_annotation(
            prop.type, schema, hint, package.types,
            '{}.{}'.format(comp.name, prop.name))

    values = {name: object() for name in names}
    instance = cls(**values)
    for name, value in values.items():
        if getattr(instance, name) is not value:
            raise Violation(
                'attribute {} of {} is not the given value'.format(
                    name, comp.name))
    instance = cls(**{name: values[name] for name in required})
    for name in expected:
        value = getattr(instance, name)
        if name in required:
            if value is not values[name]:
                raise Violation(
                    'attribute {} of {} is not the given value'.format(
                        name, comp.name))
        elif comp.kind == 'graph' and name in [
                c.registry for c in schema.classes.values()]:
            if not isinstance(value, dict) or value:
                raise Violation(
                    'registry {} of {} is {!r}'.format(name, comp.name, value))
        elif value is not None:
            raise Violation(
                'attribute {} of {} is {!r}, not None'.format(
                    name, comp.name, value))

    func = getattr(package.tojsonable, 'serialize_' + low)
    want = ['instance', 'ordered'] if comp.kind != 'embed' else ['instance']
    params = inspect.signature(func).parameters
    if [p for p in want if p not in params]:
        raise Violation('{} takes {}'.format(func.__name__, list(params)))
    func = getattr(package.fromjsonable, low + '_from')
    params = inspect.signature(func).parameters
    want = ['value', 'ref', 'errors'] + (
        ['id'] if comp.kind == 'class' else [])
    if [p for p in want if p not in params]:
        raise Violation('{} takes {}'.format(func.__name__, list(params)))


def search_c06():
    """Give the search."""

    def strategy(draw):
        return {'mapping': gen.SchemaMaker(gen.D(draw), WIDE).make().mapping}

    return st.composite(strategy)(), test_c06


# ---------------------------------------------------------------------------
# C07
# ---------------------------------------------------------------------------


def expected_content(schema, doc):
    """Give the content of a valid document, None if not valid or not known."""
    parser = model.Parser(schema, 'py', 'doc#')
    try:
        content = parser.graph(doc)
    except model.Unknown:
        return None
    return content


def check_types_of_mappings(value, doc, where):
    """Check that ordered inputs stay ordered."""
    if isinstance(doc, collections.OrderedDict) and not isinstance(
            value, collections.OrderedDict):
        raise Violation('{} is not ordered: {}'.format(where, type(value)))


def test_c07(case, rec):
    """Check that valid documents are parsed exactly."""
    mapping = case['mapping']
    schema = model.Schema(mapping)
    with load(mapping) as package:
        schema_classes(schema, rec)
        for doc in case['docs']:
            for variant in ('plain', 'ordered'):
                doc = ordered(doc) if variant == 'ordered' else plain(doc)
                expected = expected_content(schema, doc)
                if expected is None:
                    rec.count('document without a prediction')
                    continue
                rec.case(
                    [mapping, doc, variant] if len(doc) > 0 else None,
                    sample={'schema': mapping, 'document': doc})
                before = json.dumps(doc)
                with Guard('parsing a valid document'):
                    graph, errors, _ = package.read(doc)
                if graph is None or errors:
                    raise Violation(
                        'a valid document was rejected: {}'.format(errors))
                if json.dumps(doc) != before:
                    raise Violation('the document was changed by parsing')
                with Guard('reading the graph'):
                    got = package.content(graph)
                if variant == 'ordered':
                    same = got == expected
                    for cls in schema.classes.values():
                        if cls.registry in doc:
                            check_types_of_mappings(
                                getattr(graph, cls.registry),
                                doc[cls.registry], cls.registry)
                else:
                    same = unordered(got) == unordered(expected)
                if not same:
                    raise Violation(
                        'the content differs\n got: {}\nwant: {}'.format(
                            show(got), show(expected)))
                check_parts(schema, package, graph, doc, rec)


def call_from(package, comp, graph, value, an_id, errors):
    """Call the function parsing a class or an embeddable structure."""
    func = getattr(package.fromjsonable, comp.name.lower() + '_from')
    kwargs = {'value': value, 'ref': 'part#', 'errors': errors}
    for name in inspect.signature(func).parameters:
        if name.endswith('_registry'):
            kwargs[name] = getattr(graph, name[:-len('_registry')])
    if comp.kind == 'class':
        kwargs['id'] = an_id
    return func(**kwargs)


def check_parts(schema, package, graph, doc, rec):
    """Parse the instances of classes on their own."""
    for cls in schema.classes.values():
        for an_id, value in doc.get(cls.registry, {}).items():
            errors = package.parse.Errors(10)
            with Guard('parsing an instance of ' + cls.name):
                instance = call_from(
                    package, cls, graph, value, an_id, errors)
            if instance is None or not errors.empty():
                raise Violation(
                    'a valid instance of {} was rejected: {}'.format(
                        cls.name,
                        [(e.ref, e.message) for e in errors.values()]))
            dumper = pyrun.Dumper(package, graph)
            with Guard('reading an instance of ' + cls.name):
                got = dumper.props(cls, instance)
                want = dumper.props(cls, getattr(graph, cls.registry)[an_id])
            if instance.id != an_id or unordered(got) != unordered(want):
                raise Violation(
                    'an instance of {} parsed on its own differs\n'
                    ' got: {}\nwant: {}'.format(cls.name, show(got),
                                                show(want)))
            rec.count('instances parsed on their own')
    for prop in schema.graph.props:
        if prop.type.kind == 'embed' and prop.json in doc:
            embed = schema.embeds[prop.type.name]
            errors = package.parse.Errors(10)
            with Guard('parsing ' + embed.name):
                instance = call_from(
                    package, embed, graph, doc[prop.json], None, errors)
            if instance is None or not errors.empty():
                raise Violation(
                    'a valid {} was rejected: {}'.format(
                        embed.name,
                        [(e.ref, e.message) for e in errors.values()]))
            dumper = pyrun.Dumper(package, graph)
            with Guard('reading ' + embed.name):
                got = dumper.props(embed, instance)
                want = dumper.props(
                    embed, getattr(graph, prop.name.lower()))
            if unordered(got) != unordered(want):
                raise Violation(
                    '{} parsed on its own differs\n got: {}\nwant: {}'.format(
                        embed.name, show(got), show(want)))
            rec.count('embeds parsed on their own')


def search_c07():
    """Give the search."""
    return doc_cases(OPTIONS, 3, 0), test_c07


# ---------------------------------------------------------------------------
# C08
# ---------------------------------------------------------------------------


def test_c08(case, rec):
    """Check that invalid documents are rejected at the right places."""
    mapping = case['mapping']
    schema = model.Schema(mapping)
    with load(mapping) as package:
        schema_classes(schema, rec)
        for doc in case['faulty']:
            parser = model.Parser(schema, 'py', 'doc#')
            try:
                expected = parser.graph(doc)
            except model.Unknown as err:
                rec.count('no prediction: {}'.format(err))
                continue
            if expected is not None:
                rec.count('the fault had no effect')
                rec.case()
            else:
                rec.case([mapping, doc],
                         sample={
                             'schema': mapping,
                             'document': doc,
                             'errors': parser.errors
                         })
                for _, kind in parser.errors:
                    rec.count('fault: ' + kind.partition(' ')[0])
            with Guard('parsing'):
                graph, errors, _ = package.read(doc)
            got = sorted(ref for ref, _ in errors)
            want = sorted(ref for ref, _ in parser.errors)
            if got != want:
                raise Violation(
                    'errors at the wrong places\n got: {}\nwant: {}'.format(
                        sorted(errors), sorted(parser.errors)))
            if (graph is None) != (expected is None):
                raise Violation(
                    'got graph {} with errors {}'.format(graph, errors))
            check_messages(schema, parser.errors, errors)


def check_messages(schema, expected, errors):
    """Check that the messages say something and that missing properties are named."""
    for ref, message in errors:
        if not isinstance(message, str) or not message.strip():
            raise Violation('no message at {}'.format(ref))
    missing = collections.defaultdict(list)
    for item in expected:
        ref, kind = item[0], item[1]
        if kind.startswith('missing '):
            missing[ref].append(kind[len('missing '):])
    for ref, names in missing.items():
        messages = [m for r, m in errors if r == ref]
        for name in names:
            if not any(name in message for message in messages):
                raise Violation(
                    'the missing property {!r} is not named at {}: {}'.format(
                        name, ref, messages))


def search_c08():
    """Give the search."""
    return doc_cases(OPTIONS, 1, 5), test_c08


# ---------------------------------------------------------------------------
# C09
# ---------------------------------------------------------------------------


def normalizes_paths(schema):
    """Tell whether pathlib may normalize a path so that its pattern does not match."""
    return schema.py['path_as'] == 'pathlib.Path' and any(
        t.kind == 'path' and t.pattern is not None for t in schema.types())


def check_written(schema, package, graph, expected, rec):
    """Serialize the graph with the given content and read it back."""
    want = model.serialize(schema, expected)
    for is_ordered in (False, True):
        with Guard('serializing'):
            out = package.write(graph, is_ordered)
        with Guard('dumping the serialized graph as JSON'):
            text = json.dumps(out, allow_nan=False)
        got = model.normal_document(schema, out)
        if not model.same_json(got, model.normal_document(schema, want),
                               ordered=is_ordered):
            raise Violation(
                'the serialized document{} differs\n got: {}\nwant: {}'.format(
                    ' (ordered)' if is_ordered else '', show(got),
                    show(model.normal_document(schema, want))))
        if is_ordered and not isinstance(out, collections.OrderedDict):
            raise Violation('the ordered output is {}'.format(type(out)))
        again = json.loads(text, object_pairs_hook=collections.OrderedDict)
        if normalizes_paths(schema) and expected_content(schema,
                                                         again) is None:
            rec.count('a normalized path does not match its pattern')
            continue
        with Guard('parsing the serialized graph'):
            back, errors, _ = package.read(again)
        if back is None:
            raise Violation(
                'the serialized document was rejected: {}'.format(errors))
        with Guard('reading the graph'):
            content = package.content(back)
        if unordered(content) != unordered(expected):
            raise Violation(
                'the content changed in a round trip\n got: {}\nwant: {}'.
                format(show(content), show(expected)))
        rec.count('round trips')


def test_c09(case, rec):
    """Check that serialization inverts parsing."""
    mapping = case['mapping']
    schema = model.Schema(mapping)
    with load(mapping) as package:
        schema_classes(schema, rec)
        for doc, more in zip(case['docs'], case['more']):
            expected = expected_content(schema, doc)
            if expected is None:
                rec.count('document without a prediction')
                continue
            rec.case([mapping, doc] if len(doc) > 0 else None,
                     sample={'schema': mapping, 'document': doc})
            with Guard('parsing'):
                graph, errors, _ = package.read(doc)
            if graph is None:
                raise Violation(
                    'a valid document was rejected: {}'.format(errors))
            check_written(schema, package, graph, expected, rec)

            # Build the graph through the constructors
            with Guard('constructing the graph'):
                built = build(schema, package, expected)
            check_written(schema, package, built, expected, rec)

            # Register an instance under another ID
            choices = [
                (cls, an_id)
                for cls in schema.classes.values()
                for an_id in expected['registries'][cls.name]
            ]
            if choices:
                cls, an_id = choices[more['instance'] % len(choices)]
                registry = getattr(graph, cls.registry)
                if more['how'] == 'key':
                    registry[an_id + more['suffix']] = registry.pop(an_id)
                else:
                    registry[an_id].id = an_id + more['suffix']
                rec.count('foreign IDs')
                try:
                    out = package.write(graph, more['ordered'])
                except Exception as err:  # pylint: disable=broad-except
                    if not isinstance(err, ValueError):
                        raise Violation(
                            'a foreign ID raised {}: {}'.format(
                                type(err).__name__, err))
                else:
                    raise Violation(
                        'an instance of {} registered under a foreign ID was '
                        'serialized: {}'.format(cls.name, show(out)))


def build(schema, package, content):
    """Build the graph from the content through the constructors."""
    import datetime
    import pathlib
    instances = {}
    for cls in schema.classes.values():
        klass = getattr(package.types, model.ucamel(cls.name))
        for an_id in content['registries'][cls.name]:
            instances[(cls.name, an_id)] = klass.__new__(klass)

    def value(typ, val):
        kind = typ.kind
        if kind == 'float':
            return float.fromhex(val)
        if kind == 'path' and schema.py['path_as'] == 'pathlib.Path':
            return pathlib.Path(val)
        if kind == 'date':
            return datetime.date.fromisoformat(val)
        if kind == 'time':
            return datetime.time.fromisoformat(val)
        if kind == 'datetime':
            return datetime.datetime.fromisoformat(val)
        if kind == 'time_zone' and schema.py['timezone_as'] != 'str':
            import pytz
            return pytz.timezone(val)
        if kind == 'duration':
            return datetime.timedelta(microseconds=val // 1000)
        if kind == 'array':
            return [value(typ.values, v) for v in val]
        if kind == 'map':
            return {k: value(typ.values, v) for k, v in val.items()}
        if kind == 'class':
            return instances[(val.cls, val.id)]
        if kind == 'embed':
            return make(schema.embeds[typ.name], val)
        return val

    def arguments(comp, props):
        return {
            prop.name.lower(): value(prop.type, props[prop.name])
            for prop in comp.props
            if not (prop.optional and props[prop.name] is None)
        }

    def make(comp, props):
        return getattr(package.types, model.ucamel(comp.name))(
            **arguments(comp, props))

    registries = {}
    for cls in schema.classes.values():
        klass = getattr(package.types, model.ucamel(cls.name))
        registry = collections.OrderedDict()
        for an_id, props in content['registries'][cls.name].items():
            instance = instances[(cls.name, an_id)]
            klass.__init__(instance, id=an_id, **arguments(cls, props))
            registry[an_id] = instance
        if registry:
            registries[cls.registry] = registry
    return getattr(package.types, model.ucamel(schema.graph.name))(
        **arguments(schema.graph, content['properties']), **registries)


def search_c09():
    """Give the search."""

    def more(d, case, result):
        result['more'] = [{
            'instance': d.int(0, 8),
            'how': d.choice(('key', 'attribute')),
            'suffix': d.choice(('x', ' ', '0')),
            'ordered': d.chance(50)
        } for _ in result['docs']]

    return doc_cases(OPTIONS, 2, 0, more), test_c09


# ---------------------------------------------------------------------------
# C10
# ---------------------------------------------------------------------------


def crash_known(schema, doc):
    """Tell whether the document is excluded due to a known finding."""
    if isinstance(doc, dict):
        for cls in schema.classes.values():
            if cls.registry in doc and doc[cls.registry] is None:
                return True
    return False


def test_c10(case, rec):
    """Check that the parser is total and respects the cap."""
    mapping = case['mapping']
    schema = model.Schema(mapping)
    with load(mapping) as package:
        for doc in case['any']:
            if crash_known(schema, doc):
                rec.count('excluded: null registry (known finding)')
                continue
            full = None
            for cap in [1000] + case['caps']:
                with Guard('parsing any JSON value'):
                    graph, errors, container = package.read(doc, cap=cap)
                if graph is None:
                    if not errors:
                        raise Violation('no graph, but no errors either')
                elif errors:
                    raise Violation('a graph with errors {}'.format(errors))
                if len(errors) > cap:
                    raise Violation(
                        '{} errors with the cap {}'.format(len(errors), cap))
                if container.empty() != (not errors) or container.count(
                ) != len(errors):
                    raise Violation('the container of errors is inconsistent')
                if full is None:
                    full = errors
                    if graph is not None:
                        with Guard('reading the graph'):
                            try:
                                package.content(graph)
                            except pyrun.Mismatch:
                                if not has_bool(doc):
                                    raise
                elif errors != full[:cap]:
                    raise Violation(
                        'with the cap {} got {}, but {} with a large cap'.
                        format(cap, errors, full))
            rec.case([mapping, doc] if full else None,
                     sample={'schema': mapping, 'document': doc,
                             'errors': full})
            rec.count('documents with {} errors'.format(
                str(len(full)) if len(full) < 4 else 'more'))


def has_bool(doc):
    """Tell whether there is a boolean (accepted for numbers, see known findings)."""
    if isinstance(doc, bool):
        return True
    if isinstance(doc, dict):
        return any(has_bool(v) for v in doc.values())
    if isinstance(doc, list):
        return any(has_bool(v) for v in doc)
    return False


def search_c10():
    """Give the search."""
    anything = gen.any_json()

    def more(d, case, result):
        docs = []
        for _ in range(2):
            docs.append(d.draw(anything))
        base = result['docs'][0]
        for _ in range(3):
            doc = gen.Faults(d, case).make(base, 1, 6)
            # put anything at any place
            for _ in range(d.int(0, 3)):
                places = gen.containers(doc)
                if not places:
                    break
                container, key = d.choice(places)
                container[key] = d.draw(anything)
            docs.append(doc)
        if base and isinstance(base, dict):
            doc = copy.deepcopy(base)
            for key in list(doc):
                if d.chance(50):
                    doc[key] = d.draw(anything)
            docs.append(doc)
        result['any'] = docs
        result['caps'] = sorted({d.int(1, 6) for _ in range(2)})

    return doc_cases(OPTIONS, 1, 0, more), test_c10


# ---------------------------------------------------------------------------

SEARCHES = {
    'C06': (
        'c06', 7000, 40000,
        'schemas drawn by structure (all types, nesting, constraints, JSON '
        'names, descriptions, formats, indentions); non-trivial: at least two '
        'properties'),
    'C07': (
        'c07', 7000, 40000,
        'schemas with valid documents drawn along the schema, each read as '
        'plain and as ordered mapping; non-trivial: the document is not empty'),
    'C08': (
        'c08', 7000, 40000,
        'schemas with documents in which one to four faults were injected; '
        'non-trivial: the reference model predicts at least one error'),
    'C09': (
        'c09', 8000, 40000,
        'schemas with graphs which are parsed from valid documents and built '
        'with the constructors; non-trivial: the document is not empty'),
    'C10': (
        'c10', 7000, 40000,
        'schemas with arbitrary JSON values and valid documents with arbitrary '
        'values planted, each with three caps; non-trivial: the parser '
        'reported errors'),
}


def check(prop, ctx):
    """Run the check."""
    search, quick, thorough, rule = SEARCHES[prop]
    known.probe(ctx)
    ctx.search('pycode', 'search_' + search, quick, thorough)
    return runner.finish(
        ctx, rule, [
            'patterns are generated anchored with ^ and $, without line breaks',
            'time zones are drawn from nine zones known to pytz',
            'excluded by construction: see known_findings.json'
        ])


def replay(prop, failure, scratch):
    """Run a single case."""
    test = globals()['test_' + SEARCHES[prop][0]]
    try:
        test(failure['case'], runner.Recorder())
    except Violation as err:
        return str(err)
    return None
