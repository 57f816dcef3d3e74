"""Generate Python code with mapry, load it and run it."""
import collections
import contextlib
import datetime
import importlib
import io
import json
import os
import pathlib
import shutil
import sys
import tempfile

from . import model


class Refused(Exception):
    """mapry refused the schema."""

    def __init__(self, message):
        super().__init__(message)
        self.message = message


class Crashed(Refused):
    """mapry did not refuse the schema, but raised an exception."""


def write_schema(mapping, path):
    """Write the schema file."""
    with open(str(path), 'wt', encoding='utf-8') as fid:
        json.dump(mapping, fid, indent=1)


def load_schema(path):
    """Read the schema with mapry."""
    import mapry.parse
    import mapry.validation
    try:
        return mapry.parse.schema_from_json_file(pathlib.Path(str(path)))
    except mapry.validation.SchemaError as err:
        raise Refused('schema: {}'.format(err))


def generate(lang, mapping, outdir, schema_path=None):
    """Generate the code in-process; raise Refused if mapry refuses the schema."""
    import mapry.main
    if schema_path is None:
        schema_path = os.path.join(str(outdir), '..schema.json')
        write_schema(mapping, schema_path)
        remove = True
    else:
        remove = False
    try:
        schema = load_schema(schema_path)
    finally:
        if remove:
            os.unlink(schema_path)
    out, err = io.StringIO(), io.StringIO()
    func = {
        'py': mapry.main.generate_py,
        'go': mapry.main.generate_go,
        'cpp': mapry.main.generate_cpp
    }[lang]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            code = func(schema=schema, outdir=pathlib.Path(str(outdir)))
    except Exception as exc:  # pylint: disable=broad-except
        raise Crashed('{}: the generator raised {}: {}'.format(
            lang, type(exc).__name__, exc))
    if code != 0:
        raise Refused('{}: {}'.format(lang, err.getvalue()))


class Package:
    """Loaded generated Python package."""

    def __init__(self, mapping, root=None):
        self.schema = model.Schema(mapping)
        self.own = root is None
        self.root = root or tempfile.mkdtemp(prefix='mvpy')
        self.module_name = mapping['py']['module_name']
        self.outdir = os.path.join(self.root, *self.module_name.split('.'))
        os.makedirs(self.outdir)
        generate('py', mapping, self.outdir)
        self.load()

    def load(self):
        top = self.module_name.split('.')[0]
        for name in list(sys.modules):
            if name == top or name.startswith(top + '.'):
                del sys.modules[name]
        importlib.invalidate_caches()
        sys.path_importer_cache.pop(self.root, None)
        sys.path.insert(0, self.root)
        try:
            self.types = importlib.import_module(self.module_name)
            self.parse = importlib.import_module(self.module_name + '.parse')
            self.fromjsonable = importlib.import_module(
                self.module_name + '.fromjsonable')
            self.tojsonable = importlib.import_module(
                self.module_name + '.tojsonable')
        finally:
            sys.path.remove(self.root)

    def close(self):
        top = self.module_name.split('.')[0]
        for name in list(sys.modules):
            if name == top or name.startswith(top + '.'):
                del sys.modules[name]
        if self.own:
            shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    # -- behaviour -------------------------------------------------------

    def read(self, doc, ref='doc#', cap=1000000):
        """Parse the document; give (graph, [(ref, message)])."""
        errors = self.parse.Errors(cap)
        func = getattr(
            self.fromjsonable, '{}_from'.format(self.schema.graph.name.lower()))
        graph = func(doc, ref, errors)
        return graph, [(e.ref, e.message) for e in errors.values()], errors

    def write(self, graph, ordered=False):
        """Serialize the graph."""
        func = getattr(
            self.tojsonable,
            'serialize_{}'.format(self.schema.graph.name.lower()))
        if ordered:
            return func(graph, ordered=True)
        return func(graph)

    def content(self, graph):
        """Give the canonical content of a graph."""
        return Dumper(self, graph).dump()


class Mismatch(AssertionError):
    """The object graph is not of the promised form."""


class Dumper:
    """Dump the object graph to the canonical content."""

    def __init__(self, package, graph):
        self.package = package
        self.schema = package.schema
        self.graph = graph
        self.py = self.schema.py

    def expect(self, cond, what, *args):
        if not cond:
            raise Mismatch(what.format(*args))

    def composite_class(self, comp):
        return getattr(self.package.types, model.ucamel(comp.name))

    def dump(self):
        self.expect(
            type(self.graph) is self.composite_class(self.schema.graph),
            'the graph is a {}', type(self.graph))
        registries = collections.OrderedDict()
        for cls in self.schema.classes.values():
            registry = getattr(self.graph, cls.plural.lower())
            self.expect(
                isinstance(registry, dict), 'registry {} is {}', cls.plural,
                type(registry))
            registries[cls.name] = collections.OrderedDict()
            for an_id, instance in registry.items():
                self.expect(
                    type(instance) is self.composite_class(cls),
                    'instance of {} is {}', cls.name, type(instance))
                self.expect(
                    instance.id == an_id, 'instance {!r} has ID {!r}', an_id,
                    instance.id)
                registries[cls.name][an_id] = self.props(cls, instance)
        return {
            'registries': registries,
            'properties': self.props(self.schema.graph, self.graph)
        }

    def props(self, comp, obj):
        result = collections.OrderedDict()
        for prop in comp.props:
            value = getattr(obj, prop.name.lower())
            if prop.optional and value is None:
                result[prop.name] = None
            else:
                result[prop.name] = self.value(
                    prop.type, value, '{}.{}'.format(comp.name, prop.name))
        return result

    def value(self, typ, value, where):
        kind = typ.kind

        def is_type(cls):
            self.expect(
                type(value) is cls, '{} is {}, not {}', where, type(value), cls)

        if kind == 'boolean':
            is_type(bool)
            return value
        if kind == 'integer':
            is_type(int)
            return value
        if kind == 'float':
            is_type(float)
            return model.float_hex(value)
        if kind == 'string':
            is_type(str)
            return value
        if kind == 'path':
            if self.py['path_as'] == 'pathlib.Path':
                import pathlib
                self.expect(
                    isinstance(value, pathlib.PurePath), '{} is {}', where,
                    type(value))
                return str(value)
            is_type(str)
            return value
        if kind == 'date':
            is_type(datetime.date)
            return value.isoformat()
        if kind == 'time':
            is_type(datetime.time)
            return value.isoformat()
        if kind == 'datetime':
            is_type(datetime.datetime)
            return value.isoformat()
        if kind == 'time_zone':
            if self.py['timezone_as'] == 'str':
                is_type(str)
                return value
            self.expect(
                isinstance(value, datetime.tzinfo), '{} is {}', where,
                type(value))
            return str(value)
        if kind == 'duration':
            is_type(datetime.timedelta)
            return (
                (value.days * 86400 + value.seconds) * 10**6 +
                value.microseconds) * 1000
        if kind == 'array':
            is_type(list)
            return [
                self.value(typ.values, item, where + '[]') for item in value
            ]
        if kind == 'map':
            self.expect(isinstance(value, dict), '{} is {}', where, type(value))
            return collections.OrderedDict(
                (k, self.value(typ.values, v, where + '[]'))
                for k, v in value.items())
        if kind == 'class':
            cls = self.schema.classes[typ.name]
            is_type(self.composite_class(cls))
            registry = getattr(self.graph, cls.plural.lower())
            self.expect(
                registry.get(value.id) is value,
                '{} is not the registered instance {!r}', where, value.id)
            return model.Ref(typ.name, value.id)
        if kind == 'embed':
            embed = self.schema.embeds[typ.name]
            is_type(self.composite_class(embed))
            return self.props(embed, value)
        raise AssertionError(kind)
