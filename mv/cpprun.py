"""Generate C++ code with mapry, compile it and run it in batches."""
import collections
import concurrent.futures
import json
import os
import re
import select
import shutil
import subprocess
import tempfile
import time

import mv

from . import model, pyrun

SHIM = os.path.join(mv.VERIF, 'cppshim')
DATE = os.path.join(
    mv.REPO, 'test_dependencies', 'cpp', 'date-2.4.1')
INCLUDES = [
    '-I' + SHIM, '-isystem' + os.path.join(DATE, 'include'),
    '-isystem' + os.path.join(
        mv.REPO, 'test_dependencies', 'cpp', 'optional', 'include')
]
# The automatic variables which the generated code does not initialize are set to zero so that the
# runs are reproducible (see the known findings).
# The C++ library installed here reads %p differently than date.h 2.4 expects; with ONLY_C_LOCALE
# date.h does not rely on it.
FLAGS = [
    '-std=c++17', '-w', '-O0', '-DONLY_C_LOCALE=1'
]
LIBS = ['-lboost_filesystem', '-lboost_system', '-lpthread']


def run(command, timeout=300):
    """Run the command; give (exit code, output)."""
    try:
        proc = subprocess.run(
            command,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL,
            timeout=timeout)
    except subprocess.TimeoutExpired:
        return -1, 'timed out: {}'.format(command)
    return proc.returncode, proc.stdout.decode('utf-8', 'replace')


def brief(text, lines=14, width=240):
    """Shorten the output of a compiler."""
    picked = [l[:width] for l in text.splitlines() if l.strip()]
    errors = [i for i, l in enumerate(picked) if 'error' in l]
    start = errors[0] if errors else 0
    return '\n'.join(picked[start:start + lines])


class ToolchainError(Exception):
    """The harness failed."""


class Toolchain:
    """Compile the parts which are shared between the batches."""

    def __init__(self, scratch, sanitize=False, init='zero'):
        self.folder = tempfile.mkdtemp(prefix='cpptool', dir=scratch)
        self.sanitize = sanitize
        self.flags = FLAGS + ['-ftrivial-auto-var-init=' + init]
        if sanitize:
            self.flags += [
                '-g1', '-fsanitize=address,undefined',
                '-fno-sanitize-recover=undefined', '-fno-sanitize=function'
            ]
        self.pch = os.path.join(self.folder, 'mvheavy.pch')
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.future = self.pool.submit(self._pch)
        self.tz = self.pool.submit(
            self._must, [
                'clang++'
            ] + self.flags + INCLUDES + [
                '-DUSE_OS_TZDB=1', '-DHAS_REMOTE_API=0', '-c',
                os.path.join(DATE, 'src', 'tz.cpp'), '-o',
                os.path.join(self.folder, 'tz.o')
            ])

    @staticmethod
    def _must(command):
        code, out = run(command)
        if code != 0:
            raise ToolchainError('{}\n{}'.format(command, out[:3000]))

    def _pch(self):
        self._must(
            ['clang++'] + self.flags + INCLUDES + [
                '-Xclang', '-fpch-instantiate-templates', '-Xclang',
                '-fpch-codegen', '-x', 'c++-header',
                os.path.join(SHIM, 'mvheavy.h'), '-o', self.pch
            ])
        self.heavy = self.pool.submit(self._heavy)

    def _heavy(self):
        self._must(
            ['clang++'] + self.flags +
            ['-c', self.pch, '-o',
             os.path.join(self.folder, 'heavy.o')])
        main = os.path.join(self.folder, 'main.cpp')
        with open(main, 'wt') as fid:
            fid.write('int main() { return mv::run(); }\n')
        self._must(
            ['clang++'] + self.flags + INCLUDES + [
                '-include-pch', self.pch, '-c', main, '-o',
                os.path.join(self.folder, 'main.o')
            ])

    def compile(self, source, target):
        """Compile against the precompiled header; give (exit code, output)."""
        self.future.result()
        return run(
            ['clang++'] + self.flags + INCLUDES + [
                '-ferror-limit=3', '-include-pch', self.pch, '-c', source, '-o',
                target
            ])

    def link(self, objects, target):
        """Link the driver."""
        self.future.result()
        self.heavy.result()
        self.tz.result()
        self._must(
            ['clang++'] + self.flags + ['-fuse-ld=lld'] + objects + [
                os.path.join(self.folder, name)
                for name in ('main.o', 'heavy.o', 'tz.o')
            ] + ['-o', target] + LIBS)

    def close(self):
        """Remove the files."""
        self.pool.shutdown()
        shutil.rmtree(self.folder, ignore_errors=True)


# ---------------------------------------------------------------------------
# Names and types
# ---------------------------------------------------------------------------


def numbered(mapping, number):
    """Make the namespace unique so that several schemas can be linked together."""
    mapping = collections.OrderedDict(mapping)
    cpp = collections.OrderedDict(mapping['cpp'])
    first, sep, rest = cpp['namespace'].partition('::')
    cpp['namespace'] = 'mvns{}{}{}'.format(number, sep, rest)
    mapping['cpp'] = cpp
    return mapping


def generate(mapping, outdir):
    """Generate the code; raise ``pyrun.Refused``."""
    os.makedirs(outdir)
    pyrun.generate('cpp', mapping, outdir)


def type_repr(schema, namespace, typ):
    """Give the documented C++ type."""
    cpp = schema.cpp
    kind = typ.kind
    with_date = cpp['datetime_library'] == 'date.h'
    if kind == 'array':
        return 'std::vector<{}>'.format(
            type_repr(schema, namespace, typ.values))
    if kind == 'map':
        return 'std::map<std::string, {}>'.format(
            type_repr(schema, namespace, typ.values))
    if kind == 'class':
        return '{}::{}*'.format(namespace, model.ucamel(typ.name))
    if kind == 'embed':
        return '{}::{}'.format(namespace, model.ucamel(typ.name))
    return {
        'boolean': 'bool',
        'integer': 'int64_t',
        'float': 'double',
        'string': 'std::string',
        'path': cpp['path_as'],
        'date': 'date::local_days' if with_date else 'std::tm',
        'datetime': 'date::local_seconds' if with_date else 'std::tm',
        'time': 'date::time_of_day<std::chrono::seconds>'
                if with_date else 'std::tm',
        'time_zone': 'const date::time_zone*' if with_date else 'std::string',
        'duration': 'std::chrono::nanoseconds'
    }[kind]


def c_str(text):
    """Write a C++ literal."""
    out = []
    for byte in text.encode('utf-8'):
        char = chr(byte)
        if char in '"\\?' or byte < 32 or byte > 126:
            out.append('\\{:03o}'.format(byte))
        else:
            out.append(char)
    return '"{}"'.format(''.join(out))


def driver(number, mapping):
    """Generate the driver of a case."""
    schema = model.Schema(mapping)
    space = '::' + schema.cpp['namespace']
    graph = schema.graph
    graph_type = '{}::{}'.format(space, model.ucamel(graph.name))
    low = graph.name.lower()
    out = [
        '#include "c{}/jsoncpp.cpp"'.format(number),
        '#include "c{}/parse.cpp"'.format(number)
    ]
    holder = 'mvcase{}'.format(number)
    out.append('namespace {} {{'.format(holder))
    out.append('static const {}* graph = nullptr;'.format(graph_type))
    out.append('}')

    out.append('namespace mv {')
    for comp in schema.composites():
        name = '{}::{}'.format(space, model.ucamel(comp.name))
        out.append(
            'template <> struct Dump<{0}> {{ static void dump(std::string&, '
            'const {0}&); }};'.format(name))
        if comp.kind == 'class':
            out.append(
                'template <> struct Dump<{0}*> {{ static void dump('
                'std::string& out, {0}* const& value) {{ dump_ref(out, value, '
                '&{1}::graph->{2}); }} }};'.format(
                    name, holder, comp.registry))
    for comp in schema.composites():
        name = '{}::{}'.format(space, model.ucamel(comp.name))
        out.append(
            'void Dump<{0}>::dump(std::string& out, const {0}& value) {{'.
            format(name))
        out.append("  out += '{';")
        for prop in comp.props:
            field = prop.name.lower()
            typ = type_repr(schema, space, prop.type)
            out.append('  key(out, "{}");'.format(prop.name))
            if prop.optional:
                typ = '{}<{}>'.format(schema.cpp['optional_as'], typ)
                out.append('  dump_optional(out, value.{});'.format(field))
            else:
                out.append('  mv::dump(out, value.{});'.format(field))
            out.append(
                '  static_assert(std::is_same<decltype({0}::{1}), {2}>::value,'
                ' "the type of {1}");'.format(name, field, typ))
        out.append("  out += '}';")
        if comp.kind == 'class':
            out.append(
                '  static_assert(std::is_same<decltype({0}::id), std::string>'
                '::value, "the type of the ID");'.format(name))
        out.append('}')
    out.append('}  // namespace mv')

    out.append('namespace {} {{'.format(holder))
    out.append(
        'static void content(std::string& out, const {}& value) {{'.format(
            graph_type))
    out.append('  graph = &value;')
    out.append('  out += "{\\"registries\\":{";')
    for cls in schema.classes.values():
        out.append('  mv::key(out, "{}");'.format(cls.name))
        out.append('  mv::dump_registry(out, value.{});'.format(cls.registry))
        out.append(
            '  static_assert(std::is_same<decltype({}::{}), std::map<'
            'std::string, std::unique_ptr<{}::{}>>>::value, "registry");'.
            format(graph_type, cls.registry, space, model.ucamel(cls.name)))
    out.append('  out += "},\\"properties\\":";')
    out.append('  mv::dump(out, value);')
    out.append("  out += '}';")
    out.append('  graph = nullptr;')
    out.append('}')

    foreign = []
    for i, cls in enumerate(schema.classes.values()):
        foreign.append(
            '  if (which == {i}) {{\n'
            '    auto& registry = value->{plural};\n'
            '    if (registry.empty()) return false;\n'
            '    auto it = registry.begin();\n'
            '    std::advance(it, index % registry.size());\n'
            '    if (move) {{\n'
            '      const std::string key = it->first + suffix;\n'
            '      if (registry.count(key) != 0) return false;\n'
            '      auto instance = std::move(it->second);\n'
            '      registry.erase(it);\n'
            '      registry[key] = std::move(instance);\n'
            '    }} else {{\n'
            '      it->second->id += suffix;\n'
            '    }}\n'
            '    return true;\n'
            '  }}'.format(i=i, plural=cls.registry))
    out.append(
        'static bool foreign({}* value, int64_t which, int64_t index, bool '
        'move, const std::string& suffix) {{\n{}\n  return false;\n}}'.format(
            graph_type, '\n'.join(foreign)))

    out.append(
        '''\
struct Traits {{
  using Graph = {graph};
  using Errors = {space}::parse::Errors;
  static void read(const Json::Value& doc, const std::string& ref, Graph* target, Errors* errors) {{
    {space}::jsoncpp::{low}_from(doc, ref, target, errors);
  }}
  static Json::Value write(const Graph& value) {{
    return {space}::jsoncpp::serialize_{low}(value);
  }}
  static void content(std::string& out, const Graph& value) {{ {holder}::content(out, value); }}
  static bool foreign(Graph* value, int64_t which, int64_t index, bool move,
                      const std::string& suffix) {{
    return {holder}::foreign(value, which, index, move, suffix);
  }}
}};
static mv::Register registered({number}, &mv::handle<Traits>);
}}  // namespace'''.format(
            graph=graph_type,
            space=space,
            low=low,
            holder=holder,
            number=number))
    return '\n'.join(out) + '\n'


# ---------------------------------------------------------------------------
# Batches
# ---------------------------------------------------------------------------


class Batch:
    """Compile and run several schemas; ``status[i]`` is 'ok', 'refused' or 'compile'."""

    def __init__(self, mappings, toolchain, per_unit=4, folder=None):
        self.toolchain = toolchain
        self.folder = tempfile.mkdtemp(
            prefix='cppbatch', dir=folder or os.path.dirname(toolchain.folder))
        self.mappings = [numbered(m, i) for i, m in enumerate(mappings)]
        self.schemas = [model.Schema(m) for m in self.mappings]
        self.status = []
        self.message = []
        self.process = None
        self.lines = None
        for i, mapping in enumerate(self.mappings):
            try:
                generate(mapping, os.path.join(self.folder, 'c{}'.format(i)))
            except pyrun.Refused as err:
                self.status.append('refused')
                self.message.append(err.message)
            else:
                self.status.append('ok')
                self.message.append('')
        numbers = [i for i, s in enumerate(self.status) if s == 'ok']
        units = [
            numbers[i:i + per_unit] for i in range(0, len(numbers), per_unit)
        ]
        objects = []
        for result in toolchain_map(self._compile, units):
            objects.extend(result)
        self.binary = os.path.join(self.folder, 'driver')
        toolchain.link(objects, self.binary)

    def _compile(self, numbers):
        """Compile the cases as a unit, or one by one if it fails."""
        name = 'u{}'.format('_'.join(str(i) for i in numbers))[:60]
        source = os.path.join(self.folder, name + '.cpp')
        target = os.path.join(self.folder, name + '.o')
        with open(source, 'wt', encoding='utf-8') as fid:
            for i in numbers:
                fid.write(driver(i, self.mappings[i]))
        code, out = self.toolchain.compile(source, target)
        if code == 0:
            return [target]
        if len(numbers) == 1:
            self.status[numbers[0]] = 'compile'
            self.message[numbers[0]] = brief(out)
            return []
        result = []
        for i in numbers:
            result.extend(self._compile([i]))
        return result

    def start(self):
        """Start the driver."""
        env = dict(os.environ)
        env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1'
        self.process = subprocess.Popen(
            [self.binary],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.PIPE if self.toolchain.sanitize else
            subprocess.DEVNULL,
            env=env,
            cwd=self.folder)

    def request(self, request, timeout=20):
        """Run a request; give the answer, with 'died' or 'hung' if the driver did not answer."""
        if self.process is None:
            self.start()
        data = (json.dumps(request, ensure_ascii=True) + '\n').encode()
        try:
            self.process.stdin.write(data)
            self.process.stdin.flush()
        except BrokenPipeError:
            pass
        deadline = time.monotonic() + timeout
        buf = b''
        fd = self.process.stdout.fileno()
        while not buf.endswith(b'\n'):
            ready, _, _ = select.select([fd], [], [],
                                        max(0, deadline - time.monotonic()))
            if not ready:
                self.stop()
                return {'hung': True}
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                err = b''
                if self.process.stderr is not None:
                    err = self.process.stderr.read()
                code = self.process.wait()
                self.process = None
                return {
                    'died': code,
                    'stderr': err.decode('utf-8', 'replace')[:2000]
                }
            buf += chunk
        return json.loads(
            buf.decode('utf-8', 'surrogateescape'),
            object_pairs_hook=collections.OrderedDict)

    def parse(self, number, doc, ref='doc#', cap=1000000, write=False,
              foreign=None):
        """Parse a document."""
        request = {
            'n': 0,
            'case': number,
            'op': 'parse',
            'doc': doc,
            'ref': ref,
            'cap': cap,
            'write': write
        }
        if foreign is not None:
            request['foreign'] = foreign
        return self.request(request)

    def stop(self):
        """Stop the driver."""
        if self.process is not None:
            self.process.kill()
            self.process.wait()
            for pipe in (self.process.stdin, self.process.stdout):
                try:
                    pipe.close()
                except OSError:
                    pass
            self.process = None

    def close(self):
        """Clean up."""
        self.stop()
        shutil.rmtree(self.folder, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def toolchain_map(func, items, workers=8):
    """Run in threads."""
    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
        return list(pool.map(func, items))


# ---------------------------------------------------------------------------
# Content
# ---------------------------------------------------------------------------


class Content:
    """Translate the dumped content to the canonical one."""

    def __init__(self, schema):
        self.schema = schema

    def graph(self, dumped):
        registries = collections.OrderedDict()
        for cls in self.schema.classes.values():
            registries[cls.name] = collections.OrderedDict()
            for an_id, item in dumped['registries'][cls.name].items():
                if item is None or item['id'] != an_id:
                    raise pyrun.Mismatch(
                        'instance {!r} of {} is registered as {!r}'.format(
                            item and item['id'], cls.name, an_id))
                registries[cls.name][an_id] = self.props(cls, item['props'])
        return {
            'registries': registries,
            'properties': self.props(self.schema.graph, dumped['properties'])
        }

    def props(self, comp, dumped):
        result = collections.OrderedDict()
        for prop in comp.props:
            value = dumped[prop.name]
            if value is None and prop.optional:
                result[prop.name] = None
            else:
                result[prop.name] = self.value(prop.type, value)
        return result

    def value(self, typ, value):
        import datetime
        kind = typ.kind
        if kind == 'float':
            return float.fromhex(value).hex()
        if kind in ('date', 'time', 'datetime'):
            if 'tm' in value:
                year, month, day, hour, minute, second = value['tm']
                try:
                    if kind == 'date':
                        return datetime.date(year, month, day).isoformat()
                    if kind == 'time':
                        return datetime.time(hour, minute, second).isoformat()
                    return datetime.datetime(
                        year, month, day, hour, minute, second).isoformat()
                except ValueError:
                    raise pyrun.Mismatch('bad tm {}'.format(value))
            if 'date' in value:
                year, month, day = value['date']
                try:
                    return datetime.date(year, month, day).isoformat()
                except ValueError:
                    raise pyrun.Mismatch('bad date {}'.format(value))
            seconds = value['seconds']
            try:
                moment = datetime.datetime(
                    1970, 1, 1) + datetime.timedelta(seconds=seconds)
            except OverflowError:
                raise pyrun.Mismatch('bad date {}'.format(value))
            if kind == 'time':
                if not 0 <= seconds < 86400:
                    raise pyrun.Mismatch('bad time {}'.format(value))
                return moment.time().isoformat()
            return moment.isoformat()
        if kind == 'array':
            return [self.value(typ.values, item) for item in value]
        if kind == 'map':
            return collections.OrderedDict(
                (k, self.value(typ.values, v)) for k, v in value.items())
        if kind == 'class':
            if '$null' in value or '$foreign' in value:
                raise pyrun.Mismatch(
                    'the reference is not to the registered instance: {}'.
                    format(value))
            return model.Ref(typ.name, value['$id'])
        if kind == 'embed':
            return self.props(self.schema.embeds[typ.name], value)
        if kind == 'time_zone' and isinstance(value, dict):
            raise pyrun.Mismatch('no time zone')
        return value
