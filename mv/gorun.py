"""Generate Go code with mapry, compile it and run it in batches."""
import collections
import datetime
import json
import os
import re
import select
import shutil
import subprocess
import tempfile
import time

import mv

from . import model, pyrun

SHIM = os.path.join(mv.VERIF, 'goshim', 'mvrt.go')
GO = shutil.which('go') or '/usr/local/bin/go'
STD = [
    'encoding/json', 'fmt', 'os', 'reflect', 'sort', 'strconv', 'bufio',
    'bytes', 'time', 'regexp', 'strings', 'errors', 'math', 'testing'
]


class ToolchainError(Exception):
    """The harness failed."""


class Toolchain:
    """Provide the environment of the Go tool."""

    def __init__(self, scratch):
        self.folder = tempfile.mkdtemp(prefix='gotool', dir=scratch)
        self.env = dict(os.environ)
        for key in list(self.env):
            if key.startswith('GO'):
                del self.env[key]
        self.env.update({
            'GOPROXY': 'off',
            'GOTOOLCHAIN': 'local',
            'GO111MODULE': 'off',
            'GOTELEMETRY': 'off',
            'GOFLAGS': '',
            'GOENV': 'off',
            'CGO_ENABLED': '0',
            'HOME': self.folder,
            'GOCACHE': os.path.join(self.folder, 'cache'),
            'GOTMPDIR': self.folder,
            'TMPDIR': self.folder
        })
        self.path = os.path.join(self.folder, 'path')
        runtime = os.path.join(self.path, 'src', 'mvgo', 'mvrt')
        os.makedirs(runtime)
        shutil.copy(SHIM, runtime)
        # compile what is shared while the cases are generated
        self.warm = subprocess.Popen(
            [GO, 'build', 'mvgo/mvrt', 'regexp', 'testing'],
            cwd=self.folder,
            env=dict(self.env, GOPATH=self.path),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL)

    def run(self, args, gopath, cwd=None, timeout=600):
        """Run the Go tool; give (exit code, output)."""
        self.warm.wait()
        try:
            proc = subprocess.run(
                [GO] + args,
                cwd=cwd or gopath,
                env=dict(self.env, GOPATH=gopath + os.pathsep + self.path),
                stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                timeout=timeout)
        except subprocess.TimeoutExpired:
            return -1, 'timed out'
        return proc.returncode, proc.stdout.decode('utf-8', 'replace')

    def close(self):
        """Remove the files."""
        self.warm.wait()
        shutil.rmtree(self.folder, ignore_errors=True)


def type_repr(package, typ):
    """Give the documented Go type."""
    kind = typ.kind
    if kind == 'array':
        return '[]' + type_repr(package, typ.values)
    if kind == 'map':
        return 'map[string]' + type_repr(package, typ.values)
    if kind == 'class':
        return '*{}.{}'.format(package, model.ucamel(typ.name))
    if kind == 'embed':
        return '{}.{}'.format(package, model.ucamel(typ.name))
    return {
        'boolean': 'bool',
        'integer': 'int64',
        'float': 'float64',
        'string': 'string',
        'path': 'string',
        'date': 'time.Time',
        'datetime': 'time.Time',
        'time': 'time.Time',
        'time_zone': '*time.Location',
        'duration': 'time.Duration'
    }[kind]


def fields(schema, comp):
    """Give the documented fields of a structure as a mapping."""
    package = schema.go['package']
    result = {}
    if comp.kind == 'class':
        result['ID'] = 'string'
    if comp.kind == 'graph':
        for cls in schema.classes.values():
            result[model.ucamel(cls.plural)] = 'map[string]*{}.{}'.format(
                package, model.ucamel(cls.name))
    for prop in comp.props:
        text = type_repr(package, prop.type)
        if prop.optional and prop.type.kind not in (
                'array', 'map', 'class', 'time_zone'):
            text = '*' + text
        result[model.ucamel(prop.name)] = text
    return result


def driver(number, schema):
    """Generate the code which registers a case."""
    graph = model.ucamel(schema.graph.name)
    structs = '\n'.join(
        '\t\t\t"{}": reflect.TypeOf(p{}.{}{{}}),'.format(
            comp.name, number, model.ucamel(comp.name))
        for comp in schema.composites())
    return '''\
package main

import (
	"reflect"

	p{n} "mvgo/c{n}"
	"mvgo/mvrt"
)

func init() {{
	result := func(errors *p{n}.Errors) (r mvrt.Result) {{
		for _, err := range errors.Values() {{
			r.Errs = append(r.Errs, mvrt.Err{{Ref: err.Ref, Message: err.Message}})
		}}
		r.Full, r.Empty = errors.Full(), errors.Empty()
		return
	}}
	mvrt.Register({n}, &mvrt.Case{{
		New: func() interface{{}} {{ return &p{n}.{graph}{{}} }},
		Read: func(value interface{{}}, ref string, target interface{{}}, cap uint64) mvrt.Result {{
			errors := p{n}.NewErrors(cap)
			p{n}.{graph}FromJSONable(value, ref, target.(*p{n}.{graph}), errors)
			return result(errors)
		}},
		Write: func(instance interface{{}}) (map[string]interface{{}}, error) {{
			return p{n}.{graph}ToJSONable(instance.(*p{n}.{graph}))
		}},
		Contract: func(value interface{{}}, which string) mvrt.Result {{
			errors := p{n}.NewErrors(0)
			target := &p{n}.{graph}{{}}
			switch which {{
			case "null":
				errors = nil
			case "filled":
				errors.Add("x", "y")
			case "target":
				target = nil
			}}
			p{n}.{graph}FromJSONable(value, "ref", target, errors)
			return mvrt.Result{{}}
		}},
		Structs: map[string]reflect.Type{{
{structs}
		}},
		Classes: []string{{{classes}}},
		Registries: []string{{{registries}}},
	}})
}}
'''.format(
        n=number,
        graph=graph,
        structs=structs,
        classes=', '.join('"{}"'.format(c) for c in schema.classes),
        registries=', '.join(
            '"{}"'.format(model.ucamel(c.plural))
            for c in schema.classes.values()))


_BLOCK_RE = re.compile(r'^# (\S+)(?: \[[^\]]*\])?$')
_FILE_RE = re.compile(r'\bc([0-9]+)/[a-z_]+\.go:')


class Batch:
    """Compile and run several schemas; ``status[i]`` is 'ok', 'refused' or 'compile'."""

    def __init__(self, mappings, toolchain, tests=False, folder=None):
        self.toolchain = toolchain
        self.folder = tempfile.mkdtemp(
            prefix='gobatch', dir=folder or os.path.dirname(toolchain.folder))
        self.mappings = mappings
        self.schemas = [model.Schema(m) for m in mappings]
        self.status = []
        self.message = []
        self.process = None
        root = os.path.join(self.folder, 'src', 'mvgo')
        for i, mapping in enumerate(self.mappings):
            outdir = os.path.join(root, 'c{}'.format(i))
            os.makedirs(outdir)
            try:
                pyrun.generate('go', mapping, outdir)
            except pyrun.Refused as err:
                self.status.append('refused')
                self.message.append(err.message)
                shutil.rmtree(outdir)
            else:
                self.status.append('ok')
                self.message.append('')
        self._compile()
        if tests:
            self._vet()
        self.binary = os.path.join(self.folder, 'driver')
        numbers = [i for i, s in enumerate(self.status) if s == 'ok']
        main = os.path.join(root, 'main')
        os.makedirs(main)
        for i in numbers:
            with open(os.path.join(main, 'case{}.go'.format(i)), 'wt') as fid:
                fid.write(driver(i, self.schemas[i]))
        with open(os.path.join(main, 'main.go'), 'wt') as fid:
            fid.write(
                'package main\n\nimport "mvgo/mvrt"\n\n'
                'func main() { mvrt.Main() }\n')
        code, out = toolchain.run(
            [
                'build', '-ldflags=-s -w', '-gcflags=-e', '-o', self.binary,
                'mvgo/main'
            ], self.folder)
        if code != 0:
            # the driver does not compile with the package: the interface is not as documented
            self._blame(out)

    def _numbers(self):
        return [i for i, s in enumerate(self.status) if s == 'ok']

    def _compile(self):
        """Compile the packages and mark those which fail."""
        while True:
            numbers = self._numbers()
            if not numbers:
                return
            code, out = self.toolchain.run(
                ['build'] + ['mvgo/c{}'.format(i) for i in numbers],
                self.folder)
            if code == 0:
                return
            if not self._mark(out):
                raise ToolchainError(out[:3000])

    def _vet(self):
        """Check that the packages compile together with their tests."""
        numbers = self._numbers()
        if not numbers:
            return
        code, out = self.toolchain.run(
            ['vet', '-unreachable=false', '-unusedresult'] +
            ['mvgo/c{}'.format(i) for i in numbers], self.folder)
        if code != 0:
            self.vet_output = out
            self._mark(out)

    def _mark(self, out):
        """Mark the packages mentioned in the output."""
        messages = collections.defaultdict(list)
        current = None
        for line in out.splitlines():
            mtch = _BLOCK_RE.match(line)
            if mtch:
                current = None
                name = re.match(r'mvgo/c([0-9]+)\b', mtch.group(1))
                if name:
                    current = int(name.group(1))
                continue
            mtch = _FILE_RE.search(line)
            number = int(mtch.group(1)) if mtch else current
            if number is not None:
                messages[number].append(line[:300])
        for number, lines in messages.items():
            self.status[number] = 'compile'
            self.message[number] = '\n'.join(lines[:8])
        return bool(messages)

    def _blame(self, out):
        found = False
        for line in out.splitlines():
            mtch = re.search(r'\bcase([0-9]+)\.go:', line)
            if mtch:
                number = int(mtch.group(1))
                found = True
                if self.status[number] == 'ok':
                    self.status[number] = 'compile'
                    self.message[number] = 'the interface: ' + line[:300]
        if not found:
            raise ToolchainError(out[:3000])
        root = os.path.join(self.folder, 'src', 'mvgo', 'main')
        for i, status in enumerate(self.status):
            path = os.path.join(root, 'case{}.go'.format(i))
            if status != 'ok' and os.path.exists(path):
                os.unlink(path)
        code, out = self.toolchain.run(
            ['build', '-o', self.binary, 'mvgo/main'], self.folder)
        if code != 0:
            raise ToolchainError(out[:3000])

    def start(self):
        """Start the driver."""
        self.process = subprocess.Popen(
            [self.binary],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            env=dict(self.toolchain.env, GOMAXPROCS='2'),
            cwd=self.folder)

    def request(self, request, timeout=20):
        """Run a request; give the answer, with 'died' or 'hung' if the driver did not answer."""
        if self.process is None:
            self.start()
        data = (json.dumps(request, ensure_ascii=True) + '\n').encode()
        try:
            self.process.stdin.write(data)
            self.process.stdin.flush()
        except BrokenPipeError:
            pass
        deadline = time.monotonic() + timeout
        buf = b''
        fd = self.process.stdout.fileno()
        while not buf.endswith(b'\n'):
            ready, _, _ = select.select([fd], [], [],
                                        max(0, deadline - time.monotonic()))
            if not ready:
                self.stop()
                return {'hung': True}
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                code = self.process.wait()
                self.process = None
                return {'died': code}
            buf += chunk
        return json.loads(
            buf.decode('utf-8', 'surrogateescape'),
            object_pairs_hook=collections.OrderedDict)

    def parse(self, number, doc, ref='doc#', cap=0, write=False, foreign=None):
        """Parse a document."""
        request = {
            'case': number,
            'op': 'parse',
            'doc': doc,
            'ref': ref,
            'cap': cap,
            'write': write
        }
        if foreign is not None:
            request['foreign'] = foreign
        return self.request(request)

    def stop(self):
        """Stop the driver."""
        if self.process is not None:
            self.process.kill()
            self.process.wait()
            for pipe in (self.process.stdin, self.process.stdout):
                try:
                    pipe.close()
                except OSError:
                    pass
            self.process = None

    def close(self):
        """Clean up."""
        self.stop()
        shutil.rmtree(self.folder, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class Content:
    """Translate the dumped content to the canonical one."""

    def __init__(self, schema):
        self.schema = schema

    def graph(self, dumped):
        registries = collections.OrderedDict()
        for cls in self.schema.classes.values():
            registries[cls.name] = collections.OrderedDict()
            for an_id, item in dumped['registries'][cls.name].items():
                if item is None or item['id'] != an_id:
                    raise pyrun.Mismatch(
                        'instance {!r} of {} is registered as {!r}'.format(
                            item and item['id'], cls.name, an_id))
                registries[cls.name][an_id] = self.props(cls, item['props'])
        return {
            'registries': registries,
            'properties': self.props(self.schema.graph, dumped['properties'])
        }

    def props(self, comp, dumped):
        result = collections.OrderedDict()
        for prop in comp.props:
            value = dumped[model.ucamel(prop.name)]
            if value is None and prop.optional:
                result[prop.name] = None
            else:
                result[prop.name] = self.value(prop.type, value)
        return result

    def value(self, typ, value):
        kind = typ.kind
        if value is None:
            raise pyrun.Mismatch('nil in place of {}'.format(kind))
        if kind == 'float':
            return float.fromhex(value).hex()
        if kind in ('date', 'time', 'datetime'):
            year, month, day, hour, minute, second, nano, offset = value[
                'time']
            if nano != 0 or offset != 0:
                raise pyrun.Mismatch('bad time {}'.format(value))
            if kind == 'time':
                return datetime.time(hour, minute, second).isoformat()
            if kind == 'date':
                if (hour, minute, second) != (0, 0, 0):
                    raise pyrun.Mismatch('bad date {}'.format(value))
                return '{:04d}-{:02d}-{:02d}'.format(year, month, day)
            try:
                return datetime.datetime(
                    year, month, day, hour, minute, second).isoformat()
            except ValueError:
                return 'year {} {}'.format(year, value)
        if kind == 'array':
            return [self.value(typ.values, item) for item in value]
        if kind == 'map':
            return collections.OrderedDict(
                (k, self.value(typ.values, v)) for k, v in value.items())
        if kind == 'class':
            if '$foreign' in value:
                raise pyrun.Mismatch(
                    'the reference is not to the registered instance: {}'.
                    format(value))
            return model.Ref(typ.name, value['$id'])
        if kind == 'embed':
            return self.props(self.schema.embeds[typ.name], value)
        return value


def check_fields(schema, answer):
    """Compare the fields with the documented ones; give a complaint or None."""
    for comp in schema.composites():
        got = dict((n, t) for n, t in answer['structs'][comp.name])
        want = fields(schema, comp)
        if got != want:
            return 'fields of {}: {} in place of {}'.format(
                comp.name,
                sorted(set(got.items()) - set(want.items())),
                sorted(set(want.items()) - set(got.items())))
    return None
