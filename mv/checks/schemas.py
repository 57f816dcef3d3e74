"""Check how schemas are read: C01, C02 and C03."""
import base64
import contextlib
import io
import json
import os
import pathlib
import re
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

import mv
from .. import gen, model, runner, schemagen
from ..runner import Violation

LANGS = ('py', 'go', 'cpp')
FILES = {
    'py': {'__init__.py', 'parse.py', 'fromjsonable.py', 'tojsonable.py'},
    'go': {
        'types.go', 'parse.go', 'from_jsonable.go', 'from_jsonable_test.go',
        'to_jsonable.go', 'to_jsonable_test.go'
    },
    'cpp': {'types.h', 'parse.h', 'parse.cpp', 'jsoncpp.h', 'jsoncpp.cpp'},
}


def fold(value):
    """Give the value as read from a file."""
    return runner.loads(runner.dumps(value))


# ---------------------------------------------------------------------------
# C01
# ---------------------------------------------------------------------------


def expect(condition, message, *args):
    """Raise a violation unless the condition holds."""
    if not condition:
        raise Violation(message.format(*args))


def same(got, want, what):
    """Compare values together with their types."""
    if isinstance(want, str) or want is None or isinstance(want, bool):
        expect(
            got == want and isinstance(got, type(want)),
            '{}: expected {!r}, got {!r}', what, want, got)
    else:
        # numbers
        expect(
            not isinstance(got, bool) and isinstance(got, (int, float))
            and got == want, '{}: expected {!r}, got {!r}', what, want, got)


def compare_pattern(got, text, what):
    """Compare a regular expression."""
    if text is None:
        expect(got is None, '{}: unexpected pattern {!r}', what, got)
        return
    expect(got is not None, '{}: the pattern is lost', what)
    want = re.compile(text)
    expect(
        got.pattern == want.pattern and got.flags == want.flags,
        '{}: expected the pattern {!r}, got {!r}', what, want, got)


def compare_type(got, mapping, graph, what):
    """Compare the parsed type with its definition."""
    import mapry
    kind = mapping['type']
    simple = {
        'boolean': mapry.Boolean,
        'integer': mapry.Integer,
        'float': mapry.Float,
        'string': mapry.String,
        'path': mapry.Path,
        'date': mapry.Date,
        'time': mapry.Time,
        'datetime': mapry.Datetime,
        'time_zone': mapry.TimeZone,
        'duration': mapry.Duration,
        'array': mapry.Array,
        'map': mapry.Map
    }
    if kind not in simple:
        want = graph.classes.get(kind, graph.embeds.get(kind))
        expect(
            got is want, '{}: the type is not the composite {}, but {!r}', what,
            kind, got)
        return
    expect(
        type(got) is simple[kind], '{}: expected the type {}, got {!r}', what,
        kind, type(got))
    if kind in ('integer', 'float'):
        for key in ('minimum', 'maximum'):
            want = mapping.get(key)
            if kind == 'float' and want is not None:
                want = float(want)
                got_value = getattr(got, key)
                if isinstance(got_value, int) and not isinstance(
                        got_value, bool):
                    got_value = float(got_value)
                same(got_value, want, what + '/' + key)
            else:
                same(getattr(got, key), want, what + '/' + key)
        for key in ('exclusive_minimum', 'exclusive_maximum'):
            same(getattr(got, key), mapping.get(key, False), what + '/' + key)
    elif kind in ('string', 'path'):
        compare_pattern(got.pattern, mapping.get('pattern'), what + '/pattern')
    elif kind in ('date', 'time', 'datetime'):
        default = {
            'date': '%Y-%m-%d',
            'time': '%H:%M:%S',
            'datetime': '%Y-%m-%dT%H:%M:%SZ'
        }[kind]
        same(got.format, mapping.get('format', default), what + '/format')
    elif kind in ('array', 'map'):
        if kind == 'array':
            for key in ('minimum_size', 'maximum_size'):
                same(getattr(got, key), mapping.get(key), what + '/' + key)
        compare_type(got.values, mapping['values'], graph, what + '/values')


def compare_properties(got, mapping, composite, graph, ref):
    """Compare the properties of a composite."""
    props = mapping.get('properties', {})
    expect(
        list(got) == list(props), '{}: expected the properties {!r}, got {!r}',
        ref, list(props), list(got))
    for name, prop in props.items():
        what = '{}/{}'.format(ref, name)
        parsed = got[name]
        same(parsed.ref, what, what + ' ref')
        same(parsed.name, name, what + ' name')
        same(parsed.description, prop['description'], what + ' description')
        same(parsed.json, prop.get('json', name), what + ' json')
        same(parsed.optional, prop.get('optional', False), what + ' optional')
        expect(
            parsed.composite is composite,
            '{}: wrong back reference to the composite', what)
        compare_type(parsed.type, prop, graph, what)


def compare_schema(schema, mapping, ref):
    """Compare the parsed schema with its definition."""
    graph = schema.graph
    same(graph.ref, ref, 'graph ref')
    same(graph.name, mapping['name'], 'graph name')
    same(graph.description, mapping['description'], 'graph description')
    for key in ('classes', 'embeds'):
        parsed = getattr(graph, key)
        want = [comp['name'] for comp in mapping.get(key, ())]
        expect(
            list(parsed) == want, 'expected the {} {!r}, got {!r}', key, want,
            list(parsed))
        for i, comp in enumerate(mapping.get(key, ())):
            what = '{}/{}/{}'.format(ref, key, i)
            got = parsed[comp['name']]
            same(got.name, comp['name'], what + ' name')
            same(got.description, comp['description'], what + ' description')
            same(got.ref, what, what + ' ref')
            if key == 'classes':
                same(
                    got.plural, comp.get('plural', model.plural(comp['name'])),
                    what + ' plural')
                compare_pattern(
                    got.id_pattern, comp.get('id_pattern'),
                    what + ' id_pattern')
            compare_properties(got.properties, comp, got, graph, what)
    compare_properties(graph.properties, mapping, graph, graph, ref)

    settings = {
        'py': (('module_name', 'path_as', 'timezone_as'), 4),
        'go': (('package', ), None),
        'cpp': (('namespace', 'path_as', 'optional_as', 'datetime_library'), 2)
    }
    for lang, (keys, indention) in settings.items():
        got = getattr(schema, lang)
        if lang not in mapping:
            expect(got is None, 'unexpected settings of {}', lang)
            continue
        expect(got is not None, 'the settings of {} are lost', lang)
        for key in keys:
            same(
                getattr(got, key), mapping[lang][key],
                '{}/{} {}'.format(ref, lang, key))
        if indention is not None:
            same(
                got.indention, mapping[lang].get('indention', ' ' * indention),
                '{}/{} indention'.format(ref, lang))


def encodings(mapping, how):
    """Encode the schema in one of the ways."""
    kwargs = [{}, {
        'indent': 2
    }, {
        'ensure_ascii': False
    }, {
        'indent': '\t',
        'ensure_ascii': False
    }, {
        'separators': (',', ':')
    }][how]
    text = json.dumps(mapping, **kwargs)
    if how == 1:
        text = '\r\n' + text.replace('\n', '\r\n') + '\r\n'
    return text.encode('utf-8')


def read(source):
    """Read the file or the mapping."""
    import mapry.parse
    with Guard('reading the schema'):
        if isinstance(source, pathlib.Path):
            return mapry.parse.schema_from_json_file(source)
        return mapry.parse.schema_from_mapping(source, 'some ref')


class Guard:
    """Turn exceptions into violations."""

    def __init__(self, what):
        self.what = what

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        if isinstance(exc, Exception) and not isinstance(exc, Violation):
            raise Violation(
                '{} raised {}: {}'.format(
                    self.what, exc_type.__name__, exc)) from exc
        return False


def scratch():
    """Give the scratch directory of this process."""
    path = os.path.join(tempfile.gettempdir(), 'mvschema{}'.format(os.getpid()))
    os.makedirs(path, exist_ok=True)
    return pathlib.Path(path)


def test_c01(case, rec):
    """Test a single case."""
    mapping = fold(case['mapping'])
    count = sum(1 for _ in schemagen.properties(mapping))
    compare_schema(read(mapping), mapping, 'some ref')
    path = scratch() / 'a schema.json'
    path.write_bytes(encodings(mapping, case['encoding']))
    compare_schema(read(path), mapping, str(path) + '#')
    rec.case(case['mapping'] if count > 1 else None, mapping)
    for _, depth, typ in schemagen.types(mapping):
        rec.count(
            typ['type'] if typ['type'] in schemagen.TYPES else 'composite')
        if depth:
            rec.count('nested value')
    rec.count('properties', count)
    for lang in LANGS:
        if lang in mapping:
            rec.count('with settings of ' + lang)


def search_c01():
    """Give the search."""

    @st.composite
    def strategy(draw):
        d = gen.D(draw)
        mapping = schemagen.wellformed(d)
        return {'mapping': mapping, 'encoding': d.int(0, 4)}

    return strategy(), test_c01


# ---------------------------------------------------------------------------
# C02
# ---------------------------------------------------------------------------


def command(lang, schema, outdir):
    """
    Run the command line in this process.

    :return: (exit code or the exception, standard error)
    """
    import mapry.main
    argv = sys.argv
    sys.argv = [
        'mapry', lang, '--schema',
        str(schema), '--outdir',
        str(outdir)
    ]
    out, err = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            code = mapry.main.run('mapry')
    except SystemExit as exc:
        code = exc.code or 0
    except Exception as exc:  # pylint: disable=broad-except
        return exc, err.getvalue()
    finally:
        sys.argv = argv
    return code, err.getvalue()


def snapshot(path):
    """Give the content of a directory, None if there is none."""
    path = str(path)
    if not os.path.exists(path):
        return None
    out = {}
    for root, dirs, files in os.walk(path):
        for name in dirs:
            out[os.path.relpath(os.path.join(root, name), path)] = None
        for name in files:
            full = os.path.join(root, name)
            with open(full, 'rb') as fid:
                out[os.path.relpath(full, path)] = fid.read()
    return out


def reported(err, ref):
    """Give the references of the reported errors without the prefix."""
    text = str(err)
    out = []
    lines = text.split('\n')
    first = True
    for line in lines:
        while line.startswith(ref):
            rest = line[len(ref):]
            match = re.match(r'(/\S*)?: ', rest)
            if match is None:
                break
            suffix = (match.group(1) or '').rstrip('/')
            out.append(suffix)
            # the combined error repeats the reference of the schema
            if first and suffix == '':
                line = rest[match.end():]
                first = False
                continue
            break
        first = False
    return out


def check_error(err, ref, faults, what):
    """Check the error against the planted faults."""
    import mapry.validation
    if not isinstance(err, mapry.validation.SchemaError):
        raise Violation(
            '{}: expected a schema error, got {}: {}'.format(
                what, type(err).__name__, err))
    found = reported(err, ref)
    error_ref = err.ref
    if not error_ref.startswith(ref):
        raise Violation(
            '{}: the reference {!r} does not start with {!r}'.format(
                what, error_ref, ref))
    found.append(error_ref[len(ref):].rstrip('/'))
    for fault in faults:
        if not any(r in found for r in fault['refs']):
            raise Violation(
                '{}: expected an error at {}, got {!r}: {}'.format(
                    what, ' or '.join(fault['refs']), found, err))
    allowed = {''}
    for fault in faults:
        allowed.update(fault['refs'])
        allowed.update(fault.get('also', ()))
    for suffix in found:
        if suffix not in allowed:
            raise Violation(
                '{}: unexpected error at {}, only expected {}: {}'.format(
                    what, suffix, sorted(allowed), err))


def test_c02(case, rec):
    """Test a single case."""
    import mapry.parse
    mapping = fold(case['mapping'])
    faults = case['faults']
    what = 'schema with ' + ', '.join(f['what'] for f in faults)

    try:
        mapry.parse.schema_from_mapping(mapping, 'ref')
    except Exception as err:  # pylint: disable=broad-except
        check_error(err, 'ref', faults, what)
    else:
        raise Violation('{}: the mapping was accepted'.format(what))

    folder = scratch()
    path = folder / 'schema.json'
    path.write_text(json.dumps(case['mapping'], indent=1))
    outdir = folder / 'out' / 'deeper'
    stale = folder / 'stale'
    stale.mkdir(exist_ok=True)
    for name in FILES[case['lang']]:
        (stale / name).write_text('stale ' + name)
    for place in (outdir, stale):
        before = snapshot(place)
        code, stderr = command(case['lang'], path, place)
        if code == 0:
            raise Violation('{}: the command line succeeded'.format(what))
        if isinstance(code, Exception):
            check_error(code, str(path) + '#', faults, what)
        elif not any(r in stderr for f in faults for r in f['refs']):
            raise Violation(
                '{}: the message does not refer to the error: {}'.format(
                    what, stderr))
        if snapshot(place) != before:
            raise Violation(
                '{}: the command line changed the output directory: '
                '{}'.format(what, sorted(snapshot(place))))

    rec.case([case['mapping'], what], [what, mapping])
    for fault in faults:
        rec.count(fault['what'])
        depth = fault['refs'][0].count('/values')
        if depth:
            rec.count('fault in values nested {} deep'.format(depth))
    if len(faults) > 1:
        rec.count('several faults')


def search_c02():
    """Give the search."""

    @st.composite
    def strategy(draw):
        d = gen.D(draw)
        mapping, faults = schemagen.faulty(d)
        return {
            'mapping': mapping,
            'faults': [f.jsonable() for f in faults],
            'lang': d.choice(LANGS)
        }

    return strategy(), test_c02


# variables of the environment and options of the interpreter
ENVIRONMENTS = (
    ({
        'PYTHONHASHSEED': '0'
    }, ()),
    ({
        'PYTHONHASHSEED': '1',
        'LC_ALL': 'C',
        'PYTHONUTF8': '0',
        'PYTHONCOERCECLOCALE': '0'
    }, ()),
    ({
        'PYTHONHASHSEED': '2',
        'TZ': 'Asia/Tokyo'
    }, ()),
    ({
        'PYTHONHASHSEED': '3',
        'HOME': '/nonexistent'
    }, ('-O', )),
    ({
        'PYTHONHASHSEED': '4242',
        'PYTHONUTF8': '1'
    }, ('-OO', )),
    ({
        'PYTHONHASHSEED': '99',
        'TZ': 'America/New_York'
    }, ('-X', 'dev')),
    ({
        'PYTHONHASHSEED': '31337'
    }, ()),
    ({
        'PYTHONHASHSEED': '4294967295'
    }, ()),
)


def processes(ctx, func, count):
    """Run the real command line in processes."""
    shards = runner.WORKERS
    recs = runner.parallel(
        func, [
            (runner.shard_seed(shard), (count + shards - 1) // shards)
            for shard in range(shards)
        ], ctx.scratch)
    for rec in recs:
        ctx.rec.merge(rec)


def faulty_processes(seed, count):
    """Run the command line on faulty schemas."""
    rec = runner.Recorder()
    for i in range(count):
        d = gen.R(seed * 31 + i)
        mapping, faults = schemagen.faulty(d)
        case = {
            'mapping': fold(mapping),
            'faults': [f.jsonable() for f in faults],
            'lang': d.choice(LANGS),
            'process': True
        }
        try:
            process_case(case)
        except Violation as err:
            rec.fail(str(err), case)
            break
        rec.case([case['mapping'], 'process'])
        rec.count('command line in a process')
    return rec


def process_case(case):
    """Run the command line in a process."""
    folder = scratch()
    path = folder / 'process.json'
    path.write_text(json.dumps(case['mapping'], indent=1))
    outdir = folder / 'process' / 'out'
    proc = subprocess.run(
        [
            sys.executable, '-B', '-m', 'mapry', case['lang'], '--schema',
            str(path), '--outdir',
            str(outdir)
        ],
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        cwd=str(folder),
        env=dict(
            os.environ,
            PYTHONPATH=mv.REPO,
            PYTHONIOENCODING='utf-8',
            PYTHONUTF8='1'),
        timeout=120)
    stderr = proc.stderr.decode('utf-8', 'replace')
    what = ', '.join(f['what'] for f in case['faults'])
    if proc.returncode == 0:
        raise Violation(
            'schema with {}: the command line succeeded'.format(what))
    if outdir.exists():
        raise Violation(
            'schema with {}: the command line wrote to the output '
            'directory'.format(what))
    for fault in case['faults']:
        if not any(
                str(path) + '#' + r in stderr for r in fault['refs']):
            raise Violation(
                'schema with {}: the command line did not report {}: {}'.format(
                    what, fault['refs'], stderr[-2000:]))


# ---------------------------------------------------------------------------
# C03
# ---------------------------------------------------------------------------

SETTINGS = {
    'py': {
        'module_name': 'some.module',
        'path_as': 'str',
        'timezone_as': 'str'
    },
    'go': {
        'package': 'some_package'
    },
    'cpp': {
        'namespace': 'some::namespace',
        'path_as': 'std::filesystem::path',
        'optional_as': 'std::optional',
        'datetime_library': 'ctime'
    }
}


def complete(schema):
    """Supply the missing settings."""
    import mapry.parse
    other = mapry.parse.schema_from_mapping(
        runner.loads(
            json.dumps({
                'name': 'Other',
                'description': 'defines other.',
                **SETTINGS
            })), 'other')
    for lang in LANGS:
        if getattr(schema, lang) is None:
            setattr(schema, lang, getattr(other, lang))


def depth_of(typ):
    """Give the depth of values."""
    depth = 0
    while hasattr(typ, 'values') and typ.values is not None:
        depth += 1
        typ = typ.values
    return depth


def test_c03(case, rec):
    """Test a single case."""
    import mapry.main
    import mapry.parse
    import mapry.validation
    data = base64.b64decode(case['data'])
    folder = scratch()
    path = folder / 'fuzzed.json'
    path.write_bytes(data)
    rec.count(case['kind'])
    schema = None
    try:
        schema = mapry.parse.schema_from_json_file(path)
    except mapry.validation.SchemaError as err:
        if not err.ref.startswith(str(path) + '#'):
            raise Violation(
                'the reference {!r} of the schema error does not start with '
                'the path: {}'.format(err.ref, err))
        if not str(err).startswith(err.ref):
            raise Violation(
                'the message does not start with the reference {!r}: '
                '{}'.format(err.ref, err))
        rec.count('schema error')
    except RuntimeError as err:
        if type(err) is not RuntimeError or str(path) not in str(err):
            raise Violation(
                'reading the schema raised {}: {}'.format(
                    type(err).__name__, err))
        # it must not be blamed on valid JSON
        if case['kind'] in ('edited', 'faulty') and is_plain_json(data):
            raise Violation('valid JSON was not read: {}'.format(err))
        rec.count('not JSON')
    except Exception as err:  # pylint: disable=broad-except
        raise Violation(
            'reading the schema raised {}: {}'.format(
                type(err).__name__, str(err)[:1000]))
    if schema is None:
        rec.case(case['data'] if case['kind'] != 'special' else None,
                 repr(data[:2000]))
        return

    rec.count('accepted')
    missing = [lang for lang in LANGS if getattr(schema, lang) is None]
    for lang in LANGS:
        func = getattr(mapry.main, 'generate_' + lang)
        for completed in (False, True):
            if completed:
                if lang not in missing:
                    continue
                complete(schema)
            outdir = folder / 'fuzzed'
            clear(outdir)
            out, err = io.StringIO(), io.StringIO()
            try:
                with contextlib.redirect_stdout(
                        out), contextlib.redirect_stderr(err):
                    code = func(schema=schema, outdir=outdir)
            except Exception as exc:  # pylint: disable=broad-except
                raise Violation(
                    'the generator of {} raised {}: {}'.format(
                        lang, type(exc).__name__, str(exc)[:1000]))
            files = set(os.listdir(str(outdir)))
            if code == 0:
                if files != FILES[lang]:
                    raise Violation(
                        'the generator of {} wrote {}'.format(
                            lang, sorted(files)))
                rec.count('generated ' + lang)
                if lang == 'py' and case['kind'] != 'deep':
                    compiles(outdir, rec)
            else:
                if files:
                    raise Violation(
                        'the generator of {} refused, but wrote {}'.format(
                            lang, sorted(files)))
                if not err.getvalue().strip():
                    raise Violation(
                        'the generator of {} refused without an '
                        'error'.format(lang))
                if (completed or lang not in missing) and (
                        str(path) + '#') not in err.getvalue():
                    raise Violation(
                        'the generator of {} refused without referring to a '
                        'definition: {}'.format(lang, err.getvalue()))
                rec.count('refused ' + lang)
    rec.case(case['data'], repr(data[:2000]))


def compiles(outdir, rec):
    """Check that the Python files can be compiled."""
    import warnings
    for name in sorted(FILES['py']):
        source = (outdir / name).read_bytes()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                compile(source, name, 'exec')
        except (SyntaxError, ValueError) as err:
            if 'too many statically nested blocks' in str(err):
                rec.count('nested too deep for Python')
                continue
            raise Violation('the generated {} is invalid: {}'.format(name, err))


def is_plain_json(data):
    """Tell whether the data is JSON without peculiarities."""
    try:
        text = data.decode('utf-8')
        json.dumps(json.loads(text), ensure_ascii=False).encode('utf-8')
    except (ValueError, RecursionError):
        return False
    return True


def clear(folder):
    """Make an empty directory."""
    if folder.exists():
        for child in folder.iterdir():
            child.unlink()
    else:
        folder.mkdir(parents=True)


def search_c03():
    """Give the search."""

    @st.composite
    def strategy(draw):
        d = gen.D(draw)
        kind, data = schemagen.file_content(d)
        return {'kind': kind, 'data': base64.b64encode(data).decode('ascii')}

    return strategy(), test_c03


def any_processes(seed, count):
    """Run the command line on arbitrary files."""
    rec = runner.Recorder()
    for i in range(count):
        d = gen.R(seed * 31 + i)
        kind, data = schemagen.file_content(d)
        case = {
            'kind': kind,
            'data': base64.b64encode(data).decode('ascii'),
            'lang': d.choice(LANGS),
            'environment': d.int(0, len(ENVIRONMENTS) - 1)
        }
        try:
            any_process(case, rec)
        except Violation as err:
            rec.fail(str(err), case)
            break
    return rec


def any_process(case, rec):
    """Run the command line in a process on an arbitrary file."""
    data = base64.b64decode(case['data'])
    folder = scratch()
    path = folder / 'any.json'
    path.write_bytes(data)
    inside, outside = folder / 'inside', folder / 'outside'
    for place in (inside, outside):
        if place.exists():
            clear(place)
            place.rmdir()
    outcome, _ = command(case['lang'], path, inside)
    env, options = ENVIRONMENTS[case['environment']]
    proc = subprocess.run(
        [sys.executable, '-B', *options, '-m', 'mapry', case['lang']] +
        ['--schema', str(path), '--outdir',
         str(outside)],
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        cwd=str(folder),
        env=dict(os.environ, PYTHONPATH=mv.REPO, **env),
        timeout=300)
    stderr = proc.stderr.decode('utf-8', 'replace')
    what = 'the command line with {!r}'.format(env)
    if (proc.returncode == 0) != (outcome == 0):
        raise Violation(
            '{} exited with {}, but in this process it gave {!r}: {}'.format(
                what, proc.returncode, outcome, stderr[-2000:]))
    if proc.returncode == 0:
        if snapshot(inside) != snapshot(outside):
            raise Violation('{} generated other files'.format(what))
        rec.count('process: generated')
    else:
        if proc.returncode < 0 or not stderr.strip():
            raise Violation(
                '{} exited with {} and printed {!r}'.format(
                    what, proc.returncode, stderr))
        if outside.exists() and snapshot(outside):
            raise Violation('{} failed and wrote files'.format(what))
        name = raised(stderr)
        if name not in (None, 'SchemaError', 'RuntimeError') or (
                name == 'RuntimeError'
                and 'RuntimeError: Failed to json-decode' not in stderr):
            raise Violation(
                '{} ended with {}: {}'.format(what, name, stderr[-2000:]))
        rec.count('process: ' + (name or 'reported errors'))
    rec.case([case['data'], case['lang']], case['environment'])


def raised(stderr):
    """Give the name of the exception with which the process ended."""
    name, inside = None, False
    for line in stderr.splitlines():
        if line.startswith('Traceback (most recent call last):'):
            inside = True
        elif inside and line[:1] not in ('', ' '):
            name = line.split(':')[0].split('.')[-1]
            inside = False
    return name


# ---------------------------------------------------------------------------

SEARCHES = {
    'C01': (
        'c01', 8000, 80000,
        'well-formed schemas (names, plurals, all the types and constraints at '
        'all depths, JSON names, order of keys, settings, encodings of the '
        'file) parsed from the mapping and from a file; non-trivial: at least '
        'two properties'),
    'C02': (
        'c02', 8000, 80000,
        'well-formed schemas in which one to four faults were planted at known '
        'places, given to the parser and to the command line; non-trivial: '
        'all'),
    'C03': (
        'c03', 4000, 40000,
        'files with edited schemas, arbitrary JSON values, mutated bytes, deep '
        'types and peculiar contents, all the generators run on whatever is '
        'accepted, and the command line in processes in peculiar environments; '
        'non-trivial: not one of the fixed peculiar contents'),
}


def check(prop, ctx):
    """Run the check."""
    search, quick, thorough, rule = SEARCHES[prop]
    ctx.search('schemas', 'search_' + search, quick, thorough)
    if prop == 'C02':
        processes(ctx, faulty_processes, ctx.scale(64, 800))
    if prop == 'C03':
        processes(ctx, any_processes, ctx.scale(160, 2400))
    return runner.finish(ctx, rule, ())


def replay(prop, failure, scratch_path):
    """Run a single case."""
    del scratch_path
    case = failure['case']
    try:
        if 'environment' in case:
            any_process(case, runner.Recorder())
        elif case.get('process'):
            process_case(case)
        else:
            globals()['test_' + SEARCHES[prop][0]](case, runner.Recorder())
    except Violation as err:
        return str(err)
    return None
