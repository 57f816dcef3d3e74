"""Check the command line."""
import base64
import contextlib
import io
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

import mv
from .. import gen, runner, schemagen
from ..runner import Violation
from .schemas import (ENVIRONMENTS, FILES, LANGS, SETTINGS, fold, raised)

# states of the schema file
SCHEMAS = (
    'good', 'good', 'good', 'good', 'good', 'no settings', 'faulty', 'not JSON',
    'missing', 'a directory')
# places of the output
PLACES = (
    'new', 'new deep', 'empty', 'filled', 'stale', 'linked', 'here', 'parent',
    'link',
    'spaces', 'slash', 'dots', 'absolute', 'a file', 'below a file')
LINKS = ('', 'symbolic', 'relative', 'dangling')
FAILING_PLACES = ('a file', 'below a file')
# how the arguments are given
STYLES = (
    'usual', 'usual', 'usual', 'swapped', 'equals', 'shortened', 'twice',
    'no schema', 'no outdir', 'no command', 'other command', 'too many', 'help',
    'command last')
FAILING_STYLES = (
    'no schema', 'no outdir', 'no command', 'other command', 'too many',
    'command last')

NAMES = {
    'new': 'out',
    'new deep': 'a/b/c/out',
    'empty': 'out',
    'filled': 'out',
    'stale': 'out',
    'linked': 'out',
    'here': '.',
    'parent': '..',
    'link': 'link',
    'spaces': ' some \u00fc dir%s{}',
    'slash': 'out/',
    'dots': 'x/../out',
    'absolute': 'out',
    'a file': 'out',
    'below a file': 'file/out'
}


def tree(root):
    """Give the content of a directory; links are not followed."""
    out = {}
    for folder, dirs, files in os.walk(root):
        for name in dirs + files:
            full = os.path.join(folder, name)
            rel = os.path.relpath(full, root)
            if os.path.islink(full):
                out[rel] = ('link', os.readlink(full))
            elif os.path.isdir(full):
                out[rel] = ('dir', None)
            else:
                with open(full, 'rb') as fid:
                    out[rel] = ('file', fid.read())
    return out


def prepare(case, root):
    """Create the files; give (schema argument, outdir argument, real output directory)."""
    here = os.path.join(root, 'here')
    os.makedirs(os.path.join(here, 'x'))
    name = case['file']
    path = os.path.join(here, name)
    state = case['schema']
    if state == 'a directory':
        os.mkdir(path)
    elif state == 'not JSON':
        with open(path, 'wb') as fid:
            fid.write(base64.b64decode(case['data']))
    elif state != 'missing':
        with open(path, 'wt', encoding='utf-8') as fid:
            json.dump(case['mapping'], fid)
    place = case['place']
    out = NAMES[place]
    real = os.path.normpath(os.path.join(here, out))
    with open(os.path.join(here, 'file'), 'wt') as fid:
        fid.write('a file')
    if place in ('empty', 'filled', 'stale', 'linked'):
        os.mkdir(real)
    if place == 'link':
        real = os.path.join(root, 'behind')
        os.mkdir(real)
        os.symlink(real, os.path.join(here, 'link'))
    if place == 'filled':
        for other in ('other.txt', 'Types.h', 'types.hpp', 'x.go', 'y.py'):
            with open(os.path.join(real, other), 'wt') as fid:
                fid.write('other ' + other)
    if place == 'stale':
        for files in FILES.values():
            for stale in files:
                with open(os.path.join(real, stale), 'wt') as fid:
                    fid.write('stale ' * 20000)
    if place == 'linked':
        # some of the files are links to files elsewhere
        os.mkdir(os.path.join(root, 'elsewhere'))
        for number, linked in enumerate(sorted(FILES[case['lang']])):
            target = os.path.join(root, 'elsewhere', linked)
            full = os.path.join(real, linked)
            what = case['links'][number]
            if what:
                with open(target, 'wt') as fid:
                    fid.write('linked ' * 20000)
            if what == 'symbolic':
                os.symlink(target, full)
            elif what == 'relative':
                os.symlink(os.path.join('..', '..', 'elsewhere', linked), full)
            elif what == 'dangling':
                os.unlink(target)
                os.symlink(target, full)
    if place == 'a file':
        with open(real, 'wt') as fid:
            fid.write('not a directory')
    if place == 'absolute':
        out = real
    return path if case['absolute'] else name, out, real


def arguments(case, schema, out):
    """Give the arguments."""
    lang = case['lang']
    style = case['style']
    return {
        'usual': [lang, '--schema', schema, '--outdir', out],
        'swapped': [lang, '--outdir', out, '--schema', schema],
        'equals': [lang, '--schema=' + schema, '--outdir=' + out],
        'shortened': [lang, '--sch', schema, '--out', out],
        'twice': [
            lang, '--schema', 'nothing.json', '--schema', schema, '--outdir',
            'nowhere', '--outdir', out
        ],
        'no schema': [lang, '--outdir', out],
        'no outdir': [lang, '--schema', schema],
        'no command': ['--schema', schema, '--outdir', out],
        'other command': [case['other'], '--schema', schema, '--outdir', out],
        'too many': [lang, '--schema', schema, '--outdir', out, 'more'],
        'help': [lang, '--schema', schema, '--outdir', out, '--help'],
        'command last': ['--schema', schema, '--outdir', out, lang],
    }[style]


def run_here(case, argv, here):
    """Run in this process; give (exit code, exception, output, error output)."""
    import mapry.main
    before = sys.argv, os.getcwd()
    out, err = io.StringIO(), io.StringIO()
    exc = None
    try:
        os.chdir(here)
        sys.argv = [case['program']] + argv
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            if case['entry'] == 'script':
                code = mapry.main.entry_point()
            else:
                code = mapry.main.run('mapry')
            if not isinstance(code, int):
                raise Violation('the exit code is {!r}'.format(code))
    except SystemExit as error:
        code = error.code
        if code is None:
            code = 0
        elif not isinstance(code, int):
            err.write(str(code))
            code = 1
    except Exception as error:  # pylint: disable=broad-except
        if isinstance(error, Violation):
            raise
        code, exc = 1, error
        err.write('{}: {}'.format(type(error).__name__, error))
    finally:
        sys.argv = before[0]
        os.chdir(before[1])
    return code, exc, out.getvalue(), err.getvalue()


def run_process(case, argv, here):
    """Run in another process."""
    env, options = ENVIRONMENTS[case['environment']]
    if case['entry'] == 'script':
        start = [
            '-c', 'import sys; from mapry.main import entry_point; '
            'sys.exit(entry_point())'
        ]
    else:
        start = ['-m', 'mapry']
    proc = subprocess.run(
        [sys.executable, '-B', *options, *start] + argv,
        stdin=subprocess.DEVNULL,
        stdout=subprocess.PIPE,
        stderr=subprocess.PIPE,
        cwd=here,
        env=dict({
            k: v
            for k, v in os.environ.items() if k != 'PYTHONIOENCODING'
        }, PYTHONPATH=mv.REPO, **env),
        timeout=300)
    return (
        proc.returncode, raised(proc.stderr.decode('utf-8', 'replace')),
        proc.stdout.decode('utf-8', 'surrogateescape'),
        proc.stderr.decode('utf-8', 'surrogateescape'))


def expected_files(case, root):
    """Generate the files by the functions of mapry."""
    import mapry.main
    import mapry.parse
    folder = pathlib.Path(root) / 'expected'
    folder.mkdir()
    schema = mapry.parse.schema_from_mapping(fold(case['mapping']), 'ref')
    func = getattr(mapry.main, 'generate_' + case['lang'])
    with contextlib.redirect_stdout(io.StringIO()):
        with contextlib.redirect_stderr(io.StringIO()) as err:
            code = func(schema=schema, outdir=folder)
    if code != 0:
        raise Violation(
            'the schema was refused: {}'.format(err.getvalue()[:1000]))
    files = {p.name: ('file', p.read_bytes()) for p in folder.iterdir()}
    shutil.rmtree(str(folder))
    return files


def test_command(case, rec):
    """Test a single case."""
    root = tempfile.mkdtemp(prefix='mvcommand')
    try:
        _test_command(case, rec, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _test_command(case, rec, root):
    expected = expected_files(case, root) if case['schema'] == 'good' else None
    schema, out, real = prepare(case, root)
    here = os.path.join(root, 'here')
    argv = arguments(case, schema, out)
    before = tree(root)
    run = run_process if case.get('process') else run_here
    code, exc, stdout, stderr = run(case, argv, here)
    after = tree(root)
    what = 'a {} schema file, output in {!r} ({}), arguments {!r}'.format(
        case['schema'], out, case['place'], argv)

    if case['style'] == 'help':
        if code != 0 or '--schema' not in stdout or '--outdir' not in stdout:
            raise Violation('{}: no help: {} {}'.format(what, code, stdout))
        if after != before:
            raise Violation('{}: the help changed files'.format(what))
        rec.count('help')
        rec.case()
        return

    success = (
        case['schema'] == 'good' and case['place'] not in FAILING_PLACES
        and case['style'] not in FAILING_STYLES)
    if success:
        want = dict(before)
        folder = os.path.relpath(real, root)
        parts = folder.split(os.sep)
        for i in range(len(parts)):
            name = os.path.join(*parts[:i + 1])
            if name != '.':
                want.setdefault(name, ('dir', None))
        for name, content in expected.items():
            number = sorted(FILES[case['lang']]).index(name)
            if case['place'] == 'linked' and case['links'][number]:
                # written through the links
                want[os.path.join('elsewhere', name)] = content
                continue
            want[os.path.normpath(os.path.join(folder, name))] = content
        if code != 0:
            raise Violation(
                '{}: failed with {}: {}'.format(what, code, stderr[-1500:]))
        if after != want:
            names = [
                n for n in set(after) | set(want) if after.get(n) != want.get(n)
            ]
            raise Violation(
                '{}: the files differ from those expected: {}'.format(
                    what, sorted(names)))
        if not stdout.strip():
            raise Violation('{}: nothing was printed'.format(what))
        rec.count('succeeded')
    else:
        if code == 0:
            raise Violation('{}: succeeded: {}'.format(what, stdout[:500]))
        if code < 0:
            raise Violation('{}: died of {}'.format(what, code))
        if not stderr.strip():
            raise Violation('{}: failed without a message'.format(what))
        rest = dict(after)
        name = os.path.relpath(real, root)
        # the output directory may have been created
        while name not in before and rest.get(name) == ('dir', None):
            del rest[name]
            name = os.path.dirname(name)
        if rest != before:
            names = [
                n for n in set(rest) | set(before)
                if rest.get(n) != before.get(n)
            ]
            raise Violation(
                '{}: failed, but changed {}'.format(what, sorted(names)))
        rec.count('failed')
        if case['style'] in FAILING_STYLES:
            if code != 2 or exc is not None:
                raise Violation(
                    '{}: bad arguments gave {} {}'.format(what, code, stderr))
            rec.count('bad arguments: ' + case['style'])
        elif case['place'] in FAILING_PLACES:
            rec.count('bad output')
        elif case['schema'] == 'no settings':
            check_settings(case, what, exc, stderr)
        elif case['schema'] in ('missing', 'a directory'):
            # the rest may be escaped
            if exc is not None or not all(
                    part in stderr for part in case['file'].split('\u00e9')):
                raise Violation(
                    '{}: the message does not name the file: {}'.format(
                        what, stderr[-1500:]))
        elif case['schema'] == 'not JSON':
            if 'RuntimeError' not in stderr or 'json' not in stderr.lower():
                raise Violation(
                    '{}: the message does not tell about JSON: {}'.format(
                        what, stderr[-1500:]))
        elif case['schema'] == 'faulty':
            if not any(r in stderr for f in case['faults']
                       for r in f['refs']):
                raise Violation(
                    '{}: the message does not refer to the fault: {}'.format(
                        what, stderr[-1500:]))
    rec.count('schema file: ' + case['schema'])
    rec.count('output: ' + case['place'])
    rec.count('arguments: ' + case['style'])
    if case.get('process'):
        rec.count('run in a process')
    rec.case(
        [case['lang'], case['mapping'], case['place'], case['style']],
        sample={k: v for k, v in case.items() if k != 'data'})


TITLES = {'py': 'Python', 'go': 'Go', 'cpp': 'C++'}


def check_settings(case, what, exc, stderr):
    """Check the message about the missing settings."""
    if exc is not None:
        raise Violation('{}: failed with {!r}'.format(what, exc))
    if '"{}"'.format(case['lang']) not in stderr:
        raise Violation(
            '{}: the message does not tell which settings are missing: '
            '{}'.format(what, stderr[-1500:]))
    for lang, title in TITLES.items():
        if lang != case['lang'] and title in stderr.split():
            raise Violation(
                '{}: the message is about another language: {}'.format(
                    what, stderr[-1500:]))


def make_case(d):
    """Draw a case."""
    state = d.choice(SCHEMAS)
    lang = d.choice(LANGS)
    case = {
        'lang': lang,
        'schema': state,
        'place': d.choice(PLACES),
        'style': d.choice(STYLES),
        'file': d.choice(
            ('schema.json', 'a b.json', 's\u00e9.json', 'noext', 'types.json')),
        'absolute': d.chance(50),
        'entry': d.choice(('script', 'module')),
        'program': d.choice(('mapry-to', '/usr/bin/mapry-to', 'mapry')),
        'other': d.choice(('java', 'PY', 'c++', 'python', '', 'cp', 'g')),
        'environment': d.int(0, len(ENVIRONMENTS) - 1),
        'links': [d.choice(LINKS) for _ in range(6)],
        'mapping': None
    }
    if state == 'faulty':
        mapping, faults = schemagen.faulty(d)
        case['faults'] = [f.jsonable() for f in faults]
    else:
        mapping = fold(gen.SchemaMaker(d, OPTIONS).make().mapping)
        # the settings of the other languages do not matter
        for other in LANGS:
            if other != lang and d.chance(30):
                mapping.pop(other, None)
    if state == 'no settings':
        mapping.pop(lang, None)
    elif state == 'good':
        mapping.setdefault(lang, SETTINGS[lang])
    case['mapping'] = mapping
    if state == 'not JSON':
        data = json.dumps(mapping, ensure_ascii=False).encode('utf-8')
        at = d.int(0, len(data) - 1)
        case['data'] = base64.b64encode(
            d.choice((
                data[:at], data + b'}', b'x' + data, data[:at] + b'\xff' +
                data[at:]))).decode('ascii')
    return case


OPTIONS = gen.Options(
    langs=LANGS, max_classes=2, max_embeds=2, max_props=3, depth=2)


def search_command():
    """Give the search."""

    @st.composite
    def strategy(draw):
        return make_case(gen.D(draw))

    return strategy(), test_command


def processes(seed, count):
    """Run cases in processes."""
    rec = runner.Recorder()
    for i in range(count):
        case = dict(make_case(gen.R(seed * 37 + i)), process=True)
        try:
            test_command(case, rec)
        except Violation as err:
            rec.fail(str(err), case)
            break
    return rec


def check(prop, ctx):
    """Run the check."""
    del prop
    ctx.search('commandline', 'search_command', 4000, 60000)
    count = ctx.scale(160, 2400)
    for rec in runner.parallel(
            processes,
        [(runner.shard_seed(shard), count // runner.WORKERS)
         for shard in range(runner.WORKERS)], ctx.scratch):
        ctx.rec.merge(rec)
    return runner.finish(
        ctx, 'all but the calls for help, distinct by the language, the schema, '
        'the output directory and the arguments')


def replay(prop, failure, scratch):
    """Run a single case."""
    del prop, scratch
    try:
        test_command(failure['case'], runner.Recorder())
    except Violation as err:
        return str(err)
    return None
