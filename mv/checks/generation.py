"""Check the generation of files (C05) and the effect of descriptions (C22)."""
import ast
import copy
import hashlib
import io
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tokenize

from hypothesis import strategies as st

import mv
from .. import gen, names, runner, schemagen
from ..runner import Violation
from .schemas import (
    ENVIRONMENTS, FILES, LANGS, command, fold, scratch, snapshot)

# ---------------------------------------------------------------------------
# C05
# ---------------------------------------------------------------------------

PLACES = ('a', 'b', 'b/c', 'd e/ü', 'b/../b/f/')
STALE = sorted(set().union(*FILES.values())) + [
    'keep.txt', 'README', '__init__.pyi', 'types.go~', 'deeper/types.go',
    'b/parse.py'
]


def generate_fresh(lang, mapping):
    """Generate into a new directory; give the files or None if refused."""
    root = scratch() / 'fresh'
    shutil.rmtree(str(root), ignore_errors=True)
    root.mkdir()
    path = root / 'other name.json'
    path.write_text(json.dumps(mapping))
    outdir = root / 'out'
    code, stderr = command(lang, path, outdir)
    if isinstance(code, Exception) or code != 0:
        return None, str(code)
    return snapshot(outdir), ''


def parses(mapping):
    """Tell whether the schema is accepted."""
    import mapry.parse
    import mapry.validation
    try:
        mapry.parse.schema_from_mapping(mapping, 'ref')
    except mapry.validation.SchemaError:
        return False
    return True


OUTDATED = (
    'other', 'same size', 'same beginning', 'same end', 'longer', 'empty',
    'line endings', 'marked')


def outdated(content, how):
    """Give an outdated content of a file which is similar to the content."""
    if content is None or how == 'other':
        return b'stale\n' * 5000
    if how == 'same size':
        # one character in the middle differs
        at = len(content) // 2
        while content[at] >= 128 or content[at:at + 1] == b'x':
            at += 1
        return content[:at] + b'x' + content[at + 1:]
    if how == 'same beginning':
        return content[:-20]
    if how == 'same end':
        return content[20:]
    if how == 'longer':
        return content + b'\nmore'
    if how == 'line endings':
        return content.replace(b'\n', b'\r\n')
    if how == 'marked':
        return b'\xef\xbb\xbf' + content
    return b''


def test_c05(case, rec):
    """Run a history of generations."""
    schemas = [fold(m) for m in case['schemas']]
    canonical = {}
    for i, mapping in enumerate(schemas):
        if not parses(mapping):
            if i == 0:
                raise Violation('mapry refused a well-formed schema: ')
            canonical.update(((lang, i), None) for lang in LANGS)
            continue
        for lang in LANGS:
            alone = fold(mapping)
            for other in LANGS:
                if other != lang:
                    alone.pop(other, None)
            files, message = generate_fresh(lang, alone)
            if files is None and i == 0:
                raise Violation(
                    'the generator of {} refused a well-formed schema: '
                    '{}'.format(lang, message))
            if files is not None and set(files) != FILES[lang]:
                raise Violation(
                    'the generator of {} wrote {}'.format(lang, sorted(files)))
            canonical[lang, i] = files

    root = scratch() / 'history'
    shutil.rmtree(str(root), ignore_errors=True)
    root.mkdir()
    expected = {}
    for i, mapping in enumerate(schemas):
        text = json.dumps(mapping, indent=i)
        (root / 'schema{}.json'.format(i)).write_text(text)
    for place, name, how, lang, when in case['stale']:
        path = root / place / name
        if path.is_dir():
            continue
        try:
            path.parent.mkdir(parents=True, exist_ok=True)
        except (FileExistsError, NotADirectoryError):
            continue
        content = (canonical.get((lang, 0)) or {}).get(name)
        path.write_bytes(outdated(content, how))
        # the files may seem older or newer than everything else
        if when:
            os.utime(str(path), (when, when))
        rec.count('outdated file: ' + ('other' if content is None else how))
    expected = snapshot(root)
    done = []
    for lang, number, place, style in case['runs']:
        schema = root / 'schema{}.json'.format(number)
        outdir = str(root / place)
        if place.endswith('/'):
            # the path is given as it is
            outdir = os.path.join(str(root), place)
            (root / 'b').mkdir(exist_ok=True)
            expected.setdefault('b', None)
        source = str(schema)
        if style == 1:
            source = os.path.relpath(source)
            outdir = os.path.relpath(outdir)
        done.append('{} {} {}'.format(lang, schema.name, place))
        code, stderr = command(lang, source, outdir)
        files = canonical[lang, number]
        if files is None:
            if code == 0:
                raise Violation(
                    'a refused schema was accepted after: {}'.format(done))
            after = snapshot(root)
            if {k: v for k, v in after.items() if v is not None
                } != {k: v
                      for k, v in expected.items() if v is not None}:
                raise Violation(
                    'a refused schema changed files: {}'.format(done))
            expected = after
            rec.count('refused run')
            continue
        if code != 0:
            raise Violation(
                'an accepted schema was refused after {}: {} {}'.format(
                    done, code, stderr))
        normal = os.path.normpath(place)
        parts = normal.split('/')
        for i in range(len(parts)):
            expected['/'.join(parts[:i + 1])] = None
        for name, content in files.items():
            expected[os.path.join(normal, name)] = content
        after = snapshot(root)
        if after != expected:
            wrong = sorted(
                k for k in set(after) | set(expected)
                if after.get(k, 0) != expected.get(k, 0))
            raise Violation(
                'unexpected files or contents after {}: {}'.format(
                    done, wrong))
        rec.count('run of ' + lang)
    rec.case([case['schemas'], case['runs']],
             [case['runs'], case['schemas'][0]])


def search_c05():
    """Give the search."""

    @st.composite
    def strategy(draw):
        d = gen.D(draw)
        options = gen.Options(
            langs=LANGS, max_classes=2, max_embeds=2, max_props=3, depth=2,
            exotic_json=20, exotic_description=20)
        if d.chance(30):
            first = dense(d)
        else:
            first = gen.SchemaMaker(d, options).make().mapping
        how = d.int(0, 3)
        if how == 0:
            second = gen.SchemaMaker(d, options).make().mapping
        elif how == 1:
            second, _ = schemagen.faulty(d)
        elif how == 2:
            second = names.make(d, max_classes=1, max_embeds=1).mapping
        else:
            # a part of the first
            second = copy.deepcopy(first)
            for _, comp in schemagen.composites(second):
                for name in list(comp.get('properties', ())):
                    if d.chance(50):
                        del comp['properties'][name]
        stale = []
        for _ in range(d.int(0, 6)):
            lang = d.choice(LANGS)
            stale.append([
                d.choice(PLACES[:4]),
                d.choice(STALE) if d.chance(40) else d.choice(
                    sorted(FILES[lang])),
                d.choice(OUTDATED), lang,
                d.choice((0, 0, 1, 946684800, 4102444800))
            ])
        runs = [
            [d.choice(LANGS), d.int(0, 1), d.choice(PLACES), d.int(0, 1)]
            for _ in range(d.int(1, 6))
        ]
        return {'schemas': [first, second], 'stale': stale, 'runs': runs}

    return strategy(), test_c05


def dense(d):
    """Draw a schema of similar composites which refer to many others."""
    made = []

    def name():
        for attempt in range(100):
            parts = [
                d.choice(('Some', 'Other', 'Ac', 'Ab', 'SOME', 'X1'))
            ] + [
                d.choice(('a', 'b', 'ab', 'B', '1', 'item', 'some', 'X'))
                for _ in range(d.int(0, 2))
            ]
            if attempt > 2:
                parts.append(str(len(made)))
            text = '_'.join(parts)
            key = text.replace('_', '').lower()
            if key not in made and key + 's' not in made:
                made.extend((key, key + 's'))
                return text
        raise AssertionError()

    mapping = {
        'name': name(),
        'description': 'defines many references.',
        'py': {
            'module_name': 'mvw',
            'path_as': d.choice(('str', 'pathlib.Path')),
            'timezone_as': d.choice(('str', 'pytz.timezone'))
        },
        'go': {
            'package': 'mvw'
        },
        'cpp': {
            'namespace': 'mvw',
            'path_as': 'std::filesystem::path',
            'optional_as': 'std::optional',
            'datetime_library': d.choice(('ctime', 'date.h'))
        },
        'properties': {},
        'classes': [],
        'embeds': []
    }
    for _ in range(d.int(3, 6)):
        mapping['classes'].append({
            'name': name(),
            'description': 'defines something.',
            'properties': {}
        })
    for _ in range(d.int(1, 4)):
        mapping['embeds'].append({
            'name': name(),
            'description': 'defines something.',
            'properties': {}
        })
    classes = [c['name'] for c in mapping['classes']]
    embeds = [c['name'] for c in mapping['embeds']]
    for i, (ref, comp) in enumerate(schemagen.composites(mapping)):
        if d.chance(15):
            continue
        # only earlier structures so that there is no recursion
        at = embeds.index(comp['name']) if 'embeds' in ref else len(embeds)
        for j in range(d.int(1, 6)):
            kind = d.choice(
                classes * 3 + embeds[:at] * 3 + [
                    'string', 'time_zone', 'path', 'duration', 'time', 'date',
                    'datetime', 'integer', 'float', 'boolean'
                ])
            typ = {'type': kind}
            for _ in range(d.choice((0, 0, 0, 1, 2))):
                typ = {'type': d.choice(('array', 'map')), 'values': typ}
            prop = {'type': typ.pop('type'), 'description': 'gives it'}
            prop.update(typ)
            if d.chance(20):
                prop['optional'] = True
            comp['properties']['p{}'.format(j)] = prop
    return fold(mapping)


def corpus(seed, count):
    """Draw schemas to be generated in different processes."""
    out = []
    for i in range(count):
        d = gen.R(seed * 7907 + i)
        if i % 2:
            out.append(dense(d))
            continue
        out.append(
            gen.SchemaMaker(
                d,
                gen.Options(
                    langs=LANGS,
                    max_classes=5,
                    max_embeds=5,
                    max_props=5,
                    depth=2,
                    exotic_json=25,
                    exotic_description=25)).make().mapping)
    return out


def worker(source, start, step, root):
    """Generate from all the schemas and print the digests (in a process)."""
    with open(source, 'rt', encoding='utf-8') as fid:
        mappings = runner.loads(fid.read())
    root = pathlib.Path(root)
    digests = {}
    count = len(mappings)
    for k in range(count):
        i = (start + k * step) % count
        for lang in (LANGS if start % 2 else LANGS[::-1]):
            path = root / 's.json'
            path.write_text(json.dumps(mappings[i]), encoding='ascii')
            outdir = root / 'out{}{}'.format(i, lang)
            code, stderr = command(lang, path, outdir)
            if code != 0:
                digests['{} {}'.format(i, lang)] = str(code)
                continue
            for name, content in snapshot(outdir).items():
                digests['{} {} {}'.format(
                    i, lang, name)] = hashlib.sha1(content).hexdigest()
            shutil.rmtree(str(outdir))
    with open(str(root / 'digests.json'), 'wt', encoding='ascii') as fid:
        json.dump(digests, fid)


def run_worker(root, source, number, count):
    """Run the worker in one of the environments; give the digests."""
    env, options = ENVIRONMENTS[number]
    folder = os.path.join(root, 'env{}'.format(number))
    os.makedirs(folder)
    step = (1, count - 1, 7, 11, 13, 1, 17, 19)[number]
    while number > 1 and count % step == 0 and step > 1:
        step += 2
    full = dict(os.environ)
    full.update(env)
    full['PYTHONPATH'] = mv.VERIF + os.pathsep + mv.REPO
    full['MV_REPO'] = mv.REPO
    code = (
        'import sys; sys.path.insert(0, {!r}); '
        'from mv.checks import generation; '
        'generation.worker({!r}, {}, {}, {!r})').format(
            mv.VERIF, source, number, step, folder)
    proc = subprocess.run(
        [sys.executable, '-B'] + list(options) + ['-W', 'ignore', '-c', code],
        cwd=folder,
        env=full,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        timeout=800)
    if proc.returncode != 0:
        raise runner.HarnessError(proc.stdout.decode('utf-8', 'replace')[-3000:])
    with open(os.path.join(folder, 'digests.json'), 'rt') as fid:
        return json.load(fid)


def processes(ctx, count):
    """Generate in processes of different hash seeds and environments."""
    source = os.path.join(ctx.scratch, 'corpus.json')
    mappings = corpus(ctx.seed, count)
    with open(source, 'wt', encoding='utf-8') as fid:
        fid.write(runner.dumps(mappings))
    parts = runner.parallel(
        run_worker, [(ctx.scratch, source, number, count)
                     for number in range(len(ENVIRONMENTS))], ctx.scratch)
    for i, mapping in enumerate(mappings):
        ctx.rec.case([mapping, 'processes'])
    ctx.rec.count('schemas generated in 8 processes', count)
    for part, (env, options) in zip(parts[1:], ENVIRONMENTS[1:]):
        for key in sorted(set(part) | set(parts[0])):
            if part.get(key) != parts[0].get(key):
                ctx.rec.fail(
                    'the generated {} differs with the environment {} and the '
                    'options {}: {} and {}'.format(
                        key.partition(' ')[2], env, options,
                        parts[0].get(key), part.get(key)), {
                            'processes': True,
                            'mapping': mappings[int(key.partition(' ')[0])]
                        })
                return


def replay_processes(case, root):
    """Generate again from a single schema in all the environments."""
    source = os.path.join(root, 'corpus.json')
    with open(source, 'wt', encoding='utf-8') as fid:
        fid.write(runner.dumps([case['mapping']]))
    first = None
    for number in range(len(ENVIRONMENTS)):
        digests = run_worker(root, source, number, 1)
        if first is None:
            first = digests
        elif digests != first:
            return 'the generated code differs: {} and {}'.format(
                first, digests)
    return None


# ---------------------------------------------------------------------------
# C22
# ---------------------------------------------------------------------------

_GO = re.compile(
    r'''(?P<comment>//[^\n]*|/\*.*?\*/)|`[^`]*`|"(?:\\.|[^"\\\n])*"'''
    r"""|'(?:\\.|[^'\\\n])+'|\n|\w+|[^\w\s]""", re.DOTALL)
_CPP = re.compile(
    r'''R"(?P<d>[^(\s]*)\(.*?\)(?P=d)"'''
    r'''|(?P<comment>//(?:\\[ \t]*\n|[^\n])*|/\*.*?\*/)'''
    r'''|"(?:\\.|[^"\\\n])*"'''
    r"""|'(?:\\.|[^'\\\n])+'|\n|\w+|[^\w\s]""", re.DOTALL)


def lex(lang, text):
    """Split into the tokens of code and the text of the comments."""
    code = []
    comments = []
    for match in (_GO if lang == 'go' else _CPP).finditer(text):
        token = match.group(0)
        if match.group('comment') is not None:
            comments.append(token)
            continue
        if token == '\n' and (not code or code[-1] == '\n'):
            continue
        code.append(token)
    return code, comments


def python_code(text):
    """Give the syntax tree without docstrings and the documentation."""
    tree = ast.parse(text)
    documentation = []
    for node in ast.walk(tree):
        if isinstance(node,
                      (ast.Module, ast.ClassDef, ast.FunctionDef)):
            doc = ast.get_docstring(node, clean=False)
            if doc is not None:
                documentation.append(doc)
                node.body = node.body[1:]
    for token in tokenize.generate_tokens(io.StringIO(text).readline):
        if token.type == tokenize.COMMENT:
            documentation.append(token.string)
    return ast.dump(tree), documentation


def analyze(lang, text):
    """Give the code and the comments."""
    if lang == 'py':
        try:
            return python_code(text)
        except SyntaxError as err:
            raise Violation(
                'the generated Python code is invalid: {}'.format(err))
    return lex(lang, text)


def words(text):
    """Give the words of the text."""
    return ' ' + ' '.join(re.findall(r'\w+', text)) + ' '


TYPES_FILE = {'py': '__init__.py', 'go': 'types.go', 'cpp': 'types.h'}


def test_c22(case, rec):
    """Compare the code of schemas which differ in descriptions and indentions."""
    versions = [fold(m) for m in case['versions']]
    results = []
    for mapping in versions:
        files = {}
        for lang in LANGS:
            files[lang], message = generate_fresh(lang, mapping)
            if files[lang] is None:
                raise Violation(
                    'the generator of {} refused a well-formed schema: '
                    '{}'.format(lang, message))
        results.append(files)
    for lang in LANGS:
        for name in sorted(FILES[lang]):
            first = None
            for i, files in enumerate(results):
                text = files[lang][name].decode('utf-8')
                code, comments = analyze(lang, text)
                if first is None:
                    first = code
                elif code != first:
                    raise Violation(
                        'the code of {} depends on descriptions or '
                        'indentions: {}'.format(
                            name, difference(first, code)))
                rec.count('compared file')
                if name == TYPES_FILE[lang] and i == 0:
                    documented(lang, versions[0], code, comments, rec)
    rec.case(
        case['versions'] if versions[0] != versions[1] else None,
        case['versions'][1])


def documented(lang, mapping, code, comments, rec):
    """Check that the descriptions of the first version appear in the comments."""
    text = words(' '.join(comments))
    code = words(code if isinstance(code, str) else ' '.join(code))
    for _, comp in schemagen.composites(mapping):
        items = [comp['description']]
        items.extend(
            p['description'] for p in comp.get('properties', {}).values())
        for item in items:
            if words(item) not in text:
                raise Violation(
                    'the description {!r} does not appear in the comments of '
                    'the types in {}: {}'.format(item, lang, text[:1500]))
            if words(item) in code:
                raise Violation(
                    'the description {!r} appears in the code of the types '
                    'in {}'.format(item, lang))
            rec.count('description found')


def difference(left, right):
    """Show the first difference."""
    n = 0
    while n < min(len(left), len(right)) and left[n] == right[n]:
        n += 1
    n = max(0, n - 5)
    step = 200 if isinstance(left, str) else 25
    return '{!r} versus {!r}'.format(left[n:n + step], right[n:n + step])


WORDS = ('gives', 'the', 'Value', 'of', '7', 'things', 'x', 'not', 'Ünïcode',
         'return', 'class', 'if', 'param', 'TODO')


def plain_description(d, number, composite):
    """Draw a description to look for."""
    parts = ['marks', 'q{}z'.format(number)]
    parts.extend(d.choice(WORDS) for _ in range(d.int(0, 8)))
    gaps = (' ', ' ', ' ', ', ', ': ') + (
        () if composite else ('\n', '\n\n', '. ', '\n  ', '\n* '))
    text = parts[0]
    for part in parts[1:]:
        text += d.choice(gaps) + part
    return text + '.'


SNIPPETS = (
    '"""', "'''", '\\', '*/', '/*', '//', '#', '\n', '\n\n', '\t', '%', '{', '}',
    '{{', '{%', '{#', '`', '"', "'", '\r', '\x0b', '\x0c', '\x1c', '\x85',
    '\u2028', '\x00', '\ufeff', '??/', '\\n', '\\u', '\\x', '\\N{', '\\\n', '$',
    '<', '>', '&', '@param', '}}', '%}', 'type: ignore', 'R"(', ')"', '\\"',
    'pass', 'é', '日本', '😀', ' ', '  ', '+build', 'go:build x', '-*- coding: x')


def wild_description(d, composite):
    """Draw any description."""
    if composite:
        if d.chance(30):
            return d.choice(gen.EXOTIC_DESCRIPTIONS)
        middle = ''.join(
            d.choice(SNIPPETS) if d.chance(60) else d.text(0, 3)
            for _ in range(d.int(0, 5)))
        # the pattern of the description does not match over line breaks
        middle = middle.replace('\n', '')
        return 'wild' + middle + '.'
    return ''.join(
        d.choice(SNIPPETS) if d.chance(60) else d.text(0, 3)
        for _ in range(d.int(0, 6)))


def search_c22():
    """Give the search."""

    @st.composite
    def strategy(draw):
        d = gen.D(draw)
        case = gen.SchemaMaker(
            d,
            gen.Options(
                langs=LANGS,
                max_classes=2,
                max_embeds=2,
                max_props=4,
                depth=2,
                exotic_json=30)).make()
        first = case.mapping
        number = 0
        for _, comp in schemagen.composites(first):
            number += 1
            comp['description'] = plain_description(d, number, True)
            for prop in comp.get('properties', {}).values():
                number += 1
                prop['description'] = plain_description(d, number, False)
        versions = [first]
        for _ in range(d.int(1, 2)):
            new = copy.deepcopy(first)
            for _, comp in schemagen.composites(new):
                if d.chance(70):
                    comp['description'] = wild_description(d, True)
            for _, depth, typ in schemagen.types(new):
                if d.chance(70) if depth == 0 else d.chance(10):
                    typ['description'] = wild_description(d, False)
            for lang, choices in (('py', schemagen.INDENTIONS_PY),
                                  ('cpp', schemagen.INDENTIONS_CPP)):
                if d.chance(60):
                    new[lang]['indention'] = d.choice(choices)
            versions.append(new)
        return {'versions': versions}

    return strategy(), test_c22


# ---------------------------------------------------------------------------

SEARCHES = {
    'C05': (
        'c05', 1600, 30000,
        'histories of up to six runs of the generators (two schemas, three '
        'languages, fresh and stale directories, absolute and relative paths) '
        'against a model of the files; and schemas generated in eight '
        'processes of different hash seeds, locales, orders and optimization '
        'levels; non-trivial: all'),
    'C22': (
        'c22', 2000, 30000,
        'schemas in versions with other descriptions and indentions; the code '
        'without comments is compared, plain descriptions are looked for in '
        'the comments; non-trivial: the versions differ'),
}


def check(prop, ctx):
    """Run the check."""
    search, quick, thorough, rule = SEARCHES[prop]
    ctx.search('generation', 'search_' + search, quick, thorough)
    if prop == 'C05':
        processes(ctx, ctx.scale(120, 2500))
    return runner.finish(ctx, rule, ())


def replay(prop, failure, scratch_path):
    """Run a single case."""
    case = failure['case']
    if case.get('processes'):
        return replay_processes(case, scratch_path)
    try:
        globals()['test_' + SEARCHES[prop][0]](case, runner.Recorder())
    except Violation as err:
        return str(err)
    return None
