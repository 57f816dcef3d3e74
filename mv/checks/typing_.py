"""Check the types of the generated Python code."""
import collections
import copy
import os
import re
import shutil
import subprocess
import tempfile
import time

from .. import gen, model, names, pyrun, reduce, runner
from ..runner import Violation
from . import pycode

MYPY = shutil.which('mypy') or '/usr/local/bin/mypy'
OPTIONS = gen.Options(
    langs=('py', ), exotic_json=20, exotic_description=20, wide_formats=True,
    weird_names=15, max_classes=3, max_embeds=3, max_props=6, depth=4)

# The placeholders are constructed without values and marked to be ignored; which line has to be
# marked depends on the version of mypy.
_PLACEHOLDER_RE = re.compile(
    r'Argument "?\w+"? to "\w+" has incompatible type "None"; ')
_ERROR_RE = re.compile(r'^(.*?):(\d+)(?::\d+)?: error: (.*)$')


def make_case(seed):
    """Draw a schema."""
    d = gen.R(seed)
    case = gen.SchemaMaker(d, OPTIONS).make()
    if d.chance(OPTIONS.weird_names):
        case = names.weird(d, case, OPTIONS.langs)
    mapping = copy.deepcopy(case.mapping)
    return mapping, d.chance(25)


def type_check(cases, scratch):
    """Check the code of (mapping, dotted) pairs; give a message or None for each."""
    root = tempfile.mkdtemp(prefix='mvtyping', dir=scratch)
    messages = [None] * len(cases)
    try:
        for i, (mapping, dotted) in enumerate(cases):
            mapping = copy.deepcopy(mapping)
            parts = ['pkg{}'.format(i)] + (['some', 'module'] if dotted else [])
            mapping['py']['module_name'] = '.'.join(parts)
            outdir = os.path.join(root, 'code', *parts)
            os.makedirs(outdir)
            try:
                pyrun.generate('py', mapping, outdir)
            except pyrun.Refused as err:
                messages[i] = 'mapry refused a well-formed schema: {}'.format(
                    err.message)
                shutil.rmtree(os.path.join(root, 'code', parts[0]))
        code_dir = os.path.join(root, 'code')
        if not os.path.isdir(code_dir) or not os.listdir(code_dir):
            return messages
        proc = subprocess.run(
            [
                MYPY, '--strict', '--ignore-missing-imports',
                '--no-warn-unused-ignores', '--namespace-packages',
                '--explicit-package-bases', '--hide-error-context',
                '--no-error-summary', '--no-color-output', '--config-file=',
                '--cache-dir=' + os.path.join(root, 'cache'), '.'
            ],
            cwd=code_dir,
            env=dict(
                {
                    k: v
                    for k, v in os.environ.items()
                    if not k.startswith(('MYPY', 'PYTHON'))
                },
                HOME=root),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            timeout=600)
        out = proc.stdout.decode('utf-8', 'replace')
        if proc.returncode not in (0, 1):
            # a syntax error stops mypy
            found = False
            for line in out.splitlines():
                match = _ERROR_RE.match(line)
                if match and match.group(1).startswith('pkg'):
                    number = int(re.match(r'pkg(\d+)', line).group(1))
                    messages[number] = brief(cases[number], match)
                    found = True
            if not found:
                raise runner.HarnessError('mypy failed: ' + out[-3000:])
            return messages
        for line in out.splitlines():
            match = _ERROR_RE.match(line)
            if match is None:
                continue
            if os.path.basename(match.group(1)) == 'parse.py' and (
                    _PLACEHOLDER_RE.match(match.group(3))):
                continue
            number = re.match(r'pkg(\d+)', line)
            if number is None:
                raise runner.HarnessError('mypy: ' + line)
            number = int(number.group(1))
            if messages[number] is None:
                messages[number] = brief(cases[number], match)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return messages


def brief(case, match):
    """Give the message of an error."""
    del case
    code = re.search(r'\[([a-z-]+)\]$', match.group(3))
    return 'type error {} in {}: line {}: {}'.format(
        code.group(1) if code else '', os.path.basename(match.group(1)),
        match.group(2), match.group(3))


def explore(seed, count, scratch, deadline):
    """Check schemas in batches."""
    rec = runner.Recorder()
    batch = 60
    for start in range(0, count, batch):
        if time.monotonic() > deadline:
            rec.count('stopped by the time budget')
            break
        cases = [
            make_case(seed * 100003 + i)
            for i in range(start, min(count, start + batch))
        ]
        messages = type_check(cases, scratch)
        for (mapping, dotted), message in zip(cases, messages):
            schema = model.Schema(mapping)
            pycode.schema_classes(schema, rec)
            rec.case(
                mapping if pycode.is_nontrivial(schema) else None,
                sample={'schema': mapping})
            if message is not None:
                rec.fail(message, {'mapping': mapping, 'dotted': dotted})
        if rec.failures:
            break
    return rec


def check(prop, ctx):
    """Run the check."""
    del prop
    count = ctx.scale(480, 16000)
    deadline = time.monotonic() + ctx.scale(200, 700)
    failures = []
    for rec in runner.parallel(
            explore,
        [(runner.shard_seed(shard), count // runner.WORKERS, ctx.scratch,
          deadline) for shard in range(runner.WORKERS)], ctx.scratch):
        failures.extend(rec.failures)
        rec.failures = []
        ctx.rec.merge(rec)

    def evaluate(cases):
        return type_check(
            [(case['mapping'], case['dotted']) for case in cases], ctx.scratch)

    by_kind = collections.OrderedDict()
    for failure in sorted(failures,
                          key=lambda f: len(runner.dumps(f['case']))):
        by_kind.setdefault(reduce.kind_of(failure['message']), failure)
    for failure in list(by_kind.values())[:2]:
        case, message = reduce.reduce(
            failure['case'], failure['message'], evaluate, 40)
        ctx.rec.fail(message, case)
    return runner.finish(
        ctx, 'schemas with at least two properties, distinct',
        ('mypy --strict judges the types', ))


def replay(prop, failure, scratch):
    """Replay a failure; give the message or None."""
    del prop
    case = failure['case']
    return type_check([(case['mapping'], case['dotted'])], scratch)[0]
