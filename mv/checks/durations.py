"""Check how durations are read and written in all the languages."""
import collections
import datetime
import fractions
import re

from .. import cpprun, gen, gorun, known, model, pyrun, runner
from ..runner import Violation

PROPERTY = collections.OrderedDict(type='duration', description='gives x')
MAPPING = collections.OrderedDict([
    ('name', 'Some_graph'), ('description', 'defines a graph.'),
    ('py',
     collections.OrderedDict(
         module_name='mvd', path_as='str', timezone_as='str')),
    ('go', collections.OrderedDict(package='mvd')),
    ('cpp',
     collections.OrderedDict(
         namespace='mvd',
         path_as='std::filesystem::path',
         optional_as='std::optional',
         datetime_library='ctime')),
    ('properties', collections.OrderedDict(x=PROPERTY))
])

UNITS = 'YMWDhms'
LETTERS = dict(zip(UNITS, 'YMWDHMS'))
# about the largest counts which fit into 64 bits of nanoseconds
LIMITS = {
    'Y': 292,
    'M': 3507,
    'W': 15250,
    'D': 106751,
    'h': 2562047,
    'm': 153722867,
    's': 9223372036
}
PY_LIMITS = {
    'Y': 2737907,
    'M': 32854884,
    'W': 142857142,
    'D': 999999999,
    'h': 23999999999,
    'm': 1439999999999,
    's': 86399999999999
}

NANO = 10**9
RANGE = {
    'go': (-2**63, 2**63 - 1),
    'cpp': (-2**63, 2**63 - 1),
    'py': (-999999999 * 86400 * NANO,
           (999999999 * 86400 + 86399) * NANO + 999999000)
}
RESOLUTION = {'go': 1, 'cpp': 1, 'py': 1000}
DIGITS = {'go': 9, 'cpp': 9, 'py': 6}


def count(d, unit, lang, total):
    """Draw the count of a unit."""
    limit = (PY_LIMITS if lang == 'py' else LIMITS)[unit]
    shape = d.int(0, 9)
    if shape <= 3:
        return str(d.int(0, 100))
    if shape <= 5:
        return str(d.int(0, limit))
    if shape == 6:
        return str(max(0, limit + d.int(-2, 2)))
    if shape == 7:
        return str(d.int(0, max(1, limit // max(1, total))))
    if shape == 8:
        return str(d.choice((0, 1, 59, 60, 61, 24, 25, 7, 12, 13, 365, 366)))
    if d.chance(70):
        return str(d.int(limit, limit * 3))
    return str(10**d.int(6, 18) - d.int(0, 1))


def valid_text(d, lang):
    """Draw a text which follows the grammar (it may be too large or too fine)."""
    units = [u for u in UNITS if d.chance(35)]
    if d.chance(10):
        units = [d.choice(UNITS)]
    parts = [d.choice(('', '', '', '-', '+')), 'P']
    with_time = False
    fractional = d.chance(25)
    for unit in units:
        if unit in 'hms' and not with_time:
            parts.append('T')
            with_time = True
        text = count(d, unit, lang, len(units))
        if unit == 's':
            if d.chance(55):
                text += '.' + fraction(d, d.int(1, 11) if d.chance(20) else
                                       d.int(1, DIGITS[lang]))
        elif fractional and d.chance(50):
            text += '.' + fraction(d, d.int(1, 6))
        parts.append(text + LETTERS[unit])
    if not with_time and d.chance(5):
        parts.append('T')
    return ''.join(parts)


def fraction(d, digits):
    """Draw the digits behind the point."""
    shape = d.int(0, 4)
    if shape == 0:
        return '0' * (digits - 1) + '1'
    if shape == 1:
        return '9' * digits
    if shape == 2:
        return '5' + '0' * (digits - 1)
    return '{:0{}d}'.format(d.int(0, 10**digits - 1), digits)


def near_limit(d, lang):
    """Draw a text close to the limits of the language."""
    low, high = RANGE[lang]
    total = high + d.int(-3, 3) * RESOLUTION[lang]
    if d.chance(30):
        total = d.int(0, high)
    rest = total
    parts = [d.choice(('', '-', '+')), 'P']
    with_time = False
    for unit in 'WDhm':
        if d.chance(40):
            size = {
                'W': 604800,
                'D': 86400,
                'h': 3600,
                'm': 60
            }[unit] * NANO
            number = rest // size
            if d.chance(50):
                number = d.int(0, number)
            rest -= number * size
            if unit in 'hm' and not with_time:
                parts.append('T')
                with_time = True
            parts.append('{}{}'.format(number, LETTERS[unit]))
    if not with_time:
        parts.append('T')
    seconds, nanos = divmod(rest, NANO)
    digits = '{:09d}'.format(nanos)
    if lang == 'py':
        digits = digits[:6]
    parts.append('{}.{}S'.format(seconds, digits))
    return ''.join(parts)


def broken_text(d, lang):
    """Draw a text which probably does not follow the grammar."""
    text = valid_text(d, lang) if d.chance(85) else d.choice(
        ('', 'P', 'T', 'x', '1', '1D', 'D1', 'P-1D', 'PT', '+-P1D', '--P1D'))
    for _ in range(d.choice((1, 1, 1, 2))):
        pos = d.int(0, len(text))
        how = d.int(0, 3)
        char = d.choice('PTYMWDHS0123456789.,+- eExptymdwhs\t\u0661\uff11\u0660')
        if how == 0:
            text = text[:pos] + char + text[pos:]
        elif how == 1:
            text = text[:pos] + text[pos + 1:]
        elif how == 2:
            text = text[:pos] + char + text[pos + 1:]
        else:
            text = text[:pos] + text[pos + 1:pos + 2] + text[
                max(0, pos - 1):pos] + text[pos + 2:]
    return text


def huge_text(d, lang):
    """Draw a text with numbers of many digits."""
    unit = d.choice(UNITS)
    digits = d.choice((20, 25, 40, 310, 400))
    if lang == 'cpp':
        # see the known findings
        digits = d.choice((20, 25, 40, 300))
        unit = d.choice(UNITS[:-1])
    return '{}P{}{}{}'.format(
        d.choice(('', '-')), 'T' if unit in 'hms' else '', d.choice('19') *
        digits, LETTERS[unit])


def draw_texts(lang, seed, number):
    """Draw texts."""
    out = []
    for i in range(number):
        d = gen.R(seed * 100003 + i)
        kind = d.int(0, 99)
        if kind < 55:
            out.append(valid_text(d, lang))
        elif kind < 75:
            out.append(near_limit(d, lang))
        elif kind < 97:
            out.append(broken_text(d, lang))
        else:
            out.append(huge_text(d, lang))
    return out


_COMPONENT = re.compile(r'([0-9]+(?:\.[0-9]+)?)([YMWDHMS])')


def tolerance(text, lang):
    """
    Give the tolerance in nanoseconds.

    Years, months and fractions of the longer units are read as floats, and the sum is then only as
    precise as floats are.
    """
    date, _, time = text.partition('T')
    total = fractions.Fraction(0)
    inexact = 0
    for part, units in ((date, 'YMWD'), (time, 'hms')):
        for number, letter in _COMPONENT.findall(part):
            unit = next((u for u in units if LETTERS[u] == letter), None)
            if unit is None:
                continue
            total += fractions.Fraction(number) * model._UNIT[unit] * NANO
            if unit in 'YM' or (unit != 's' and '.' in number):
                inexact += 1
    if not inexact:
        return fractions.Fraction(0)
    return total * fractions.Fraction(
        8, 2**53) + RESOLUTION[lang] * (inexact + 1)


def excluded(text, lang):
    """Tell whether the text is affected by the known finding cpp-many-seconds of C17."""
    return lang == 'cpp' and any(
        int(number) >= 2**63
        for number in re.findall(r'([0-9]+)(?:\.[0-9]*)?S', text))


def expectation(text, lang):
    """Give ('refused', why), ('read', low, high) or ('any', low, high)."""
    got = model.duration(text)
    if got is None:
        return ('refused', 'malformed')
    exact, digits = got
    if digits > DIGITS[lang]:
        return ('refused', 'too fine')
    nanos = exact * NANO
    loose = tolerance(text, lang)
    low, high = RANGE[lang]
    if nanos - loose > high or nanos + loose < low:
        return ('refused', 'too large')
    if nanos + loose > high or nanos - loose < low or (
            lang != 'py' and nanos - loose <= low):
        return ('any', nanos - loose, nanos + loose)
    return ('read', nanos - loose, nanos + loose)


def judge(lang, text, outcome, rec=None):
    """
    Judge the outcome.

    It is ('refused', ref of the errors) or ('read', nanoseconds, written text, nanoseconds of the
    written text as read again).
    """
    want = expectation(text, lang)
    if rec is not None:
        rec.count('{}: {}'.format(
            lang, want[1] if want[0] == 'refused' else want[0]))
    if outcome[0] == 'refused':
        if outcome[1] != ['doc#/x']:
            raise Violation(
                'the place of the error is wrong: {} {}'.format(
                    lang, outcome[1]))
        if want[0] == 'read':
            raise Violation(
                'a representable duration is refused: {} {!r}'.format(
                    lang, text))
        return
    if outcome[0] != 'read':
        raise Violation(
            'reading the duration failed: {} {!r} {}'.format(
                lang, text, outcome))
    nanos, written, again = outcome[1:]
    if want[0] == 'refused':
        raise Violation(
            'a duration is accepted although it is {}: {} {!r} read as {} ns'.
            format(want[1], lang, text, nanos))
    if not want[1] <= nanos <= want[2]:
        raise Violation(
            'the duration is read wrongly: {} {!r} read as {} ns, expected '
            '{} to {}'.format(
                lang, text, nanos, float(want[1]), float(want[2])))
    judge_written(lang, nanos, written, again)


def judge_written(lang, nanos, written, again):
    """Judge the written text."""
    got = model.duration(written) if isinstance(written, str) else None
    if got is None:
        raise Violation(
            'the written text is not a duration: {} {} ns as {!r}'.format(
                lang, nanos, written))
    if got[0] * NANO != nanos:
        raise Violation(
            'the duration is written wrongly: {} {} ns as {!r}'.format(
                lang, nanos, written))
    if again != nanos:
        raise Violation(
            'the written duration is read differently: {} {} ns as {!r} read '
            'as {} ns'.format(lang, nanos, written, again))


# ---------------------------------------------------------------------------
# Outcomes
# ---------------------------------------------------------------------------


def py_nanos(value):
    """Give the nanoseconds of a time delta."""
    return ((value.days * 86400 + value.seconds) * 10**6 +
            value.microseconds) * 1000


def py_outcome(package, text):
    """Read and write with the generated Python code."""
    try:
        graph, errors, _ = package.read({'x': text})
    except Exception as err:  # pylint: disable=broad-except
        return ('raised', '{}: {}'.format(type(err).__name__, err))
    if graph is None:
        return ('refused', [r for r, _ in errors])
    return ('read', py_nanos(graph.x)) + py_write(package, graph)


def py_write(package, graph):
    """Write and read again."""
    try:
        written = package.write(graph)['x']
        again, errors, _ = package.read({'x': written})
    except Exception as err:  # pylint: disable=broad-except
        raise Violation(
            'writing the duration failed: py {!r} {}: {}'.format(
                graph.x,
                type(err).__name__, err))
    if again is None:
        return written, 'errors {}'.format(errors)
    return written, py_nanos(again.x)


def compiled_outcome(batch, text):
    """Read and write with the compiled code."""
    answer = batch.parse(0, {'x': text}, write=True)
    for key in ('died', 'hung', 'threw'):
        if key in answer:
            return ('failed', answer)
    if answer['errors']:
        return ('refused', [r for r, _ in answer['errors']])
    again = answer['errors2']
    if not again:
        again = answer['content2']['properties']
        again = again.get('x', again.get('X'))
    props = answer['content']['properties']
    return ('read', props.get('x', props.get('X')), answer['written']['x'],
            again)


def mapping_for(lang):
    """Keep only the settings of the language."""
    return collections.OrderedDict(
        (k, v) for k, v in MAPPING.items()
        if k not in ('py', 'go', 'cpp') or k == lang)


def open_language(lang, scratch):
    """Open the generated code; give (outcome function, object to close)."""
    if lang == 'py':
        package = pyrun.Package(mapping_for('py'))
        return (lambda text: py_outcome(package, text)), [package], package
    if lang == 'go':
        tool = gorun.Toolchain(scratch)
        batch = gorun.Batch([mapping_for('go')], tool)
    else:
        tool = cpprun.Toolchain(scratch)
        batch = cpprun.Batch([mapping_for('cpp')], tool, per_unit=1)
    if batch.status[0] != 'ok':
        raise Violation(
            'the code with a duration does not compile: {} {}'.format(
                lang, batch.message[0]))
    return (lambda text: compiled_outcome(batch, text)), [batch, tool], tool


def shrink(text, fails):
    """Delete characters as long as it fails."""
    progress = True
    while progress:
        progress = False
        for size in (8, 4, 2, 1):
            for pos in range(0, len(text) - size + 1):
                cand = text[:pos] + text[pos + size:]
                if fails(cand):
                    text = cand
                    progress = True
                    break
            if progress:
                break
    return text


def search(lang, scratch, seed, number, seconds):
    """Search one language in one process."""
    import time
    rec = runner.Recorder()
    deadline = time.monotonic() + seconds
    try:
        outcome, closing, handle = open_language(lang, scratch)
    except Violation as err:
        rec.fail(str(err), {'lang': lang, 'text': 'P1D'})
        return rec

    def message_of(text):
        if excluded(text, lang):
            return None
        try:
            judge(lang, text, outcome(text))
        except Violation as err:
            return str(err)
        return None

    try:
        done = 0
        while done < number and time.monotonic() < deadline:
            for text in draw_texts(lang, seed + done, min(500, number)):
                if excluded(text, lang):
                    rec.count('excluded by a known finding')
                    continue
                valid = model.duration(text) is not None
                rec.case(
                    lang + text if valid and len(text) > 3 else None,
                    sample={
                        'language': lang,
                        'text': text
                    })
                try:
                    judge(lang, text, outcome(text), rec)
                except Violation as err:
                    kind = str(err).partition(':')[0]
                    small = shrink(
                        text, lambda t: (message_of(t) or '').partition(':')[
                            0] == kind)
                    rec.fail(
                        message_of(small) or str(err), {
                            'lang': lang,
                            'text': small
                        })
                    return rec
            done += 500
        if lang == 'py':
            py_objects(handle, seed, number // 2, rec)
    finally:
        for item in closing:
            item.close()
    return rec


def py_delta(d):
    """Draw a time delta."""
    shape = d.int(0, 5)
    if shape == 0:
        return datetime.timedelta(
            d.int(-3, 3), d.int(0, 86399), d.int(0, 999999))
    if shape == 1:
        return d.choice(
            (datetime.timedelta.max, datetime.timedelta.min,
             datetime.timedelta(0), datetime.timedelta.resolution,
             -datetime.timedelta.resolution))
    if shape == 2:
        return datetime.timedelta(microseconds=d.int(-10**7, 10**7))
    if shape == 3:
        return datetime.timedelta(
            seconds=d.int(-10**6, 10**6),
            microseconds=d.choice((0, 1, 10, 100000, 999999, 990000)))
    return datetime.timedelta(
        days=d.int(-999999998, 999999998),
        seconds=d.int(0, 86399),
        microseconds=d.int(0, 999999))


def judge_delta(package, parts):
    """Write and read a time delta."""
    delta = datetime.timedelta(*parts)
    graph = package.types.SomeGraph(x=delta)
    written, again = py_write(package, graph)
    judge_written('py', py_nanos(delta), written, again)


def py_objects(package, seed, number, rec):
    """Write time deltas which were not read before."""
    for i in range(number):
        delta = py_delta(gen.R(seed * 17 + i))
        parts = [delta.days, delta.seconds, delta.microseconds]
        rec.case('delta {}'.format(parts) if delta else None)
        try:
            judge_delta(package, parts)
        except Violation as err:
            rec.fail(str(err), {'lang': 'py', 'delta': parts})
            return


def check(prop, ctx):
    """Run the check."""
    number = ctx.scale(4000, 200000)
    seconds = ctx.scale(120, 600)
    jobs = []
    for lang, shards in (('cpp', 2), ('go', 3), ('py', 3)):
        for shard in range(shards):
            jobs.append((lang, ctx.scratch, (ctx.seed * 50 + shard) * 10**6,
                         number, seconds))
    for rec in runner.parallel(search, jobs, ctx.scratch):
        ctx.rec.merge(rec)
    ctx.rec.samples = ctx.rec.samples[::3]
    known.probe(ctx)
    return runner.finish(
        ctx, 'a distinct well-formed duration text of more than three '
        'characters, per language, or a non-zero time delta', (
            'fractions of units longer than seconds and years and months are '
            'read as floats: the oracle allows the error of float arithmetic',
        ))


def replay(prop, failure, scratch):
    """Replay a failure."""
    case = failure['case']
    try:
        outcome, closing, handle = open_language(case['lang'], scratch)
    except Violation as err:
        return str(err)
    try:
        if 'delta' in case:
            judge_delta(handle, case['delta'])
        else:
            judge(case['lang'], case['text'], outcome(case['text']))
    except Violation as err:
        return str(err)
    finally:
        for item in closing:
            item.close()
    return None
