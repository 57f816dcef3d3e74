"""Check how dates, times and date-times are read and written by their formats."""
import calendar
import collections
import datetime
import re

from .. import cpprun, gen, gorun, known, model, pyrun, runner
from ..runner import Violation

VARIANTS = ('py', 'go', 'ctime', 'date.h')

# the field which a directive sets
FIELD = {
    'a': 'weekday',
    'A': 'weekday',
    'b': 'month',
    'B': 'month',
    'm': 'month',
    'd': 'day',
    'e': 'day',
    'y': 'year',
    'Y': 'year',
    'H': 'hour',
    'I': 'hour12',
    'l': 'hour12',
    'p': 'meridian',
    'P': 'meridian',
    'M': 'minute',
    'S': 'second'
}
NUMERIC = 'mdeyYHIlMS'

# directives which the library of the language does not read
UNSUPPORTED = {'py': '', 'go': '', 'ctime': '', 'date.h': 'lP'}

SEPARATORS = ('-', '-', '/', '.', ' ', ' ', ':', ', ', '_', '|', '~')
TEXTS = ('T', ' at ', ' o\'clock ', 'h', 'day ', '%%', '\u00e9', '\u5e74', '"',
         '\\', '{}', ' %% ', '(', ')', '[', '#', '\\n', '`', '\t', '??/', '$',
         '*', '+', '?', '^', 's', 'Z', '@', '&', ';', '<', '$d', '{{', '}')
DIGITS = ('0', '7 ', '9', '8')


def draw_tokens(d, kind):
    """Draw the tokens of a format: letters of directives and literal texts."""
    letters = []
    date = kind != 'time'
    time = kind != 'date'
    full = d.chance(75)
    if date:
        if full or d.chance(70):
            letters.append('Y' if d.chance(75) else 'y')
        if full or d.chance(70):
            letters.append(d.choice('mmmmbB'))
        if full or d.chance(70):
            letters.append(d.choice('ddde'))
        if full and d.chance(25):
            letters.append(d.choice('aA'))
    if time:
        if full or d.chance(70):
            if d.chance(60):
                letters.append('H')
                if d.chance(8):
                    letters.append(d.choice('pP'))
            else:
                letters.append(d.choice('IIl'))
                if d.chance(85):
                    letters.append(d.choice('ppP'))
        if full or d.chance(70):
            letters.append('M')
        if full or d.chance(70):
            letters.append('S')
    if not letters:
        letters.append('Y' if date else 'H')
    if d.chance(60):
        d.r.shuffle(letters)
    style = d.int(0, 3)
    tokens = []
    if d.chance(25):
        tokens.append(d.choice(TEXTS))
    for i, letter in enumerate(letters):
        if i > 0:
            if style == 0:
                tokens.append(d.choice(SEPARATORS))
            elif style == 1 and d.chance(60):
                pass
            elif style == 2:
                tokens.append(
                    d.choice(TEXTS) if d.chance(60) else d.choice(SEPARATORS))
            else:
                tokens.append(d.choice('-/ :'))
            if d.chance(2) and tokens[-1] not in ('%e', '%l'):
                tokens.append(d.choice(DIGITS))
        if tokens and tokens[-1] in ('%e', '%l'):
            # the width of the number is not fixed
            tokens.append(d.choice(SEPARATORS))
        tokens.append('%' + letter)
    if d.chance(25):
        tokens.append(d.choice(TEXTS))
    return tokens


class Format:
    """Know a format."""

    def __init__(self, kind, fmt):
        self.kind = kind
        self.fmt = fmt
        self.tokens = re.findall(r'%[a-zA-Z%]|[^%]+', fmt)
        self.letters = [t[1] for t in self.tokens if t[0] == '%' and t != '%%']
        self.fields = {FIELD[letter] for letter in self.letters}

    def literal(self):
        """Give the literal text of the format."""
        return ''.join(
            '%' if t == '%%' else t for t in self.tokens
            if t == '%%' or t[0] != '%')

    def complete_date(self):
        return {'year', 'month', 'day'} <= self.fields

    def usable(self, variant):
        """Tell whether the variant is to read and write the format; give the reason if not."""
        if set(self.letters) & set(UNSUPPORTED[variant]):
            return 'the library does not read a directive'
        if self.kind == 'time' and not self.complete_time():
            if variant == 'date.h':
                return 'the library reads only complete times'
        if variant == 'date.h' and self.kind != 'time' and not self.complete_date():
            return 'the library reads only complete dates'
        if variant == 'date.h' and self.kind == 'datetime' and not self.complete_time():
            return 'the library reads only complete times'
        if variant == 'date.h' and 'meridian' in self.fields and (
                'hour12' not in self.fields or self.letters.index('p') <
                self.letters.index('I')):
            return 'the library does not read the meridian before the hour'
        longest = datetime.datetime(2000, 9, 27, 12, 0)  # a Wednesday
        if variant == 'ctime' and len(
                self.text(longest, variant).encode()) >= 4 * len(self.fmt):
            # see cpp-long-time-hangs of C18
            return 'the text is too long for the format'
        return None

    def complete_time(self):
        return 'hour' in self.fields or {'hour12', 'meridian'} <= self.fields

    def moment(self, d, variant):
        """Draw a moment which the format can express."""
        low = 1000 if variant in ('py', 'ctime') else 1
        year = d.int(1969, 2068)
        if 'Y' in self.letters:
            year = d.choice(
                (year, d.int(low, 9999), d.int(low, 9999), low, 9999, 2000,
                 1900, 1970))
        elif 'year' not in self.fields:
            year = 1900
        month = d.int(1, 12)
        last = calendar.monthrange(year, month)[1]
        day = d.choice((1, last, d.int(1, last), d.int(1, last), 9, 10, 31))
        if 'year' not in self.fields or 'month' not in self.fields:
            day = min(day, 28)
        day = min(day, last)
        hour = d.choice((0, 12, 23, 11, 13, d.int(0, 23), d.int(0, 23)))
        if 'hour' not in self.fields and 'meridian' not in self.fields:
            hour %= 12
        return datetime.datetime(
            year, month, day, hour,
            d.choice((0, 59, d.int(0, 59), d.int(0, 9))),
            d.choice((0, 59, d.int(0, 59), d.int(0, 9))))

    def values(self, moment):
        """Give the values of the fields."""
        out = {}
        for field in ('year', 'month', 'day', 'hour', 'minute', 'second'):
            if field in self.fields:
                out[field] = getattr(moment, field)
        if 'hour' not in self.fields and 'hour12' in self.fields:
            if 'meridian' in self.fields:
                out['hour'] = moment.hour
            else:
                out['hour12'] = moment.hour % 12
        return out

    def text(self, moment, variant, replace=None):
        """Write the moment; ``replace`` gives the texts of directives to be replaced."""
        out = []
        for token in self.tokens:
            if token == '%%' or token[0] != '%':
                out.append('%' if token == '%%' else token)
                continue
            letter = token[1]
            if replace is not None and letter in replace:
                out.append(replace[letter])
            elif letter == 'l' and variant in ('go', 'py'):
                out.append(str(moment.hour % 12 or 12))
            else:
                out.append(model.strftime(moment, token))
        return ''.join(out)

    def runs_on(self, moment):
        """Tell whether an abbreviated name continues like the whole name."""
        texts = [
            '%' if t == '%%' else model.strftime(moment, t)
            if t[0] == '%' and t not in ('%P', '%l') else t.lstrip('%')
            for t in self.tokens
        ]
        for i, token in enumerate(self.tokens):
            if token in ('%a', '%b'):
                full = model.strftime(moment, token.upper()).lower()
                rest = ''.join(texts[i + 1:]).lower()
                if len(full) > 3 and rest[:1] == full[3]:
                    return True
        return False

    def lenient(self):
        """Give the expression of the texts which may be accepted."""
        out = []
        for i, token in enumerate(self.tokens):
            if token == '%%':
                out.append(r'\s*%')
            elif token[0] != '%':
                out.append(
                    re.sub(
                        r'\s+', r'\\s*', ''.join(
                            c if c.isspace() else re.escape(c)
                            for c in token)))
            else:
                letter = token[1]
                if letter in 'aA':
                    what = '|'.join(
                        '{}|{}'.format(n, n[:3]) for n in model._DAYS)
                elif letter in 'bB':
                    what = '|'.join(
                        '{}|{}'.format(n, n[:3]) for n in model._MONTHS)
                elif letter in 'pP':
                    what = '[aApP][mM]'
                elif letter == 'Y':
                    what = r'[-+]?\d{1,4}'
                else:
                    what = r'[-+]?\d{1,2}'
                out.append(r'\s*(?P<g{}>{})'.format(i, what))
        out.append(r'\s*')
        return re.compile(''.join(out), re.IGNORECASE)

    def separated(self):
        """Tell whether the fields of a text are found without ambiguity."""
        literal = self.literal()
        if re.search(r'[0-9+-]', literal.replace('-', '')) or not self.tokens:
            return False
        for left, right in zip(self.tokens, self.tokens[1:]):
            if left[0] == '%' and right[0] == '%':
                return False
            if left[0] != '%' and (left.isspace() or left in ('+', '-')):
                # '-' before a number could be a sign
                if left != '-':
                    return False
        return True

    def interpret(self, text):
        """
        Interpret a text.

        Give 'refuse' if it must be refused, the expected values, if it is accepted, or None if
        anything may happen.
        """
        mtch = self.lenient().fullmatch(text)
        if mtch is None:
            return 'refuse'
        if not self.separated():
            return None
        raw = {}
        for i, token in enumerate(self.tokens):
            if token[0] == '%' and token != '%%':
                raw[token[1]] = mtch.group('g{}'.format(i))
        values = {}
        for letter, part in raw.items():
            if letter in NUMERIC:
                if part[0] in '+-':
                    return None
                number = int(part)
                field = FIELD[letter]
                low, high, free = {
                    'year': (0, 9999, ()),
                    'month': (1, 12, ()),
                    'day': (1, 31, ()),
                    'hour': (0, 23, ()),
                    'hour12': (1, 12, (0, )),
                    'minute': (0, 59, ()),
                    'second': (0, 59, (60, 61))
                }[field]
                if number in free:
                    return None
                if not low <= number <= high:
                    return 'refuse'
                if letter == 'y':
                    number += 1900 if number >= 69 else 2000
                values[field] = number
            elif letter in 'bB':
                values['month'] = 1 + next(
                    i for i, n in enumerate(model._MONTHS)
                    if n[:3].lower() == part[:3].lower())
        if 'hour12' in values:
            number = values.pop('hour12') % 12
            if 'hour' in values:
                return None
            letter = next((x for x in 'pP' if x in raw), None)
            if letter is None:
                values['hour12'] = number
            else:
                values['hour'] = number + (
                    12 if raw[letter].lower() == 'pm' else 0)
        elif 'p' in raw or 'P' in raw:
            return None
        if values.get('year') == 0:
            return None
        return values

    def exists(self, values):
        """Tell whether the day exists."""
        if not {'year', 'month', 'day'} <= set(values):
            return True
        return values['day'] <= calendar.monthrange(
            values['year'], values['month'])[1]


# ---------------------------------------------------------------------------
# Texts
# ---------------------------------------------------------------------------

CHARS = '0123456789 -/:.,%TZaApPmMxJanFebMonSun+\u0663\u00e9'


def draw_text(d, fmt, variant):
    """Draw ('canonical', moment parts, text) or ('other', None, text)."""
    moment = fmt.moment(d, variant)
    parts = [
        moment.year, moment.month, moment.day, moment.hour, moment.minute,
        moment.second
    ]
    kind = d.int(0, 99)
    if kind < 45:
        return 'canonical', parts, fmt.text(moment, variant)
    if kind < 70:
        letter = d.choice(fmt.letters)
        field = FIELD[letter]
        number = {
            'year': (0, 9999, 10000, 12345, -1, 5, 69, 68, 100),
            'month': (0, 1, 9, 12, 13, 21, 99, 100, -1),
            'day': (0, 1, 9, 28, 29, 30, 31, 32, 99, 131),
            'hour': (0, 1, 12, 23, 24, 25, 99, 100),
            'hour12': (0, 1, 11, 12, 13, 23, 99, 100),
            'minute': (0, 1, 59, 60, 61, 99, 100),
            'second': (0, 1, 59, 60, 61, 62, 99, 100)
        }.get(field)
        if number is not None and letter in NUMERIC:
            number = d.choice(number)
            text = d.choice(('{:02d}', '{}', '{:2d}', '{:03d}', '{:04d}', '{}')).format(
                number)
        elif field == 'meridian':
            text = d.choice(
                ('am', 'pm', 'AM', 'PM', 'Am', 'a', 'xm', 'p', '', 'a.m.'))
        elif field == 'weekday':
            text = d.choice(('Mon', 'Monday', 'Xon', '', 'monday', 'M'))
        else:
            text = d.choice(
                ('Jan', 'january', 'MAY', 'May', 'Sept', 'Sep', 'Xan', '',
                 'June', 'jun', 'J', 'Decem', '12', '1'))
        return 'other', None, fmt.text(moment, variant, {letter: text})
    text = fmt.text(moment, variant)
    if kind < 75:
        return 'other', None, d.choice(('', ' ', 'x', fmt.fmt, 'None', '0'))
    if kind < 80:
        return 'other', None, text + d.choice(('x', ' ', '0', text, '\n', 'Z'))
    if kind < 84:
        return 'other', None, d.choice(('x', ' ', '0', '-')) + text
    for _ in range(d.choice((1, 1, 2))):
        pos = d.int(0, max(0, len(text) - 1))
        how = d.int(0, 3)
        char = d.choice(CHARS)
        if how == 0:
            text = text[:pos] + char + text[pos:]
        elif how == 1:
            text = text[:pos] + text[pos + 1:]
        elif how == 2:
            text = text[:pos] + char + text[pos + 1:]
        else:
            text = text[:pos + 1] + text[pos:]
    return 'other', None, text


def judge(variant, fmt, text, parts, outcome, rec=None):
    """
    Judge the outcome.

    ``parts`` are given for the canonical text of a moment.  The outcome is ('refused', refs) or
    ('read', values, written text, values as read again).
    """
    if parts is not None:
        want = fmt.values(datetime.datetime(*parts))
        what = 'canonical'
    else:
        want = fmt.interpret(text)
        what = 'free' if want is None else (
            'refuse' if want == 'refuse' else 'lenient')
        if variant == 'date.h' and want == 'refuse' and fmt.lenient().match(
                text):
            # see the known finding cpp-trailing-text
            want = None
            what = 'trailing text'
        if variant == 'go' and want == 'refuse' and 'S' in fmt.letters and re.search(
                r'[0-9][.,][0-9]', text):
            # see the known finding go-fraction-of-seconds
            want = fmt.interpret(re.sub(r'(?<=[0-9])[.,][0-9]+', '', text))
            if want == 'refuse':
                want = None
            what = 'fraction'
    if rec is not None:
        rec.count('{}: {} {}'.format(variant, what, outcome[0]))
    name = '{} {} {!r} {!r}'.format(variant, fmt.kind, fmt.fmt, text)
    if outcome[0] == 'refused':
        if parts is not None and variant == 'date.h' and fmt.runs_on(
                datetime.datetime(*parts)):
            # see the known finding cpp-name-runs-on
            return
        if parts is not None:
            raise Violation('a text of the format is refused: ' + name)
        return
    if variant == 'date.h' and parts is None and outcome[0] == 'failed' and (
            outcome[1].get('what') == 'stold'
            and re.search(r'\.(?![0-9])', text)):
        # see the known finding cpp-seconds-point of C17
        return
    if outcome[0] != 'read':
        raise Violation('reading failed: {} {}'.format(name, outcome))
    values, written, again = outcome[1:]
    if want == 'refuse':
        raise Violation(
            'a text which does not follow the format is accepted: {} as {}'.
            format(name, values))
    if want is None:
        return
    if parts is None and variant != 'ctime' and not fmt.exists(want):
        raise Violation(
            'a day which does not exist is accepted: {} as {}'.format(
                name, values))
    for field, value in want.items():
        got = values['hour'] % 12 if field == 'hour12' else values[field]
        if got != value:
            raise Violation(
                'the {} is read wrongly: {} as {}, expected {}'.format(
                    field, name, values, want))
    if parts is not None and written != text:
        raise Violation(
            'the text is written differently: {} as {!r}'.format(
                name, written))
    if parts is None and not fmt.exists(want):
        return
    if again != values and written is not None:
        if 'year' in want and not 1000 <= want['year']:
            return
        raise Violation(
            'the written text is read differently: {} {} written as {!r} '
            'read as {}'.format(name, values, written, again))


# ---------------------------------------------------------------------------
# Variants
# ---------------------------------------------------------------------------


def mapping_for(variant, formats):
    """Make the schema with optional properties of the formats."""
    out = collections.OrderedDict(
        [('name', 'Some_graph'), ('description', 'defines a graph.')])
    if variant == 'py':
        out['py'] = collections.OrderedDict(
            module_name='mvt', path_as='str', timezone_as='str')
    elif variant == 'go':
        out['go'] = collections.OrderedDict(package='mvt')
    else:
        out['cpp'] = collections.OrderedDict(
            namespace='mvt',
            path_as='std::filesystem::path',
            optional_as='std::optional',
            datetime_library=variant)
    props = collections.OrderedDict()
    for i, (kind, fmt) in enumerate(formats):
        if fmt is None:
            continue
        prop = collections.OrderedDict(type=kind, description='gives a time')
        prop['format'] = fmt
        if i % 3 == 1:
            prop = collections.OrderedDict(
                type='array', description='gives times', values=prop)
        elif i % 3 == 2:
            prop = collections.OrderedDict(
                type='map', description='gives times', values=prop)
        prop['optional'] = True
        props['x{}'.format(i)] = prop
    out['properties'] = props
    return out


def wrap(i, text):
    """Put the text in the document."""
    if i % 3 == 1:
        return {'x{}'.format(i): [text]}
    if i % 3 == 2:
        return {'x{}'.format(i): {'k': text}}
    return {'x{}'.format(i): text}


def unwrap(i, value):
    """Take the value out of the container."""
    if i % 3 == 1:
        return value[0]
    if i % 3 == 2:
        return value['k']
    return value


def place(i):
    """Give the place of the text."""
    return 'doc#/x{}'.format(i) + ('', '/0', '/k')[i % 3]


def values_of(year, month, day, hour, minute, second):
    return {
        'year': year,
        'month': month,
        'day': day,
        'hour': hour,
        'minute': minute,
        'second': second
    }


class Python:
    """Read and write with the generated Python code."""

    def __init__(self, formats, scratch):
        self.package = pyrun.Package(mapping_for('py', formats))

    def values(self, value):
        date = value if isinstance(value, datetime.date) else datetime.date(
            1900, 1, 1)
        time = value if isinstance(
            value,
            (datetime.datetime, datetime.time)) else datetime.time(0, 0, 0)
        return values_of(
            date.year, date.month, date.day, time.hour, time.minute,
            time.second)

    def outcome(self, i, text):
        try:
            graph, errors, _ = self.package.read(wrap(i, text))
        except Exception as err:  # pylint: disable=broad-except
            return ('raised', '{}: {}'.format(type(err).__name__, err))
        name = 'x{}'.format(i)
        if graph is None:
            want = place(i).replace('/k', "/'k'")
            if [r for r, _ in errors] != [want]:
                return ('errors', errors)
            return ('refused', )
        got = self.values(unwrap(i, getattr(graph, name)))
        try:
            written = unwrap(i, self.package.write(graph)[name])
        except Exception as err:  # pylint: disable=broad-except
            return ('raised', '{}: {}'.format(type(err).__name__, err))
        second, _, _ = self.package.read(wrap(i, written))
        again = None if second is None else self.values(
            unwrap(i, getattr(second, name)))
        return ('read', got, written, again)

    def close(self):
        self.package.close()


class Compiled:
    """Read and write with the compiled code."""

    def __init__(self, variant, formats, scratch):
        self.variant = variant
        module = gorun if variant == 'go' else cpprun
        self.toolchain = module.Toolchain(scratch)
        args = {} if variant == 'go' else {'per_unit': 1}
        self.batch = module.Batch(
            [mapping_for(variant, formats)], self.toolchain, **args)
        if self.batch.status[0] == 'refused':
            self.close()
            raise pyrun.Refused(self.batch.message[0])
        if self.batch.status[0] != 'ok':
            self.close()
            raise Violation(
                'the code with the formats does not compile: {} {}'.format(
                    variant, self.batch.message[0]))

    def values(self, raw):
        if 'time' in raw:
            if raw['time'][6:] != [0, 0]:
                raise Violation('bad time: {}'.format(raw))
            return values_of(*raw['time'][:6])
        if 'tm' in raw:
            return values_of(*raw['tm'])
        if 'date' in raw:
            return values_of(*raw['date'], 0, 0, 0)
        try:
            moment = datetime.datetime(
                1970, 1, 1) + datetime.timedelta(seconds=raw['seconds'])
        except OverflowError:
            return values_of(raw['seconds'], -1, -1, -1, -1, -1)
        return values_of(
            moment.year, moment.month, moment.day, moment.hour, moment.minute,
            moment.second)

    def outcome(self, i, text):
        answer = self.batch.parse(0, wrap(i, text), write=True)
        for key in ('died', 'hung', 'threw'):
            if key in answer:
                return ('failed', dict(answer))
        if answer['errors']:
            if [r for r, _ in answer['errors']] != [place(i)]:
                return ('errors', answer['errors'])
            return ('refused', )
        name = 'X{}'.format(i) if self.variant == 'go' else 'x{}'.format(i)
        got = self.values(unwrap(i, answer['content']['properties'][name]))
        again = None
        if not answer['errors2']:
            again = self.values(
                unwrap(i, answer['content2']['properties'][name]))
        return (
            'read', got, unwrap(i, answer['written']['x{}'.format(i)]), again)

    def close(self):
        if hasattr(self, 'batch'):
            self.batch.close()
        self.toolchain.close()


def open_variant(variant, formats, scratch):
    """Open the generated code; refused formats are set to None."""
    formats = list(formats)
    while True:
        try:
            if variant == 'py':
                return Python(formats, scratch), formats
            return Compiled(variant, formats, scratch), formats
        except pyrun.Refused as err:
            refs = sorted(
                set(
                    int(x) for x in re.findall(
                        r'#/properties/x([0-9]+)', str(err))))
            refs = refs or sorted(
                set(int(x) for x in re.findall(r'/x([0-9]+)', str(err))))
            if not refs or any(formats[x][1] is None for x in refs):
                raise Violation(
                    'the refusal does not name a property: {}'.format(err))
            for x in refs:
                formats[x] = (formats[x][0], None)


SIMPLE = re.compile(r'%[a-zA-Z](?:[-/ |~:]%[a-zA-Z])*\Z')


def search(variant, scratch, seed, number, texts, seconds):
    """Search one variant in one process."""
    import time
    rec = runner.Recorder()
    deadline = time.monotonic() + seconds
    for turn in range(number):
        if time.monotonic() > deadline:
            rec.count('stopped by the time budget')
            break
        d = gen.R(seed * 7919 + turn)
        formats = []
        for _ in range(40):
            kind = d.choice(('date', 'time', 'datetime'))
            fmt = Format(kind, ''.join(draw_tokens(d, kind)))
            reason = fmt.usable(variant)
            if reason is not None:
                rec.count('{}: {}'.format(variant, reason))
                continue
            formats.append((kind, fmt.fmt))
        search_formats(variant, formats, d, texts, scratch, rec)
        if rec.failures:
            break
    return rec


def search_formats(variant, formats, d, texts, scratch, rec):
    """Search the texts of the formats."""
    try:
        handle, kept = open_variant(variant, formats, scratch)
    except Violation as err:
        rec.fail(str(err), {'variant': variant, 'formats': formats})
        return
    try:
        for i, (kind, fmt) in enumerate(formats):
            if kept[i][1] is None:
                rec.count('{}: refused'.format(variant))
                if variant != 'go' or SIMPLE.match(fmt):
                    rec.fail(
                        'a usable format is refused: {} {} {!r}'.format(
                            variant, kind, fmt), {
                                'variant': variant,
                                'formats': [(kind, fmt)],
                                'refused': True
                            })
                continue
            form = Format(kind, fmt)
            for _ in range(texts):
                _, parts, text = draw_text(d, form, variant)
                if '\0' in text:
                    continue
                rec.case(
                    '{} {} {} {}'.format(variant, kind, fmt, text)
                    if len(form.letters) > 1 and len(text) > 3 else None,
                    sample={
                        'variant': variant,
                        'type': kind,
                        'format': fmt,
                        'text': text
                    })
                try:
                    judge(
                        variant, form, text, parts, handle.outcome(i, text),
                        rec)
                except Violation as err:
                    rec.fail(
                        str(err), {
                            'variant': variant,
                            'formats': [(kind, fmt)] * (i % 3 + 1),
                            'text': text,
                            'parts': parts
                        })
                    break
    finally:
        handle.close()


def check(prop, ctx):
    """Run the check."""
    seconds = ctx.scale(100, 700)
    jobs = []
    for variant, shards, quick, thorough in (('date.h', 2, 1, 12), ('ctime', 2,
                                                                    1, 15),
                                             ('go', 2, 3, 60), ('py', 2, 4,
                                                                80)):
        for shard in range(shards):
            jobs.append(
                (
                    variant, ctx.scratch, (ctx.seed * 50 + shard) * 1009 +
                    len(variant), ctx.scale(quick, thorough),
                    ctx.scale(40, 80), seconds))
    for rec in runner.parallel(search, jobs, ctx.scratch):
        ctx.rec.merge(rec)
    ctx.rec.samples = ctx.rec.samples[::4]
    known.probe(ctx)
    return runner.finish(
        ctx, 'a distinct text longer than three characters read with a format '
        'of at least two directives, per language', (
            'texts which do not follow the format strictly (a missing zero, '
            'other white space or case) may be refused or accepted, with the '
            'right values',
            'the fields which the format does not contain are not compared'))


def replay(prop, failure, scratch):
    """Replay a failure."""
    case = failure['case']
    formats = [tuple(x) for x in case['formats']]
    try:
        handle, kept = open_variant(case['variant'], formats, scratch)
    except Violation as err:
        return str(err)
    try:
        if kept[-1][1] is None:
            return 'a usable format is refused'
        if 'text' not in case:
            return None
        i = len(formats) - 1
        judge(
            case['variant'], Format(*formats[i]), case['text'], case['parts'],
            handle.outcome(i, case['text']))
    except Violation as err:
        return str(err)
    finally:
        handle.close()
    return None
