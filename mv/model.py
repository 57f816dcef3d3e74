"""Reference semantics of mapry schemas, written from the documentation.

Nothing here uses mapry.  A schema is the plain mapping as it is written in the schema file.
"""
import collections
import datetime
import decimal
import fractions
import math
import pathlib
import re
from typing import Any, Dict, List, Optional, Tuple

PRIMITIVES = (
    'boolean', 'integer', 'float', 'string', 'path', 'date', 'time', 'datetime',
    'time_zone', 'duration')

DEFAULT_FORMAT = {
    'date': '%Y-%m-%d',
    'time': '%H:%M:%S',
    'datetime': '%Y-%m-%dT%H:%M:%SZ'
}

_PLURALS = {
    'criterion': 'criteria',
    'minimum': 'minima',
    'maximum': 'maxima',
    'matrix': 'matrices',
    'life': 'lives',
    'focus': 'foci'
}


def plural(name: str) -> str:
    """Infer the plural as documented."""
    head, sep, last = name.rpartition('_')
    low = last[:1].lower() + last[1:]
    if low in _PLURALS:
        repl = _PLURALS[low]
        if last[:1].isupper():
            repl = repl[:1].upper() + repl[1:]
        return head + sep + repl
    if last[-1:] == 'y' and last[-2:-1] not in tuple('aeiou'):
        return name[:-1] + 'ies'
    if last[-1:] in ('x', 's'):
        return name + 'es'
    return name + 's'


def ucamel(name: str) -> str:
    """Translate to upper camel case."""
    return ''.join(p[:1].upper() + p[1:] for p in name.split('_'))


class Type:
    """A type of a value."""

    def __init__(self, mapping, names):
        self.kind = mapping['type']
        self.minimum = mapping.get('minimum')
        self.maximum = mapping.get('maximum')
        self.exmin = bool(mapping.get('exclusive_minimum', False))
        self.exmax = bool(mapping.get('exclusive_maximum', False))
        self.pattern = mapping.get('pattern')
        self.fmt = mapping.get('format', DEFAULT_FORMAT.get(self.kind))
        self.minsize = mapping.get('minimum_size')
        self.maxsize = mapping.get('maximum_size')
        self.values = None
        self.name = None
        if self.kind in ('array', 'map'):
            self.values = Type(mapping['values'], names)
        elif self.kind not in PRIMITIVES:
            self.name = self.kind
            self.kind = names[self.name]  # 'class' or 'embed'

    def walk(self):
        """Iterate over the type and the nested types."""
        yield self
        if self.values is not None:
            yield from self.values.walk()


class Prop:
    """A property of a composite."""

    def __init__(self, name, mapping, names):
        self.name = name
        self.json = mapping.get('json', name)
        self.optional = mapping.get('optional', False)
        self.description = mapping['description']
        self.type = Type(mapping, names)


class Composite:
    """Graph, class or embed."""

    def __init__(self, kind, mapping, names):
        self.kind = kind
        self.name = mapping['name']
        self.description = mapping['description']
        self.plural = None
        self.id_pattern = None
        if kind == 'class':
            self.plural = mapping.get('plural', plural(self.name))
            self.id_pattern = mapping.get('id_pattern')
        self.props = [
            Prop(name, m, names)
            for name, m in mapping.get('properties', {}).items()
        ]

    @property
    def registry(self):
        """JSON key of the class registry."""
        return self.plural.lower()


class Schema:
    """A schema as written."""

    def __init__(self, mapping):
        self.mapping = mapping
        names = {}
        for c in mapping.get('classes', ()):
            names[c['name']] = 'class'
        for e in mapping.get('embeds', ()):
            names[e['name']] = 'embed'
        self.classes = collections.OrderedDict()
        self.embeds = collections.OrderedDict()
        for c in mapping.get('classes', ()):
            self.classes[c['name']] = Composite('class', c, names)
        for e in mapping.get('embeds', ()):
            self.embeds[e['name']] = Composite('embed', e, names)
        self.graph = Composite('graph', mapping, names)
        self.py = mapping.get('py')
        self.go = mapping.get('go')
        self.cpp = mapping.get('cpp')

    def composites(self):
        """Iterate over all the composites."""
        yield self.graph
        yield from self.classes.values()
        yield from self.embeds.values()

    def types(self):
        """Iterate over all the types."""
        for comp in self.composites():
            for prop in comp.props:
                yield from prop.type.walk()

    def reachable_embeds_with_refs(self):
        """Not used for the semantics, only for classification."""
        return [
            e for e in self.embeds.values()
            if any(t.kind == 'class' for p in e.props for t in p.type.walk())
        ]


# ---------------------------------------------------------------------------
# Durations
# ---------------------------------------------------------------------------

_DURATION_RE = re.compile(
    r'(?P<sign>[+-])?P'
    r'(?:(?P<Y>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)Y)?'
    r'(?:(?P<M>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)M)?'
    r'(?:(?P<W>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)W)?'
    r'(?:(?P<D>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)D)?'
    r'(?:T'
    r'(?:(?P<h>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)H)?'
    r'(?:(?P<m>(?:0|[1-9][0-9]*)(?:\.[0-9]+)?)M)?'
    r'(?:(?P<s>(?:0|[1-9][0-9]*))(?:\.(?P<f>[0-9]+))?S)?'
    r')?', re.ASCII)

_UNIT = {
    'Y': fractions.Fraction('365.2425') * 86400,
    'M': fractions.Fraction('30.436875') * 86400,
    'W': fractions.Fraction(7 * 86400),
    'D': fractions.Fraction(86400),
    'h': fractions.Fraction(3600),
    'm': fractions.Fraction(60),
    's': fractions.Fraction(1),
}


def duration(text: str):
    """Give (exact seconds as fraction, number of digits of the second fraction), or None if malformed."""
    mtch = _DURATION_RE.fullmatch(text)
    if mtch is None:
        return None
    total = fractions.Fraction(0)
    for key, unit in _UNIT.items():
        if mtch.group(key):
            total += fractions.Fraction(mtch.group(key)) * unit
    digits = 0
    if mtch.group('f'):
        digits = len(mtch.group('f'))
        total += fractions.Fraction(int(mtch.group('f')), 10**digits)
    if mtch.group('sign') == '-':
        total = -total
    return total, digits


# ---------------------------------------------------------------------------
# Reference parser
# ---------------------------------------------------------------------------


class Unknown(Exception):
    """The reference semantics makes no statement on this document."""


class _Abort(Exception):
    pass


MISSING = object()


class Ref:
    """Reference to a class instance."""

    def __init__(self, cls, id):
        self.cls = cls
        self.id = id

    def __eq__(self, other):
        return isinstance(other, Ref) and (self.cls, self.id) == (
            other.cls, other.id)

    def __hash__(self):
        return hash((self.cls, self.id))

    def __repr__(self):
        return 'Ref({!r}, {!r})'.format(self.cls, self.id)


def float_hex(value) -> str:
    """Canonical form of a float."""
    return float(value).hex()


class Parser:
    """Parse documents as the generated code is expected to do."""

    def __init__(self, schema: Schema, lang: str, ref: str):
        assert lang in ('py', 'go', 'cpp')
        self.schema = schema
        self.lang = lang
        self.ref = ref
        self.errors = []  # type: List[Tuple[str, str]]
        self.ids = {}  # type: Dict[str, Dict[str, None]]

    def matches(self, pattern, text):
        """Match; C++ matches the bytes.

        The dollar also matches before a line break at the end only in Python.
        """
        if self.lang == 'cpp':
            if '\r' in text:
                # the dot does not match it in ECMAScript
                raise Unknown('carriage return')
            return re.fullmatch(
                pattern.encode('utf-8'), text.encode('utf-8',
                                                     'surrogatepass'))
        if self.lang == 'go':
            return re.fullmatch(pattern, text)
        return re.match(pattern, text)

    def err(self, ref, what):
        self.errors.append((ref, what))

    def quote(self, key):
        return repr(key) if self.lang == 'py' else key

    # -- values ------------------------------------------------------------

    def is_str(self, value):
        return isinstance(value, str)

    def number(self, value, typ):
        """Check an integer or a float."""
        if isinstance(value, bool):
            if self.lang == 'py':
                raise Unknown('a boolean as a number')
            return None
        if not isinstance(value, (int, float)):
            return None
        if typ.kind == 'integer':
            if self.lang == 'py':
                return None if isinstance(value, float) else value
            # Numbers have only one type in JSON for Go; jsoncpp regards whole
            # doubles as integers
            if isinstance(value, float):
                if math.isnan(value) or math.isinf(value):
                    raise Unknown('not a JSON number')
                if value != math.floor(value):
                    return None
                if not -2.0**63 <= value < 2.0**63:
                    return None
                return int(value)
            if self.lang == 'go':
                if abs(value) > 2**53:
                    raise Unknown('an integer beyond float64')
                return value
            if value < -2**63 and float(max(value, -2**64)) == -2.0**63:
                raise Unknown('an integer rounded by the library')
            if not -2**63 <= value < 2**63:
                return None
            return value
        try:
            return float(value)
        except OverflowError:
            raise Unknown('an integer beyond float')

    def value(self, typ: Type, value: Any, ref: str):
        """Parse a value; give MISSING if there were errors."""
        kind = typ.kind
        if kind == 'boolean':
            if not isinstance(value, bool):
                self.err(ref, 'type')
                return MISSING
            return value

        if kind in ('integer', 'float'):
            num = self.number(value, typ)
            if num is None:
                self.err(ref, 'type')
                return MISSING
            cmp_num = value if self.lang == 'py' else num
            ok = True
            if typ.minimum is not None:
                if not (cmp_num > typ.minimum or
                        (not typ.exmin and cmp_num == typ.minimum)):
                    self.err(ref, 'minimum')
                    ok = False
            if typ.maximum is not None:
                if not (cmp_num < typ.maximum or
                        (not typ.exmax and cmp_num == typ.maximum)):
                    self.err(ref, 'maximum')
                    ok = False
            if not ok:
                return MISSING
            if kind == 'integer':
                return num
            return float_hex(num)

        if kind in ('string', 'path'):
            if not self.is_str(value):
                self.err(ref, 'type')
                return MISSING
            if typ.pattern is not None and not self.matches(
                    typ.pattern, value):
                self.err(ref, 'pattern')
                return MISSING
            if kind == 'path' and self.lang == 'py' and (
                    self.schema.py['path_as'] == 'pathlib.Path'):
                return str(pathlib.PurePosixPath(value))
            return value

        if kind in ('date', 'time', 'datetime'):
            if not self.is_str(value):
                self.err(ref, 'type')
                return MISSING
            got = read_datetime(kind, typ.fmt, value)
            if got is None:
                self.err(ref, 'format')
                return MISSING
            return got

        if kind == 'time_zone':
            if not self.is_str(value):
                self.err(ref, 'type')
                return MISSING
            known = self.known_zone(value)
            if not known:
                self.err(ref, 'zone')
                return MISSING
            return value

        if kind == 'duration':
            if not self.is_str(value):
                self.err(ref, 'type')
                return MISSING
            got = duration(value)
            if got is None:
                self.err(ref, 'duration')
                return MISSING
            seconds, digits = got
            limit = 6 if self.lang == 'py' else 9
            if digits > limit:
                self.err(ref, 'duration precision')
                return MISSING
            nanos = seconds * 10**9
            if nanos.denominator != 1 or (
                    self.lang == 'py' and nanos.numerator % 1000 != 0):
                raise Unknown('a duration finer than the resolution')
            if self.lang != 'py' and abs(nanos) >= 2**63:
                self.err(ref, 'duration overflow')
                return MISSING
            return int(nanos)

        if kind == 'array':
            if not isinstance(value, (list, tuple)):
                self.err(ref, 'type')
                return MISSING
            if typ.minsize is not None and len(value) < typ.minsize:
                self.err(ref, 'minimum_size')
                return MISSING
            if typ.maxsize is not None and len(value) > typ.maxsize:
                self.err(ref, 'maximum_size')
                return MISSING
            return [
                self.value(typ.values, item, '{}/{}'.format(ref, i))
                for i, item in enumerate(value)
            ]

        if kind == 'map':
            if not isinstance(value, dict):
                self.err(ref, 'type')
                return MISSING
            result = collections.OrderedDict()
            for key, item in value.items():
                result[key] = self.value(
                    typ.values, item, '{}/{}'.format(ref, self.quote(key)))
            return result

        if kind == 'class':
            if not self.is_str(value):
                self.err(ref, 'type')
                return MISSING
            if value not in self.ids.get(typ.name, ()):
                self.err(ref, 'dangling')
                return MISSING
            return Ref(typ.name, value)

        if kind == 'embed':
            return self.composite(self.schema.embeds[typ.name], value, ref)

        raise AssertionError(kind)

    def known_zone(self, value):
        if self.lang == 'py' and self.schema.py['timezone_as'] == 'str':
            return True
        if self.lang == 'cpp' and self.schema.cpp[
                'datetime_library'] == 'ctime':
            return True
        if value in ZONES:
            return True
        if value in NOT_ZONES:
            return False
        raise Unknown('a time zone')

    def composite(self, comp: Composite, value, ref):
        if not isinstance(value, dict):
            self.err(ref, 'type')
            return MISSING
        return self.properties(comp, value, ref)

    def properties(self, comp, value, ref):
        result = collections.OrderedDict()
        for prop in comp.props:
            absent = prop.json not in value
            if self.lang == 'py' and not absent and value[prop.json] is None:
                absent = True
            if absent:
                if not prop.optional:
                    self.err(ref, 'missing ' + prop.json)
                    result[prop.name] = MISSING
                else:
                    result[prop.name] = None
            else:
                result[prop.name] = self.value(
                    prop.type, value[prop.json], '{}/{}'.format(
                        ref, prop.json))
        return result

    def graph(self, value):
        """Parse the graph; give the content (None if there are errors)."""
        schema = self.schema
        if not isinstance(value, dict):
            self.err(self.ref, 'type')
            return None
        registries = collections.OrderedDict()
        for cls in schema.classes.values():
            ref = '{}/{}'.format(self.ref, cls.registry)
            self.ids[cls.name] = {}
            registry = value.get(cls.registry, MISSING)
            if registry is MISSING:
                continue
            if registry is None and self.lang == 'py':
                raise Unknown('a null registry')
            if not isinstance(registry, dict):
                self.err(ref, 'type')
                continue
            for an_id in registry:
                if cls.id_pattern is not None and not self.matches(
                        cls.id_pattern, an_id):
                    self.err(ref, 'id_pattern')
                else:
                    self.ids[cls.name][an_id] = None

        if self.errors:
            return None

        for cls in schema.classes.values():
            ref = '{}/{}'.format(self.ref, cls.registry)
            registries[cls.name] = collections.OrderedDict()
            for an_id, instance in value.get(cls.registry, {}).items():
                registries[cls.name][an_id] = self.composite(
                    cls, instance, '{}/{}'.format(ref, self.quote(an_id)))
        props = self.properties(schema.graph, value, self.ref)
        if self.errors:
            return None
        return {'registries': registries, 'properties': props}


# Time zones known to all the libraries
ZONES = frozenset((
    'UTC', 'Europe/Zurich', 'America/New_York', 'Asia/Tokyo', 'Africa/Nairobi',
    'America/Argentina/Buenos_Aires', 'Australia/Sydney', 'Etc/GMT+5',
    'Pacific/Auckland'))
ZONE_LIST = ('UTC', 'Europe/Zurich', 'America/New_York', 'Asia/Tokyo',
             'Africa/Nairobi', 'America/Argentina/Buenos_Aires',
             'Australia/Sydney', 'Etc/GMT+5', 'Pacific/Auckland')
NOT_ZONES = ('Nowhere/Land', 'Not a zone', 'Europe/Zurichh', 'x')


def read_datetime(kind, fmt, text):
    """Read by the rules of strptime; give the canonical text, None if it does not follow the format."""
    try:
        got = datetime.datetime.strptime(text, fmt)
    except ValueError:
        return None
    if kind == 'date':
        return got.date().isoformat()
    if kind == 'time':
        return got.time().isoformat()
    return got.isoformat()


def write_datetime(kind, fmt, canonical):
    """Write the canonical text in the format."""
    if kind == 'date':
        val = datetime.date.fromisoformat(canonical)
    elif kind == 'time':
        val = datetime.time.fromisoformat(canonical)
    else:
        val = datetime.datetime.fromisoformat(canonical)
    return strftime(val, fmt)


def strftime(val, fmt):
    """Format by the documented directives (independent of the platform for all the years)."""
    date = val if isinstance(val, datetime.date) else None
    time = val if isinstance(val, (datetime.datetime, datetime.time)) else None
    if date is None:
        date = datetime.date(1900, 1, 1)
    if time is None:
        time = datetime.datetime(1900, 1, 1)

    out = []
    it = iter(fmt)
    for char in it:
        if char != '%':
            out.append(char)
            continue
        directive = next(it)
        hour12 = time.hour % 12 or 12
        out.append({
            'a': lambda: _DAYS[date.weekday()][:3],
            'A': lambda: _DAYS[date.weekday()],
            'b': lambda: _MONTHS[date.month - 1][:3],
            'B': lambda: _MONTHS[date.month - 1],
            'd': lambda: '{:02d}'.format(date.day),
            'e': lambda: '{:2d}'.format(date.day),
            'm': lambda: '{:02d}'.format(date.month),
            'y': lambda: '{:02d}'.format(date.year % 100),
            'Y': lambda: '{:04d}'.format(date.year),
            'H': lambda: '{:02d}'.format(time.hour),
            'I': lambda: '{:02d}'.format(hour12),
            'l': lambda: '{:2d}'.format(hour12),
            'M': lambda: '{:02d}'.format(time.minute),
            'p': lambda: 'AM' if time.hour < 12 else 'PM',
            'P': lambda: 'am' if time.hour < 12 else 'pm',
            'S': lambda: '{:02d}'.format(time.second),
            'z': lambda: '+0000',
            'Z': lambda: 'UTC',
            '%': lambda: '%',
        }[directive]())
    return ''.join(out)


_DAYS = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
         'Sunday')
_MONTHS = ('January', 'February', 'March', 'April', 'May', 'June', 'July',
           'August', 'September', 'October', 'November', 'December')


# ---------------------------------------------------------------------------
# Reference serializer
# ---------------------------------------------------------------------------


def serialize(schema: Schema, content):
    """Give the expected document of the content.

    Durations are left in nanoseconds (see ``normal``) as there are many texts of one time span.
    """
    target = collections.OrderedDict()
    _serialize_props(schema, schema.graph, content['properties'], target)
    for cls in schema.classes.values():
        registry = content['registries'][cls.name]
        if registry:
            target[cls.registry] = collections.OrderedDict(
                (an_id,
                 _serialize_props(schema, cls, props,
                                  collections.OrderedDict()))
                for an_id, props in registry.items())
    return target


def _serialize_props(schema, comp, props, target):
    for prop in comp.props:
        value = props[prop.name]
        if value is None and prop.optional:
            continue
        target[prop.json] = _serialize_value(schema, prop.type, value)
    return target


def _serialize_value(schema, typ, value):
    kind = typ.kind
    if kind == 'float':
        return float.fromhex(value)
    if kind in ('date', 'time', 'datetime'):
        return write_datetime(kind, typ.fmt, value)
    if kind == 'array':
        return [_serialize_value(schema, typ.values, item) for item in value]
    if kind == 'map':
        return collections.OrderedDict(
            (key, _serialize_value(schema, typ.values, item))
            for key, item in value.items())
    if kind == 'class':
        return value.id
    if kind == 'embed':
        return _serialize_props(
            schema, schema.embeds[typ.name], value, collections.OrderedDict())
    return value


def normal_document(schema: Schema, doc):
    """Replace duration texts by nanoseconds in a valid, serialized document."""
    if not isinstance(doc, dict):
        return doc
    result = _normal_props(schema, schema.graph, doc)
    for cls in schema.classes.values():
        if isinstance(result.get(cls.registry), dict):
            result[cls.registry] = collections.OrderedDict(
                (an_id, _normal_props(schema, cls, inst))
                for an_id, inst in result[cls.registry].items())
    return result


def _normal_props(schema, comp, value):
    if not isinstance(value, dict):
        return value
    result = collections.OrderedDict(value)
    for prop in comp.props:
        if prop.json in result:
            result[prop.json] = _normal_value(
                schema, prop.type, result[prop.json])
    return result


def _normal_value(schema, typ, value):
    if typ.kind == 'duration' and isinstance(value, str):
        got = duration(value)
        if got is None:
            return value
        nanos = got[0] * 10**9
        return int(nanos) if nanos.denominator == 1 else str(nanos)
    if typ.kind == 'array' and isinstance(value, list):
        return [_normal_value(schema, typ.values, v) for v in value]
    if typ.kind == 'map' and isinstance(value, dict):
        return collections.OrderedDict(
            (k, _normal_value(schema, typ.values, v)) for k, v in value.items())
    if typ.kind == 'embed':
        return _normal_props(schema, schema.embeds[typ.name], value)
    return value


def same_json(left, right, ordered=False, numbers_loose=False):
    """Compare JSON values strictly by type (True is not 1) and, if ``ordered``, by the order of keys."""
    if isinstance(left, bool) or isinstance(right, bool):
        return left is right
    if isinstance(left, (int, float)) and isinstance(right, (int, float)):
        if not numbers_loose and type(left) is not type(right):
            return False
        return left == right and math.copysign(1, left) == math.copysign(
            1, right)
    if isinstance(left, dict) and isinstance(right, dict):
        if ordered and list(left) != list(right):
            return False
        return left.keys() == right.keys() and all(
            same_json(left[k], right[k], ordered, numbers_loose) for k in left)
    if isinstance(left, (list, tuple)) and isinstance(right, (list, tuple)):
        return len(left) == len(right) and all(
            same_json(a, b, ordered, numbers_loose)
            for a, b in zip(left, right))
    return type(left) is type(right) and left == right


def jsonable_content(content):
    """Represent the content so that it can be written as JSON."""

    def convert(val):
        if isinstance(val, Ref):
            return {'$ref': val.cls, '$id': val.id}
        if isinstance(val, dict):
            return collections.OrderedDict(
                (k, convert(v)) for k, v in val.items())
        if isinstance(val, (list, tuple)):
            return [convert(v) for v in val]
        if val is MISSING:
            return '<missing>'
        return val

    return convert(content)
