"""Hypothesis strategies for schemas, documents and faulty documents."""
import collections
import copy
import datetime
import json
import math
import random
import re
import struct
from typing import Any, Dict, List, Optional, Sequence, Tuple

from hypothesis import strategies as st

from . import model

_INTS = {}  # type: Dict[Tuple[int, int], Any]


class D:
    """Wrap the draw function of Hypothesis with short-hands."""

    def __init__(self, draw):
        self.draw = draw

    def int(self, low, high):
        if low >= high:
            return low
        key = (low, high)
        if key not in _INTS:
            _INTS[key] = st.integers(low, high)
        return self.draw(_INTS[key])

    def choice(self, seq):
        return seq[self.int(0, len(seq) - 1)]

    def chance(self, percent):
        """Give True in about ``percent`` of the cases; shrinks to False."""
        return self.int(0, 99) >= 100 - percent

    def sample(self, seq, count):
        """Draw distinct elements."""
        rest = list(seq)
        out = []
        for _ in range(min(count, len(rest))):
            out.append(rest.pop(self.int(0, len(rest) - 1)))
        return out

    def text(self, low=0, high=6):
        return self.draw(_TEXTS[(low, high)] if (low, high) in _TEXTS else
                         _text_strategy(low, high))

    def floats(self, low=None, high=None):
        return self.draw(
            st.floats(
                low, high, allow_nan=False, allow_infinity=False))


class R(D):
    """Draw from a generator of random numbers (the compiled code is searched in batches)."""

    def __init__(self, seed):  # pylint: disable=super-init-not-called
        self.r = random.Random(seed)

    def int(self, low, high):
        if low >= high:
            return low
        if high - low > 200 and self.r.random() < 0.3:
            return self.r.choice((low, high, low + 1, high - 1))
        return self.r.randint(low, high)

    def chance(self, percent):
        return self.r.random() * 100 < percent

    def text(self, low=0, high=6):
        return ''.join(
            self.character() for _ in range(self.r.randint(low, high)))

    def character(self):
        r = self.r.random()
        if r < 0.6:
            return self.r.choice(_COMMON)
        if r < 0.75:
            return self.r.choice(_RARE)
        return chr(self.r.randint(0x20, 0x2fff))

    def floats(self, low=None, high=None):
        if low is not None and high is not None:
            return low + (high - low) * self.r.random()
        for _ in range(20):
            shape = self.r.randint(0, 3)
            if shape == 0:
                value = self.r.uniform(-1000, 1000)
            elif shape == 1:
                value = float(self.r.randint(-10**6, 10**6))
            elif shape == 2:
                value = struct.unpack('<d',
                                      self.r.getrandbits(64).to_bytes(
                                          8, 'little'))[0]
            else:
                value = self.r.choice(
                    (0.0, -0.0, 0.1, 1e22, 5e-324, 1.7976931348623157e308,
                     2.5, 1e-7, 123456789012345680.0))
            if not math.isfinite(value):
                continue
            if low is not None and value < low:
                value = low + abs(value - low) if math.isfinite(
                    value - low) else low
            if high is not None and value > high:
                value = high - abs(value - high) if math.isfinite(
                    value - high) else high
            if math.isfinite(value):
                return value
        return low if low is not None else high if high is not None else 0.0

    def any_json(self, depth=3):
        """Draw a JSON value."""
        kind = self.r.randint(0, 8 if depth > 0 else 5)
        if kind == 0:
            return None
        if kind == 1:
            return self.r.random() < 0.5
        if kind == 2:
            return self.r.choice(
                (0, 1, -1, 7, 2**31, -2**31, 2**53, 2**63 - 1, -2**63, 2**63,
                 2**64 - 1, 10**25, self.r.randint(-1000, 1000)))
        if kind == 3:
            return self.floats()
        if kind <= 5:
            return self.text(0, 5)
        if kind == 6:
            return [self.any_json(depth - 1) for _ in range(self.int(0, 3))]
        return {
            self.text(0, 4): self.any_json(depth - 1)
            for _ in range(self.int(0, 3))
        }


_TEXTS = {}  # type: Dict[Tuple[int, int], Any]

_COMMON = "abcxyz019 _-/.:,'\"\\\n\t{}%$`<>&#?*()[]"
_RARE = '\u00e9\u00df\u4e2d\u2028\U0001f600\ufeff\x7f\x01'

_ALPHABET = st.one_of(
    st.sampled_from("abcxyz019 _-/.:,'\"\\\n\t{}%$`<>&#?*()[]"),
    st.characters(
        min_codepoint=0x20, max_codepoint=0x2fff, blacklist_categories=('Cs',)),
    st.sampled_from('\u00e9\u00df\u4e2d\u2028\U0001f600\ufeff\x7f\x01'))


def _text_strategy(low, high):
    strategy = st.text(alphabet=_ALPHABET, min_size=low, max_size=high)
    _TEXTS[(low, high)] = strategy
    return strategy


ASCII = ''.join(chr(i) for i in range(32, 127))


class Options:
    """What to generate."""

    def __init__(self,
                 langs=('py',),
                 max_classes=3,
                 max_embeds=3,
                 max_props=4,
                 depth=3,
                 exotic_json=25,
                 exotic_description=0,
                 big_integers=True,
                 safe_formats=True,
                 weird_names=0,
                 ctime=True,
                 indention=True,
                 patterns=True,
                 wide_formats=False,
                 recursive=0,
                 sparse=10):
        self.langs = tuple(langs)
        self.max_classes = max_classes
        self.max_embeds = max_embeds
        self.max_props = max_props
        self.depth = depth
        self.exotic_json = exotic_json
        self.exotic_description = exotic_description
        self.big_integers = big_integers
        self.safe_formats = safe_formats
        self.weird_names = weird_names
        self.ctime = ctime
        self.indention = indention
        self.patterns = patterns
        self.wide_formats = wide_formats
        self.recursive = recursive
        self.sparse = sparse


class Case:
    """A generated schema together with what is needed to generate documents."""

    def __init__(self, mapping, patterns, options):
        self.mapping = mapping
        self.patterns = patterns
        self.options = options
        self.schema = model.Schema(mapping)


PROPERTY_WORDS = (
    'x', 'some_name', 'URL', 'item_count', 'n2', 'Weight', 'someThing', 'b_2_c',
    'Some_Value', 'longer_property_name', 'IDs', 'kind', 'label', 'ref',
    'value', 'target', 'errors', 'node', 'edge', 'graph', 'name', 'instance',
    'cast', 'key', 'item', 'registry', 'text', 'data', 'type_of', 'start_at')

COMPOSITE_WORDS = (
    'Person', 'Node', 'Some_thing', 'URL_entry', 'Address', 'Box', 'City',
    'Focus', 'Item2', 'Edge', 'Matrix', 'Day', 'Q', 'Long_composite_name',
    'Weight', 'Kind', 'Gas', 'camelCased'.capitalize(), 'Key_to_Value',
    'Class_focus')

PLURAL_WORDS = ('Crowd', 'Node_list', 'List_of_URLs', 'Many', 'Bs', 'All2')

GRAPH_WORDS = ('Some_graph', 'Graph', 'Pipeline', 'The_Graph2', 'G',
               'URL_graph')

EXOTIC_JSON = (
    'someJson', 'with-dash', 'a b', 'x/y', '$ref', '100%', '%d %s', '{}', '{0}',
    "single's", 'quote"s', 'back\\slash', 'back\\', '`tick`', 'new\nline',
    'tab\tbed', '', 'ünï', '日本', '{{ x }}', '{% raw %}', '??/', '\\u0041',
    '</script>', '#', '//', '/* */', 'class', 'null', '0', '\x7f', '"', "'",
    "'''", '"""', '\\"', 'R"(x)"', ')v0g0n"', '\U0001f600', '\u2028', '\x01',
    '\a\b\f\v\x1b', '\r', '%', '%%', 'id', 'ID', 'a    b', ' ' * 8, ' x  ',
    '\t\tx\n    y')

EXOTIC_DESCRIPTIONS = (
    'has "quotes".', "has 'quotes'.", 'ends with a backslash\\.', 'is\\nnot.',
    'has triple """ quotes.', "has triple ''' quotes.", 'closes */ comment.',
    'opens /* comment.', 'has // slashes.', 'has {{ braces }}.',
    'has {% tags %}.', 'has {# notes #}.', 'has 100% {} {0} %s %d.',
    'has a `tick`.', 'is ünïcode 日本.', 'has \\x bad escape.',
    'has \\N{bad} \\u12 escapes.', 'trigraph ??/.', 'has <tags> & entities.')

EXOTIC_PROPERTY_DESCRIPTIONS = EXOTIC_DESCRIPTIONS + (
    '', ' ', '"', '"""', '\\', 'ends with a backslash\\', 'two\nlines',
    'two\n\nparagraphs', '\nstarts with a new line', 'ends with a new line\n',
    'list:\n* a\n * b\n\t* c', 'tab\tbed', 'trailing space ',
    'back\\\nslash before new line', '*/', 'carriage\rreturn', 'ends with quote"',
    "it's", '%', '#', 'form\x0cfeed', '\u2028', 'last\\\\')


class _Names:
    """Hand out names which can not clash in any language."""

    def __init__(self):
        self.taken = set()

    @staticmethod
    def norm(name):
        return name.replace('_', '').lower()

    def free(self, name):
        return self.norm(name) not in self.taken

    def take(self, name):
        base = name
        i = 2
        while self.norm(name) in self.taken:
            name = '{}{}'.format(base, i)
            i += 1
        self.taken.add(self.norm(name))
        return name


SAFE_FORMATS = {
    'date': ('%Y-%m-%d', '%d.%m.%Y', '%m/%d/%Y', '%Y%m%d', '%d %b %Y',
             '%B %d, %Y', 'on %Y-%m-%d', '%%%Y-%m-%d'),
    'time': ('%H:%M:%S', '%H-%M-%S', '%H%M%S', '%I:%M:%S %p', '%Hh %Mm %Ss',
             '%S:%M:%H'),
    'datetime': ('%Y-%m-%dT%H:%M:%SZ', '%Y-%m-%d %H:%M:%S', '%d.%m.%Y %H.%M.%S',
                 '%Y%m%d%H%M%S', '%b %d, %Y %I:%M:%S %p', '%H:%M:%S %Y/%m/%d',
                 '%Y-%m-%dT%H:%M:%S')
}


LEAVES = ('integer', 'string', 'boolean', 'float', 'path', 'date', 'datetime',
          'time', 'time_zone', 'duration')


class SchemaMaker:
    """Make schemas."""

    def __init__(self, d: D, options: Options):
        self.d = d
        self.o = options
        self.patterns = {}  # type: Dict[str, Any]
        self.composites = []  # type: List[str]
        self.usable_embeds = []  # type: List[str]

        # Nesting of the values of the properties in a sparse schema,
        # None if the schema is not sparse
        self.nesting = None  # type: Optional[int]
        self.propertied = False

    # -- descriptions -----------------------------------------------------

    def description(self, noun):
        if self.o.exotic_description and self.d.chance(
                self.o.exotic_description):
            return self.d.choice(EXOTIC_DESCRIPTIONS)
        return 'defines {}.'.format(noun)

    def property_description(self, name):
        if self.o.exotic_description and self.d.chance(
                self.o.exotic_description):
            return self.d.choice(EXOTIC_PROPERTY_DESCRIPTIONS)
        return 'gives {}'.format(name)

    # -- types ------------------------------------------------------------

    def pattern(self):
        d = self.d
        if self.patterns and d.chance(25):
            # The same pattern again
            return d.choice(sorted(self.patterns))
        atoms = []
        for _ in range(d.int(1, 3)):
            kind = d.choice(('cls', 'lit', 'alt', 'any'))
            if kind == 'cls':
                body, chars = d.choice(
                    (('[a-z]', 'abmz'), ('[0-9]', '059'),
                     ('[A-Za-z0-9_]', 'aZ0_'), ('[^a]', 'b Z"\'{'),
                     ('[.-]', '.-'), ('[ /]', ' /'), ('[{}]', '{}'),
                     ('["\']', '"\'')))
                atom = ['cls', body, chars]
            elif kind == 'lit':
                char = d.choice("xX/'\"`{}%\\.*()[]|$^+?- :,#&<=@~!;")
                atom = ['cls', _escape(char), char]
            elif kind == 'alt':
                words = d.sample(
                    ('cat', 'dog', 'it\'s', 'a"b', '%d', '{}', 'x', '`',
                     'c    d'), 2)
                atom = [
                    'alt', '({})'.format('|'.join(_escape(w) for w in words)),
                    words
                ]
            else:
                atom = ['cls', '.', 'ab0 "\'']
            quantifier, low, high = d.choice(
                (('', 1, 1), ('+', 1, 3), ('*', 0, 2), ('?', 0, 1),
                 ('{2}', 2, 2), ('{1,3}', 1, 3)))
            atom.extend((quantifier, low, high))
            atoms.append(atom)
        pattern = '^{}$'.format(''.join(a[1] + a[3] for a in atoms))
        self.patterns[pattern] = atoms
        return pattern

    def bounds(self, mapping, integer):
        d = self.d
        shape = d.int(0, 3)
        if shape == 0 and d.chance(50):
            return
        if integer:
            limit = 2**53 if 'go' in self.o.langs else 2**63 - 1
            pool = [0, 1, -1, 10, 100, -100, 2**31, -2**31 - 1, 2**40]
            if self.o.big_integers:
                pool.extend((limit, -limit))
                if 'go' not in self.o.langs:
                    pool.append(-2**63)
            low = d.choice(pool) if d.chance(50) else d.int(-20, 20)
            span = d.choice((0, 1, 2, 3, 10, 1000))
        else:
            pool = [0, 1, -1, 0.5, -0.25, 10, 1.5, -2.75, 100, 1e3, -1e6]
            if d.chance(40):
                # many digits or of any magnitude
                pool = [
                    0.1, 1 / 3, -2 / 3, 2.718281828459045, 1234567.25,
                    -123456789.125, 0.30000000000000004, 1e-7, -1e-9, 1e16,
                    -1e22, 123456789012.5, 5e-324, 1e300, -1.5e-300
                ]
                if d.chance(30):
                    pool = [d.floats(-1e12, 1e12)]
            low = d.choice(pool)
            span = d.choice((0, 1, 0.5, 2.25, 10, 1000, 1e-3, 1e9))
        high = low + span
        if integer and high > limit:
            high = low
            low = high - span
        if shape & 1:
            mapping['minimum'] = low
            if d.chance(40):
                mapping['exclusive_minimum'] = d.chance(70)
        if shape & 2:
            mapping['maximum'] = high
            if d.chance(40):
                mapping['exclusive_maximum'] = d.chance(70)
        if shape == 3:
            exmin = mapping.get('exclusive_minimum', False)
            exmax = mapping.get('exclusive_maximum', False)
            if (low == high and (exmin or exmax)) or (
                    integer and high == low + 1 and exmin and exmax):
                # avoid empty ranges
                mapping.pop('exclusive_minimum', None)
                mapping.pop('exclusive_maximum', None)

    def type(self, mapping, depth, composite_kind):
        d = self.d
        if self.nesting is not None:
            if depth < self.nesting:
                kind = d.choice(('array', 'map'))
            elif self.usable_embeds and d.chance(15):
                kind = 'embed'
            elif self.class_names and d.chance(10):
                kind = 'class'
            else:
                kind = d.choice(LEAVES)
            mapping['type'] = kind
            if kind in ('embed', 'class'):
                mapping['type'] = d.choice(
                    self.usable_embeds if kind ==
                    'embed' else self.class_names)
            return kind
        kinds = ['integer', 'string', 'boolean', 'float', 'path', 'date',
                 'datetime', 'time', 'time_zone', 'duration']
        weights = list(kinds)
        if depth < self.o.depth:
            weights += ['array', 'map'] * (4 if depth == 0 else 5)
        if self.class_names:
            weights += ['class'] * (5 if depth == 0 else 4)
        if self.usable_embeds:
            weights += ['embed'] * (5 if depth == 0 else 4)
        kind = d.choice(weights)

        if kind == 'class':
            mapping['type'] = d.choice(self.class_names)
        elif kind == 'embed':
            mapping['type'] = d.choice(self.usable_embeds)
        else:
            mapping['type'] = kind

        return kind

    def type_details(self, kind, mapping, depth, composite_kind):
        d = self.d
        if kind in ('integer', 'float'):
            self.bounds(mapping, kind == 'integer')
        elif kind in ('string', 'path'):
            if self.o.patterns and d.chance(45):
                mapping['pattern'] = self.pattern()
        elif kind in ('date', 'time', 'datetime'):
            if d.chance(50):
                if self.o.wide_formats and d.chance(50):
                    fmt = d.choice(WIDE_FORMATS[kind])
                else:
                    fmt = d.choice(SAFE_FORMATS[kind])
                mapping['format'] = fmt
        elif kind in ('array', 'map'):
            if kind == 'array' and d.chance(65):
                shape = d.int(1, 3)
                low = d.int(0, 2)
                if d.chance(6):
                    low = d.choice((7, 10, 13))
                if shape & 1:
                    mapping['minimum_size'] = low
                if shape & 2:
                    mapping['maximum_size'] = low + d.int(0, 2)
                    if d.chance(8):
                        mapping['maximum_size'] = d.choice(
                            (low + 10, 100, 1000, 65536, 2**31 - 1, 2**31,
                             2**32, 2**40))
            values = collections.OrderedDict()
            sub = self.type(values, depth + 1, composite_kind)
            self.type_details(sub, values, depth + 1, composite_kind)
            if d.chance(10):
                values['description'] = 'nested value'
            mapping['values'] = values

    def properties(self, composite_kind, names, json_taken):
        d = self.d
        props = collections.OrderedDict()
        count = d.int(0 if d.chance(15) else 1, self.o.max_props)
        if self.o.max_props >= 4 and d.chance(2):
            count = d.int(7, 12)
        if self.nesting is not None:
            count = d.choice((0, 0, 1))
            if composite_kind == 'graph':
                count = d.choice((0, 1, 1)) if self.propertied else 1
            if count:
                self.propertied = True
                self.nesting = d.choice((0, 1, 2, 3, 3, 4, 4, 5))
        renamed = []
        for _ in range(count):
            word = d.choice(PROPERTY_WORDS)
            name = names.take(word)
            mapping = collections.OrderedDict()
            kind = self.type(mapping, 0, composite_kind)
            mapping['description'] = self.property_description(name)
            if d.chance(35):
                mapping['optional'] = d.chance(80)
            self.type_details(kind, mapping, 0, composite_kind)
            if self.o.exotic_json and d.chance(self.o.exotic_json):
                renamed.append(name)
            props[name] = mapping

        taken = {n for n in props if n not in renamed} | set(json_taken)
        if len(renamed) > 1 and d.chance(50) and not (
                set(renamed) & taken):
            # rotate the names
            for i, name in enumerate(renamed):
                props[name]['json'] = renamed[(i + 1) % len(renamed)]
        else:
            for name in renamed:
                base = d.choice(EXOTIC_JSON)
                cand = base
                i = 2
                while cand in taken:
                    cand = '{}{}'.format(base, i)
                    i += 1
                taken.add(cand)
                props[name]['json'] = cand
        return props

    def recursion(self, props, name, embed):
        """Add a property which may lead back to the structure."""
        d = self.d
        mapping = collections.OrderedDict()
        shapes = ['array', 'map', 'array of maps']
        if 'cpp' not in self.o.langs:
            shapes.append('optional')
        shape = d.choice(shapes)
        values = collections.OrderedDict(type=embed)
        if shape == 'optional':
            mapping['type'] = embed
        else:
            mapping['type'] = 'map' if shape == 'map' else 'array'
        mapping['description'] = self.property_description(name)
        if shape == 'optional' or d.chance(30):
            mapping['optional'] = True
        if shape == 'array of maps':
            values = collections.OrderedDict(type='map', values=values)
        if shape != 'optional':
            mapping['values'] = values
            if shape != 'map' and d.chance(30):
                mapping['maximum_size'] = d.int(0, 2)
        if name not in [p.get('json') for p in props.values()]:
            props[name] = mapping

    # -- the schema -------------------------------------------------------

    def make(self) -> Case:
        d = self.d
        o = self.o
        if d.chance(o.sparse):
            # A few properties so that what the code needs is needed by
            # a single type, possibly deep in the collections
            self.nesting = 0
        names = _Names()
        # Variables for pre-allocation
        mapping = collections.OrderedDict()
        mapping['name'] = names.take(d.choice(GRAPH_WORDS))
        mapping['description'] = self.description('a graph')

        if 'py' in o.langs:
            py = collections.OrderedDict()
            py['module_name'] = d.choice(
                ('mvp.somegraph', 'mvp', 'mvp.a.b_2', 'mvp.URL.Graph'))
            py['path_as'] = d.choice(('str', 'pathlib.Path'))
            py['timezone_as'] = d.choice(('str', 'pytz.timezone'))
            if o.indention and d.chance(20):
                py['indention'] = d.choice(('  ', ' ', '\t', ' ' * 8))
            mapping['py'] = py
        if 'go' in o.langs:
            mapping['go'] = collections.OrderedDict(
                package=d.choice(('somegraph', 'g2', 'some_graph', 'graphURL')))
        if 'cpp' in o.langs:
            cpp = collections.OrderedDict()
            cpp['namespace'] = d.choice(('mvns', 'mvns::a', 'mvns::book::B_2'))
            cpp['path_as'] = d.choice(
                ('std::filesystem::path', 'boost::filesystem::path'))
            cpp['optional_as'] = d.choice(
                ('std::optional', 'boost::optional',
                 'std::experimental::optional'))
            cpp['datetime_library'] = d.choice(
                ('date.h', 'ctime') if o.ctime else ('date.h',))
            if o.indention and d.chance(20):
                cpp['indention'] = d.choice(('    ', ' ', '\t', ''))
            mapping['cpp'] = cpp

        class_count = d.int(0, o.max_classes)
        if o.max_classes >= 3 and d.chance(3):
            class_count += d.int(2, 4)
        embed_count = d.int(0, o.max_embeds)
        self.class_names = []
        classes = []
        registries = []
        graph_names = _Names()
        graph_names.taken.add(_Names.norm(mapping['name']))
        for _ in range(class_count):
            name = names.take(d.choice(COMPOSITE_WORDS))
            cls = collections.OrderedDict(
                name=name, description=self.description('a class'))
            if d.chance(40) or not graph_names.free(model.plural(name)):
                cls['plural'] = graph_names.take(d.choice(PLURAL_WORDS))
            else:
                graph_names.take(model.plural(name))
            registries.append(cls.get('plural', model.plural(name)).lower())
            if o.patterns and d.chance(35):
                cls['id_pattern'] = self.pattern()
            self.class_names.append(name)
            classes.append(cls)

        embeds = []
        for _ in range(embed_count):
            name = names.take(d.choice(COMPOSITE_WORDS))
            embed = collections.OrderedDict(
                name=name, description=self.description('an embed'))
            own = _Names()
            props = self.properties('embed', own, ())
            if o.recursive and d.chance(o.recursive):
                self.recursion(
                    props, own.take('inner'),
                    d.choice(self.usable_embeds + [name]))
            if props or d.chance(30):
                embed['properties'] = props
            embeds.append(embed)
            self.usable_embeds.append(name)

        for cls in classes:
            own = _Names()
            own.taken.add('id')
            props = self.properties('class', own, ())
            if props or d.chance(30):
                cls['properties'] = props

        graph_names.taken.discard(_Names.norm(mapping['name']))
        props = self.properties('graph', graph_names, registries)
        if classes:
            mapping['classes'] = classes
        if embeds:
            mapping['embeds'] = embeds
        if props:
            mapping['properties'] = props
        return Case(mapping, self.patterns, o)


def _escape(text):
    return ''.join(
        '\\' + c if c in '\\.^$*+?()[]{}|/' else c for c in text)


@st.composite
def cases(draw, options):
    """Generate a schema."""
    return SchemaMaker(D(draw), options).make()


# ---------------------------------------------------------------------------
# Documents
# ---------------------------------------------------------------------------


def matching(d: D, atoms):
    """Draw a string which matches the pattern."""
    out = []
    for kind, _, choices, _, low, high in atoms:
        for _ in range(d.int(low, high)):
            out.append(d.choice(choices))
    return ''.join(out)


class DocMaker:
    """Make valid documents."""

    def __init__(self, d: D, case: Case, langs=None):
        self.d = d
        self.case = case
        self.schema = case.schema
        self.langs = langs or case.options.langs
        self.budget = 60

    def string(self, pattern):
        d = self.d
        if pattern is not None:
            return matching(d, self.case.patterns[pattern])
        return d.text(0, 6)

    def integer(self, typ):
        d = self.d
        limit = 2**63 - 1
        if 'go' in self.langs:
            limit = 2**53
        low = -limit if typ.minimum is None else typ.minimum + (
            1 if typ.exmin else 0)
        high = limit if typ.maximum is None else typ.maximum - (
            1 if typ.exmax else 0)
        shape = d.int(0, 3)
        if shape == 0:
            base = 0 if low <= 0 <= high else low if low > 0 else high
            return max(low, min(high, base + d.int(-10, 10)))
        if shape == 1:
            return low
        if shape == 2:
            return high
        return d.int(low, high)

    def float(self, typ):
        d = self.d
        low, high = typ.minimum, typ.maximum
        pool = []
        for bound, ex, sign in ((low, typ.exmin, 1), (high, typ.exmax, -1)):
            if bound is not None:
                if not ex:
                    pool.append(bound)
                    pool.append(float(bound))
                pool.append(math.nextafter(bound, sign * math.inf))
                pool.append(bound + sign * abs(bound) * 1e-6)
                if abs(bound) < 1e8:
                    pool.append(bound + sign * 1e-4)
        pool.extend((0, 1, -3, 0.5, -1.25, 1e300, -1e-300, 3.0, 2**40 + 0.5,
                     0.1, 123456789))

        def good(val):
            if low is not None and not (val > low or
                                        (not typ.exmin and val == low)):
                return False
            if high is not None and not (val < high or
                                         (not typ.exmax and val == high)):
                return False
            return True

        if d.chance(40):
            val = d.floats(
                float(low) if low is not None else None,
                float(high) if high is not None else None)
            if good(val):
                return val
        ok = [v for v in pool if good(v)]
        if not ok:
            ok = [low + (high - low) / 2]
        return d.choice(ok)

    def value(self, typ, depth=0):
        d = self.d
        self.budget -= 1
        kind = typ.kind
        if kind == 'boolean':
            return d.chance(50)
        if kind == 'integer':
            return self.integer(typ)
        if kind == 'float':
            return self.float(typ)
        if kind == 'string':
            return self.string(typ.pattern)
        if kind == 'path':
            if typ.pattern is not None:
                return self.string(typ.pattern)
            return d.choice(('/some/path', 'relative', 'a/../b', '/', 'x//y/',
                             '.', './z', 'with space', "it's", 'ü/"q"', ''))
        if kind in ('date', 'time', 'datetime'):
            return model.write_datetime(kind, typ.fmt, self.moment(kind))
        if kind == 'time_zone':
            return d.choice(model.ZONE_LIST)
        if kind == 'duration':
            return self.duration()
        if kind == 'array':
            low = typ.minsize or 0
            high = min(
                typ.maxsize if typ.maxsize is not None else low + 3, low + 12)
            if self.budget < 0:
                high = low
            return [
                self.value(typ.values, depth + 1)
                for _ in range(d.int(low, high))
            ]
        if kind == 'map':
            count = d.int(0, 3) if self.budget > 0 else 0
            keys = []
            for _ in range(count):
                key = d.choice(('k', 'other', 'a/b', "it's", '', 'ü', '0',
                                'k"q')) if d.chance(60) else d.text(0, 4)
                if key not in keys:
                    keys.append(key)
            return {key: self.value(typ.values, depth + 1) for key in keys}
        if kind == 'class':
            return d.choice(self.ids[typ.name])
        if kind == 'embed':
            return self.composite(self.schema.embeds[typ.name])
        raise AssertionError(kind)

    def moment(self, kind):
        d = self.d
        date = datetime.date(1970, 1, 1) + datetime.timedelta(
            days=d.int(0, 20000)) if d.chance(70) else datetime.date(
                d.choice((1000, 1582, 1900, 1969, 2000, 2100, 9999)),
                d.int(1, 12), d.int(1, 28))
        if d.chance(10):
            date = datetime.date(d.choice((2000, 2004, 2096)), 2, 29)
        time = datetime.time(d.int(0, 23), d.int(0, 59), d.int(0, 59))
        if d.chance(20):
            time = d.choice((datetime.time(0, 0, 0), datetime.time(12, 0, 0),
                             datetime.time(23, 59, 59)))
        if kind == 'date':
            return date.isoformat()
        if kind == 'time':
            return time.isoformat()
        return datetime.datetime.combine(date, time).isoformat()

    def duration(self):
        """Draw a duration text which is exact in all the languages."""
        d = self.d
        out = [d.choice(('', '', '', '-', '+')), 'P']
        if d.chance(20):
            out.append('{}W'.format(d.int(0, 60)))
        if d.chance(50):
            out.append('{}D'.format(d.int(0, 400)))
        if d.chance(70):
            out.append('T')
            if d.chance(50):
                out.append('{}H'.format(d.int(0, 30)))
            if d.chance(50):
                out.append('{}M'.format(d.int(0, 90)))
            if d.chance(60):
                out.append(str(d.int(0, 100)))
                if d.chance(50):
                    digits = d.int(1, 6)
                    out.append('.{:0{}d}'.format(
                        d.int(0, 10**digits - 1), digits))
                out.append('S')
        return ''.join(out)

    def composite(self, comp, target=None):
        d = self.d
        items = []
        for prop in comp.props:
            if prop.optional and (self.budget < 0 or d.chance(40)):
                continue
            items.append((prop.json, self.value(prop.type)))
        if d.chance(10):
            items.append(('unknownKey', d.choice((None, 1, {'x': []}, 'y'))))
        if len(items) > 1 and d.chance(25):
            items = d.sample(items, len(items))
        result = target if target is not None else {}
        for key, val in items:
            result.setdefault(key, val)
        return result

    def make(self):
        """Draw a document."""
        d = self.d
        schema = self.schema
        self.ids = {}
        needed = set()
        for comp in schema.composites():
            for prop in comp.props:
                for typ in prop.type.walk():
                    if typ.kind == 'class':
                        needed.add(typ.name)
        for cls in schema.classes.values():
            low = 1 if cls.name in needed else 0
            ids = []
            for _ in range(d.int(low, 3)):
                if cls.id_pattern is not None:
                    an_id = matching(d, self.case.patterns[cls.id_pattern])
                else:
                    an_id = d.choice(('a', 'b', 'c1', 'some-id', 'x/y', "o'n",
                                      'é', '')) if d.chance(80) else d.text(
                                          0, 4)
                if an_id not in ids:
                    ids.append(an_id)
            self.ids[cls.name] = ids
        doc = {}
        graph_first = d.chance(50)
        if graph_first:
            self.composite(schema.graph, doc)
        for cls in schema.classes.values():
            ids = self.ids[cls.name]
            if not ids and d.chance(50):
                continue
            doc[cls.registry] = {an_id: self.composite(cls) for an_id in ids}
        if not graph_first:
            self.composite(schema.graph, doc)
        return doc


# ---------------------------------------------------------------------------
# Faulty documents
# ---------------------------------------------------------------------------

WRONG = (None, 'some text', 12, 1.5, True, [], {}, ['x'], {'k': 1}, '', [[]],
         -7.25)


def is_constrained(typ):
    """Tell whether values of the right type can violate the constraints."""
    if not isinstance(typ, model.Type):
        return False
    return (
        typ.minimum is not None or typ.maximum is not None
        or typ.pattern is not None or typ.minsize is not None
        or typ.maxsize is not None or typ.kind in ('class', 'duration', 'date', 'time', 'datetime', 'time_zone'))


class Faults:
    """Inject faults into valid documents."""

    def __init__(self, d: D, case: Case, langs=None):
        self.d = d
        self.case = case
        self.schema = case.schema
        self.langs = langs or case.options.langs

    def sites(self, doc):
        """List the places (container, key, type or property) in the document."""
        out = []

        def props(comp, value):
            if not isinstance(value, dict):
                return
            for prop in comp.props:
                if prop.json in value:
                    out.append(('prop', value, prop.json, prop.type, prop))
                    nested(prop.type, value[prop.json])

        def nested(typ, value):
            if typ.kind == 'array' and isinstance(value, list):
                for i, item in enumerate(value):
                    out.append(('item', value, i, typ.values, None))
                    nested(typ.values, item)
            elif typ.kind == 'map' and isinstance(value, dict):
                for key, item in list(value.items()):
                    out.append(('item', value, key, typ.values, None))
                    nested(typ.values, item)
            elif typ.kind == 'embed':
                props(self.schema.embeds[typ.name], value)

        props(self.schema.graph, doc)
        for cls in self.schema.classes.values():
            registry = doc.get(cls.registry)
            if isinstance(registry, dict):
                for an_id, inst in registry.items():
                    out.append(('instance', registry, an_id, cls, None))
                    props(cls, inst)
        return out

    def bad_value(self, typ, old):
        """Draw a value which probably violates the type."""
        d = self.d
        kind = typ.kind if isinstance(typ, model.Type) else 'embed'
        options = ['wrong']
        if kind in ('integer', 'float'):
            if typ.minimum is not None:
                options += ['below'] * 6
            if typ.maximum is not None:
                options += ['above'] * 6
            if kind == 'integer':
                options += ['fraction']
        elif kind in ('string', 'path') and typ.pattern is not None:
            options += ['mismatch'] * 6
        elif kind in ('date', 'time', 'datetime', 'duration', 'time_zone'):
            options += ['text'] * 3
        elif kind == 'array':
            options += ['size'] * (
                8 if typ.minsize or typ.maxsize is not None else 1)
        elif kind == 'class':
            options += ['dangling'] * 3
        how = d.choice(options)
        if how == 'below':
            off = 0 if typ.exmin else 1
            if kind == 'float' and not typ.exmin and d.chance(50):
                if d.chance(50):
                    return math.nextafter(typ.minimum, -math.inf)
                return typ.minimum - abs(typ.minimum or 1) * d.choice(
                    (1e-9, 1e-7, 1e-5))
            return typ.minimum - d.choice((off, off, 1, 2, 1000))
        if how == 'above':
            off = 0 if typ.exmax else 1
            if kind == 'float' and not typ.exmax and d.chance(50):
                if d.chance(50):
                    return math.nextafter(typ.maximum, math.inf)
                return typ.maximum + abs(typ.maximum or 1) * d.choice(
                    (1e-9, 1e-7, 1e-5))
            return typ.maximum + d.choice((off, off, 1, 2, 1000))
        if how == 'fraction':
            return d.choice((0.5, -1.5, 1e-3, 100.25))
        if how == 'mismatch':
            if d.chance(50):
                return ''.join(
                    d.choice(ASCII) for _ in range(d.int(0, 5)))
            text = matching(d, self.case.patterns[typ.pattern])
            pos = d.int(0, len(text))
            return text[:pos] + d.choice('Q~ 0a\'"{') + text[pos:]
        if how == 'text':
            if kind == 'duration':
                return d.choice(
                    ('', 'x', '1D', 'P1', 'PT1', 'P1S', 'P1DT1', ' P1D', 'P1D ',
                     'P-1D', 'P01D', 'P1.D', 'PT.5S', 'P1H', 'p1d', 'P1D1W',
                     'P1Y2D3M', 'PT1,5S', '--P1D', 'P1DX', 'PT1.1234567890S'))
            if kind == 'time_zone':
                return d.choice(model.NOT_ZONES)
            if kind == 'date':
                return d.choice(
                    ('', 'x', 'not a date', 'zz2019-01-01', '201', '2019-',
                     '????-??-??'))
            if kind == 'time':
                return d.choice(('', 'x', 'not a time', 'zz12:30', '::', '1'))
            return d.choice(('', 'x', 'not a date/time', 'zz2019-01-01T01:01:01Z',
                             '2019-01-0', '12:'))
        if how == 'size':
            if isinstance(old, list):
                longer = (typ.maxsize or 0) + 1 - len(old)
                if (typ.maxsize is not None and longer <= 100 and old and
                        d.chance(50)):
                    return old + [
                        copy.deepcopy(old[0]) for _ in range(max(longer, 1))
                    ]
                if typ.minsize and d.chance(80):
                    return old[:typ.minsize - 1]
                if typ.maxsize == 0:
                    return [DocMakerForValue(d, self.case)(typ.values)]
            return [None]
        if how == 'dangling':
            return d.choice(('nobody', 'zzz', 'a ', ''))
        return copy.deepcopy(d.choice(WRONG))

    def mutate(self, doc):
        """Inject a fault."""
        d = self.d
        sites = self.sites(doc)
        tight = [s for s in sites if is_constrained(s[3])]
        kinds = []
        if sites:
            kinds += ['value'] * 7 + ['drop'] * 2
        registries = [
            c for c in self.schema.classes.values() if c.registry in doc
        ]
        if registries:
            kinds += ['registry', 'id', 'remove instance']
        kinds += ['root']
        how = d.choice(kinds)
        if how == 'root' and sites:
            how = d.choice(kinds)
        if how == 'value':
            if tight and d.chance(60):
                sites = tight
            _, container, key, typ, _ = d.choice(sites)
            container[key] = self.bad_value(typ, container[key])
        elif how == 'drop':
            props = [s for s in sites if s[0] == 'prop']
            if props:
                _, container, key, _, _ = d.choice(props)
                if d.chance(30):
                    container[key + 'x'] = container[key]
                if d.chance(20):
                    container[key] = None
                else:
                    del container[key]
        elif how == 'registry':
            cls = d.choice(registries)
            bad = copy.deepcopy(d.choice(WRONG))
            if bad is not None and not isinstance(bad, dict):
                doc[cls.registry] = bad
        elif how == 'id':
            cls = d.choice(registries)
            registry = doc[cls.registry]
            if isinstance(registry, dict) and registry:
                an_id = d.choice(list(registry))
                new = d.choice(('~~bad id~~', '', 'Z9 -', 'a', '"'))
                if new not in registry:
                    registry[new] = registry.pop(an_id) if d.chance(
                        50) else copy.deepcopy(registry[an_id])
        elif how == 'remove instance':
            cls = d.choice(registries)
            registry = doc[cls.registry]
            if isinstance(registry, dict) and registry:
                del registry[d.choice(list(registry))]
        elif how == 'root':
            return copy.deepcopy(d.choice((None, [], 'x', 1, True, 2.5, {})))
        return doc

    def make(self, doc, low=1, high=3):
        """Inject faults."""
        doc = copy.deepcopy(doc)
        for _ in range(self.d.int(low, high)):
            if not isinstance(doc, dict):
                break
            doc = self.mutate(doc)
        return doc


class DocMakerForValue:
    """Draw a single value without references."""

    def __init__(self, d, case):
        self.maker = DocMaker(d, case)
        self.maker.ids = collections.defaultdict(lambda: ['a'])

    def __call__(self, typ):
        return self.maker.value(typ)


def containers(value):
    """List the places (container, key) in the JSON value."""
    out = []
    if isinstance(value, dict):
        for key, item in value.items():
            out.append((value, key))
            out.extend(containers(item))
    elif isinstance(value, list):
        for i, item in enumerate(value):
            out.append((value, i))
            out.extend(containers(item))
    return out


WIDE_FORMATS = {
    'date': ('%A, %d. %B %Y', '%y%m%d', '%a %d %b %y', '%Y', '%m', '%d%%',
             '{%Y}', "'%d'", '"%m"', '%Y\\%m', '%Y/%m/%d', '`%d`', '%d\t%m',
             '%d\n%m', 'R"(%d)"', '%Y // %m', '%Y{}{0}%m'),
    'time': ('%I %p', '%H', '%M', '%S', '{%H}', "'%S'", '"%M"', '%H\\%M',
             '%%H %H', '`%H`', '%H # %M'),
    'datetime': ('%a %b %d %H:%M:%S %Y', '%A %d. %B %y, %I:%M %p', '%H %Y',
                 '{%Y}-{%H}', "%Y'%H", '%Y"%H', '%y%m%dT%H%M%S', '%d/%m %H:%M',
                 '%Y-%m-%dT%H:%M:%S%%', '%Y-%m-%d %H:%M:%S `x`')
}


def any_json(max_leaves=12):
    """Generate any JSON value."""
    return st.recursive(
        st.one_of(st.none(), st.booleans(), st.integers(-2**70, 2**70),
                  st.floats(allow_nan=False, allow_infinity=False),
                  _text_strategy(0, 5)),
        lambda sub: st.one_of(
            st.lists(sub, max_size=3),
            st.dictionaries(_text_strategy(0, 4), sub, max_size=3)),
        max_leaves=max_leaves)
