"""Strategies for schema files: well-formed in all variety, with a planted fault, or arbitrary."""
import collections
import copy
import json
import string

from . import gen, model

OrderedDict = collections.OrderedDict

TYPES = model.PRIMITIVES + ('array', 'map') if isinstance(
    model.PRIMITIVES, tuple) else tuple(model.PRIMITIVES) + ('array', 'map')

DATE = 'aAbBdemyYzZ%'
TIME = 'HIlMPpSzZ%'

PATTERNS = (
    '', 'a', '^.*$', '[a-z]+', '(?i)x', 'a{2,}', '\\d', '\\bword\\b', '(a)(?:b)',
    '^\\u0041$', "it's", '"', '"""', "'''", '\\\\', '^a\nb$', '\t', 'é+', '日本',
    '{}', '\\{0}', '%s', '(?P<name>x)', '(?=a)b', '`', '\\)v0g0n"', '[\\]]', '$^', '#',
    '.*?', '\\Z', '(?s).')

BAD_PATTERNS = ('(', '[', '*', 'a**', '(?P<n', '\\', '[z-a]', 'a{2,1}', '(?P=x)',
                ')', '+', '(?<x)', '\\g', 'a)', '(?P<1>a)', '[a')

INDENTIONS_PY = (' ', '  ', '\t', ' ' * 8, ' \t', '\t\t')
INDENTIONS_CPP = INDENTIONS_PY + ('', )

NAME_CHARS = string.ascii_letters + string.digits


def property_name(d):
    """Draw a legal name of a property."""
    return _name(d, string.ascii_letters)


WORDS = (
    'criterion', 'minimum', 'maximum', 'matrix', 'life', 'focus', 'index', 'bus',
    'city', 'day', 'key', 'toy', 'guy', 'iy', 'y', 'x', 's', 'box', 'class',
    'criteria', 'foci', 'leaf', 'dish', 'church', 'quiz', 'potato')


def composite_name(d):
    """Draw a legal name of a composite or a plural."""
    if d.chance(30):
        # words whose plural is special
        word = d.choice(WORDS)
        if d.chance(50):
            return word[0].upper() + word[1:]
        return _name(d, string.ascii_uppercase) + '_' + d.choice(
            (word, word[0].upper() + word[1:], word.upper()))
    return _name(d, string.ascii_uppercase)


def _name(d, first):
    name = d.choice(first)
    middle = ''.join(
        d.choice(NAME_CHARS + '___') for _ in range(d.int(0, d.choice((2, 8)))))
    if middle:
        name += middle + d.choice(NAME_CHARS)
    elif d.chance(60):
        name += d.choice(NAME_CHARS)
    return name


def format_of(d, kind):
    """Draw a legal date/time format."""
    directives = {'date': DATE, 'time': TIME, 'datetime': DATE + TIME}[kind]
    parts = []
    for _ in range(d.int(1, 5)):
        if d.chance(70):
            parts.append('%' + d.choice(directives))
        else:
            parts.append(
                d.choice(
                    ('-', ' ', 'T', ':', '/', 'at', "'", '"', '`', '{}', '\\',
                     'ü', '.', 'Jan', '2006', 'x')))
    return ''.join(parts)


def composites(mapping):
    """Iterate over the composites: (reference suffix, mapping)."""
    yield '', mapping
    for key in ('classes', 'embeds'):
        for i, comp in enumerate(mapping.get(key, ())):
            yield '/{}/{}'.format(key, i), comp


def properties(mapping):
    """Iterate over the properties: (reference suffix, name, composite, property)."""
    for ref, comp in composites(mapping):
        for name, prop in comp.get('properties', {}).items():
            yield '{}/properties/{}'.format(ref, name), name, comp, prop


def types(mapping):
    """Iterate over the definitions of types: (reference suffix, depth, definition)."""
    for ref, _, _, prop in properties(mapping):
        depth = 0
        while True:
            yield ref, depth, prop
            if 'values' not in prop:
                break
            ref += '/values'
            prop = prop['values']
            depth += 1


def rename(mapping, names):
    """Rename the composites."""
    for _, comp in composites(mapping):
        comp['name'] = names.get(comp['name'], comp['name'])
    for _, _, typ in types(mapping):
        typ['type'] = names.get(typ['type'], typ['type'])


def registry(cls):
    """Give the JSON key of the class registry."""
    return cls.get('plural', model.plural(cls['name'])).lower()


def shuffled(d, mapping, first):
    """Shuffle the keys apart from the first ones."""
    rest = [k for k in mapping if k not in first]
    rest = d.sample(rest, len(rest))
    return OrderedDict(
        (k, mapping[k]) for k in [f for f in first if f in mapping] + rest)


def reorder(d, typ, depth):
    """Shuffle the keys of a definition of a type."""
    out = shuffled(d, typ, ('type', 'description') if depth == 0 else ())
    if 'values' in out:
        out['values'] = reorder(d, out['values'], depth + 1)
    return out


def wellformed(d, langs=None, small=False):
    """Draw a well-formed schema."""
    if langs is None:
        langs = [l for l in ('py', 'go', 'cpp') if d.chance(60)]
    options = gen.Options(
        langs=('py', 'go', 'cpp'),
        max_classes=2 if small else 4,
        max_embeds=2 if small else 4,
        max_props=3 if small else 5,
        exotic_json=30,
        exotic_description=25,
        wide_formats=True,
        recursive=20)
    mapping = gen.SchemaMaker(d, options).make().mapping
    for lang in ('py', 'go', 'cpp'):
        if lang not in langs:
            del mapping[lang]

    # names
    if d.chance(50):
        names = OrderedDict()
        taken = set()
        for _, comp in composites(mapping):
            new = composite_name(d)
            while new in taken or (new + 's').lower() in taken:
                new += d.choice(NAME_CHARS)
            taken.add(new)
            names[comp['name']] = new
        rename(mapping, names)
    for cls in mapping.get('classes', ()):
        if d.chance(25):
            cls['plural'] = composite_name(d)
        if d.chance(15):
            cls['id_pattern'] = d.choice(PATTERNS)
    if d.chance(40):
        for _, comp in composites(mapping):
            props = comp.get('properties')
            if not props:
                continue
            new = OrderedDict()
            for name, prop in props.items():
                fresh = property_name(d) if d.chance(50) else name
                while fresh in new or fresh in props or (
                        fresh == 'id'):
                    if fresh == name:
                        break
                    fresh += d.choice(NAME_CHARS)
                new[fresh] = prop
            if len(new) == len(props):
                comp['properties'] = new

    # details
    for _, depth, typ in types(mapping):
        kind = typ['type']
        if kind in ('string', 'path') and d.chance(25):
            typ['pattern'] = d.choice(PATTERNS)
        if kind in ('date', 'time', 'datetime') and d.chance(30):
            typ['format'] = format_of(d, kind)
        if kind in ('integer', 'float') and d.chance(15):
            for key in ('exclusive_minimum', 'exclusive_maximum'):
                if key not in typ and d.chance(50):
                    typ[key] = False
        if kind == 'integer' and d.chance(10):
            for key in ('minimum', 'maximum', 'exclusive_minimum',
                        'exclusive_maximum'):
                typ.pop(key, None)
            low = d.choice((-10**30, -2**64, -2**63, 0, 2**53 + 1, 2**63))
            typ['minimum'] = low
            typ['maximum'] = low + d.choice((0, 1, 10**30))
        if kind == 'float' and d.chance(15):
            for key in ('minimum', 'maximum', 'exclusive_minimum',
                        'exclusive_maximum'):
                typ.pop(key, None)
            low = d.floats(-1e300, 1e300)
            typ['minimum'] = low
            typ['maximum'] = d.choice((low, max(low, 2**53 + 1), 10**301))
        if kind == 'array' and d.chance(10):
            size = d.choice((0, 1, 2**31, 2**64))
            typ['minimum_size'] = size
            typ['maximum_size'] = size + d.choice((0, 1, 5))
        if depth > 0 and d.chance(10):
            typ['description'] = d.text(0, 5)
    for _, _, _, prop in properties(mapping):
        if 'optional' not in prop and d.chance(10):
            prop['optional'] = False
        if d.chance(8):
            prop['description'] = d.text(0, 12)
    for cls in mapping.get('classes', ()):
        if 'properties' not in cls and d.chance(30):
            cls['properties'] = OrderedDict()

    settle(d, mapping)

    if 'py' in mapping and d.chance(30):
        mapping['py']['indention'] = d.choice(INDENTIONS_PY)
    if 'cpp' in mapping and d.chance(30):
        mapping['cpp']['indention'] = d.choice(INDENTIONS_CPP)
    if d.chance(10):
        for key in ('classes', 'embeds'):
            mapping.setdefault(key, [])
        mapping.setdefault('properties', OrderedDict())

    # order of the keys
    if d.chance(60):
        mapping = shuffled(d, mapping, ('name', 'description'))
        for key in ('classes', 'embeds'):
            if key in mapping:
                mapping[key] = [
                    shuffled(d, comp, ()) for comp in mapping[key]
                ]
        for key in ('py', 'go', 'cpp'):
            if key in mapping:
                mapping[key] = shuffled(d, mapping[key], ())
        for _, comp in composites(mapping):
            if 'properties' in comp:
                comp['properties'] = OrderedDict(
                    (name, reorder(d, prop, 0))
                    for name, prop in comp['properties'].items())
    return mapping


def settle(d, mapping):
    """Avoid conflicting JSON names and names of registries."""
    taken = set()
    for cls in mapping.get('classes', ()):
        while registry(cls) in taken:
            cls['plural'] = cls.get('plural', model.plural(
                cls['name'])) + d.choice(NAME_CHARS)
        taken.add(registry(cls))
    registries = taken
    for _, comp in composites(mapping):
        props = comp.get('properties')
        if not props:
            continue
        forbidden = set(registries) if comp is mapping else set()
        if comp is mapping:
            for name in list(props):
                new = name
                while new in forbidden or (new != name and new in props):
                    new += d.choice(NAME_CHARS)
                if new != name:
                    comp['properties'] = props = OrderedDict(
                        (new if k == name else k, v) for k, v in props.items())
        taken = set(forbidden)
        # the explicit names yield
        for name, prop in props.items():
            if 'json' not in prop:
                taken.add(name)
        for name, prop in props.items():
            if 'json' in prop:
                while prop['json'] in taken:
                    prop['json'] += d.choice(NAME_CHARS + ' -')
                taken.add(prop['json'])


# ---------------------------------------------------------------------------
# Faults
# ---------------------------------------------------------------------------

NOT_A_STRING = (None, True, 3, 1.5, [], ['a'], {}, {'a': 'b'})
NOT_AN_OBJECT = (None, True, 3, 1.5, [], ['a'], 'a', '')
NOT_AN_ARRAY = (None, True, 3, 1.5, {}, {'a': 1}, 'a')
NOT_A_BOOLEAN = (None, 0, 1, 1.5, [], {}, 'true', '')

BAD_COMPOSITE_NAMES = ('', 'a', 'person', '_A', 'A_', '1A', 'A-b', 'A b', 'Ä',
                       'Aé', 'A\n', 'A.b', ' A', 'A ', 'A__')
BAD_PROPERTY_NAMES = ('', '_a', 'a_', '1', '1a', 'a-b', 'a b', 'ä', 'aé', 'a\n',
                      'a.b', ' a', 'a ', '$', 'a__', '_')
BAD_DESCRIPTIONS = ('', 'Defines a thing.', 'defines a thing', '1 thing.',
                    ' defines.', '.', '_a.', 'defines\na thing.', 'É.')

KEYS = {
    'integer': ('minimum', 'maximum', 'exclusive_minimum', 'exclusive_maximum'),
    'float': ('minimum', 'maximum', 'exclusive_minimum', 'exclusive_maximum'),
    'string': ('pattern', ),
    'path': ('pattern', ),
    'date': ('format', ),
    'time': ('format', ),
    'datetime': ('format', ),
    'array': ('minimum_size', 'maximum_size', 'values'),
    'map': ('values', ),
}
SAMPLE_VALUES = {
    'minimum': 1,
    'maximum': 1,
    'exclusive_minimum': False,
    'exclusive_maximum': False,
    'pattern': '^a$',
    'format': '%%',
    'minimum_size': 0,
    'maximum_size': 3,
    'values': {
        'type': 'string'
    },
    'json': 'aJson',
    'optional': True
}


def remake(mapping, other):
    """Replace the content of a mapping keeping the object."""
    mapping.clear()
    mapping.update(other)


class Fault:
    """A planted fault."""

    def __init__(self, what, refs, exclusive=False, also=()):
        self.what = what
        # reference suffixes which may be reported as well
        self.also = list(also)
        # reference suffixes, one of which must be reported
        self.refs = [refs] if isinstance(refs, str) else list(refs)
        # whether the errors of other faults may not be reported
        self.exclusive = exclusive

    def jsonable(self):
        """Represent as JSON-able."""
        return OrderedDict(what=self.what, refs=self.refs, also=self.also)


def plant(d, mapping, touched):
    """
    Plant a fault in the mapping.

    ``touched`` are the definitions which are not to be changed again.  Give None if
    the fault does not apply.
    """
    how = d.choice(FAULTS)
    return how(d, mapping, touched)


def _pick_composite(d, mapping, touched, kinds=('', 'classes', 'embeds')):
    comps = [
        (ref, comp) for ref, comp in composites(mapping)
        if (ref.split('/')[1] if ref else '') in kinds and not touched
    ]
    return d.choice(comps) if comps else None


def fault_name(d, mapping, touched):
    pick = _pick_composite(d, mapping, touched)
    if pick is None:
        return None
    ref, comp = pick
    comp['name'] = d.choice(BAD_COMPOSITE_NAMES + NOT_A_STRING)
    return Fault('invalid name', ref + '/name', True)


def fault_description(d, mapping, touched):
    pick = _pick_composite(d, mapping, touched)
    if pick is None:
        return None
    ref, comp = pick
    comp['description'] = d.choice(BAD_DESCRIPTIONS + NOT_A_STRING)
    return Fault('invalid description', ref + '/description', True)


def fault_missing(d, mapping, touched):
    pick = _pick_composite(d, mapping, touched)
    if pick is None:
        return None
    ref, comp = pick
    key = d.choice(('name', 'description'))
    del comp[key]
    return Fault('missing ' + key, ref, True)


def fault_unknown_key(d, mapping, touched):
    pick = _pick_composite(d, mapping, touched)
    if pick is None:
        return None
    ref, comp = pick
    known = {
        '': ('plural', 'id_pattern', 'type', 'optional'),
        'classes': ('py', 'type', 'json', 'id'),
        'embeds': ('plural', 'id_pattern', 'type', 'values')
    }[ref.split('/')[1] if ref else '']
    key = d.choice(
        known + ('Name', 'property', 'props', '', 'x', 'names', 'class', 'Cpp'))
    comp[key] = d.choice(('A', {}, [], None))
    return Fault('unknown key', ref, True)


def fault_container(d, mapping, touched):
    if touched:
        return None
    if d.chance(50):
        key = d.choice(('classes', 'embeds'))
        mapping[key] = d.choice(NOT_AN_ARRAY)
        return Fault('not an array', '/' + key, True)
    pick = _pick_composite(d, mapping, touched)
    ref, comp = pick
    comp['properties'] = d.choice(NOT_AN_OBJECT)
    return Fault('not an object', ref + '/properties', True)


def fault_item(d, mapping, touched):
    if touched:
        return None
    key = d.choice(('classes', 'embeds'))
    mapping.setdefault(key, [])
    at = d.int(0, len(mapping[key]))
    mapping[key].insert(at, d.choice(NOT_AN_OBJECT))
    return Fault('not an object', '/{}/{}'.format(key, at), True)


def fault_settings(d, mapping, touched):
    langs = [l for l in ('py', 'go', 'cpp') if l in mapping]
    if touched or not langs:
        return None
    lang = d.choice(langs)
    settings = mapping[lang]
    how = d.int(0, 3)
    if how == 0:
        mapping[lang] = d.choice(NOT_AN_OBJECT)
        return Fault('settings are not an object', '/' + lang, True)
    if how == 1:
        key = d.choice([k for k in settings if k != 'indention'])
        del settings[key]
        return Fault('missing setting', '/' + lang, True)
    if how == 2:
        settings[d.choice(('x', 'Package', 'name', 'module', 'path', ''))] = 'a'
        return Fault('unknown setting', '/' + lang, True)
    key = d.choice(
        list(settings) + (['indention'] if lang in ('py', 'cpp') else []))
    if d.chance(30):
        value = d.choice(NOT_A_STRING)
    elif key in ('module_name', 'namespace', 'package'):
        value = d.choice(('', '1a', 'a b', 'a-b', '_a', 'a.', 'a::', '.a', '::a',
                          'a..b', 'a:b', 'é', 'a\n', 'a.1', 'a::1'))
    elif key == 'indention':
        value = d.choice(('x', '  x', '\n', ' \n', '\r', '0', '\u00a0'))
        if lang == 'py' and d.chance(20):
            value = ''
    else:
        value = d.choice(('', 'str ', 'String', 'pathlib', 'std::path', 'Optional',
                          'ctime.h', 'date', 'pytz', 'STR', 'std::optional<T>'))
    settings[key] = value
    return Fault('invalid setting', '/{}/{}'.format(lang, key), True)


def fault_class_detail(d, mapping, touched):
    pick = _pick_composite(d, mapping, touched, ('classes', ))
    if pick is None:
        return None
    ref, comp = pick
    if d.chance(50):
        comp['plural'] = d.choice(BAD_COMPOSITE_NAMES + NOT_A_STRING)
        return Fault('invalid plural', ref + '/plural', True)
    comp['id_pattern'] = d.choice(NOT_A_STRING)
    return Fault('ID pattern is not a string', ref + '/id_pattern', True)


def fault_order(d, mapping, touched):
    if touched or 'order' in touched or len(mapping) < 3:
        return None
    if d.chance(50):
        mapping.move_to_end('description')
        return Fault('description is not second', '/description')
    mapping.move_to_end('name', last=d.chance(50))
    if list(mapping)[0] == 'name':
        mapping.move_to_end('name')
    return Fault('name is not first', '/name', also=['/description'])


def fault_duplicate_name(d, mapping, touched):
    if touched:
        return None
    names = [comp['name'] for _, comp in composites(mapping)]
    name = d.choice(names)
    key = d.choice(('classes', 'embeds'))
    mapping.setdefault(key, [])
    new = OrderedDict(name=name, description='duplicates another one.')
    taken = {registry(c) for c in mapping.get('classes', ())} | {
        x for n, p in mapping.get('properties', {}).items()
        for x in (n, p.get('json', n))
    }
    if key == 'classes':
        plural = 'Duplicate'
        while plural.lower() in taken:
            plural += 'x'
        new['plural'] = plural
    at = d.int(0, len(mapping[key]))
    mapping[key].insert(at, new)
    last = [
        ref for ref, comp in composites(mapping) if comp['name'] == name
    ][-1]
    return Fault('duplicate name', last + '/name')


def fault_id_pattern(d, mapping, touched):
    pick = [(ref, comp) for ref, comp in composites(mapping)
            if ref.startswith('/classes') and id(comp) not in touched]
    if not pick:
        return None
    ref, comp = d.choice(pick)
    touched.add(id(comp))
    comp['id_pattern'] = d.choice(BAD_PATTERNS)
    return Fault('invalid ID pattern', ref + '/id_pattern')


def _new_property():
    return OrderedDict(type='string', description='is new')


def fault_reserved_id(d, mapping, touched):
    pick = [(ref, comp) for ref, comp in composites(mapping)
            if ref.startswith('/classes') and id(comp) not in touched]
    if not pick:
        return None
    ref, comp = d.choice(pick)
    touched.add(id(comp))
    prop = _new_property()
    props = comp.setdefault('properties', OrderedDict())
    if d.chance(50) or any(p.get('json') == 'id' for p in props.values()):
        prop['json'] = 'another unused name'
    props['id'] = prop
    return Fault('reserved id', ref + '/properties')


def fault_property_name(d, mapping, touched):
    ref, comp = d.choice(list(composites(mapping)))
    if ('name', id(comp)) in touched:
        return None
    touched.add(('name', id(comp)))
    comp.setdefault('properties', OrderedDict())
    name = d.choice(BAD_PROPERTY_NAMES)
    names = set(comp['properties']) | {
        p.get('json') for p in comp['properties'].values()}
    if name in names:
        return None
    prop = _new_property()
    prop['json'] = 'yet another unused name'
    touched.add(id(prop))
    comp['properties'][name] = prop
    return Fault('invalid name of a property', ref + '/properties')


def _pick_type(d, mapping, touched, kinds=None, top=None):
    """Pick a type of a property which was not changed."""
    chains = []
    for ref, _, _, prop in properties(mapping):
        if id(prop) in touched:
            continue
        typ = prop
        depth = 0
        while True:
            if (kinds is None or typ['type'] in kinds) and (
                    top is None or top == (depth == 0)):
                chains.append((ref, depth, typ, prop))
            if 'values' not in typ:
                break
            typ = typ['values']
            ref += '/values'
            depth += 1
    if not chains:
        return None
    ref, depth, typ, prop = d.choice(chains)
    touched.add(id(prop))
    return ref, depth, typ


def fault_property_schema(d, mapping, touched):
    if touched:
        return None
    pick = _pick_type(d, mapping, touched, top=True)
    if pick is None:
        return None
    ref, _, prop = pick
    how = d.int(0, 4)
    if how == 0:
        for _, comp in composites(mapping):
            for name in comp.get('properties', {}):
                if comp['properties'][name] is prop:
                    comp['properties'][name] = d.choice(NOT_AN_OBJECT)
                    return Fault('property is not an object', ref, True)
    if how == 1:
        del prop[d.choice(('type', 'description'))]
        return Fault('missing key of a property', ref, True)
    key = ('optional', 'json', 'description')[how - 2]
    prop[key] = d.choice(NOT_A_BOOLEAN if key == 'optional' else NOT_A_STRING)
    return Fault('invalid ' + key, '{}/{}'.format(ref, key), True)


def fault_type(d, mapping, touched):
    pick = _pick_type(d, mapping, touched)
    if pick is None:
        return None
    ref, depth, typ = pick
    names = {comp['name'] for ref_, comp in composites(mapping) if ref_}
    bad = [
        'Unknown', 'int', 'Integer', 'STRING', 'list', 'str', 'bool', 'embed',
        'class', 'string ', ' string', 'array<string>', 'time-zone', 'timezone',
        'dateTime', 'null', 'object', mapping['name']
    ]
    bad.extend(name.lower() for name in sorted(names))
    bad.extend(name + 's' for name in sorted(names))
    bad.extend(registry(cls) for cls in mapping.get('classes', ()))
    known = names | set(KEYS) | {
        'boolean', 'duration', 'time_zone', 'integer', 'float', 'string', 'path'}
    if depth > 0:
        bad.extend(('', '7', '_'))
        bad.extend(NOT_A_STRING)
        if d.chance(15):
            del typ['type']
            return Fault('nested value without a type', ref + '/type')
    value = d.choice(bad)
    if isinstance(value, str) and value in known:
        return None
    typ['type'] = value
    return Fault('unknown type', ref + '/type')


def fault_empty_type(d, mapping, touched):
    if touched:
        return None
    pick = _pick_type(d, mapping, touched, top=True)
    if pick is None:
        return None
    ref, _, typ = pick
    typ['type'] = d.choice(('', '7', '_', ' ', '1_', 'é') + NOT_A_STRING)
    return Fault('type is not a name', ref + '/type', True)


def fault_key_order(d, mapping, touched):
    pick = _pick_type(d, mapping, touched, top=True)
    if pick is None:
        return None
    ref, _, prop = pick
    if len(prop) > 2 and d.chance(50):
        prop.move_to_end('description')
        return Fault('description is not after the type', ref + '/description')
    prop.move_to_end('type')
    return Fault('type is not first', ref + '/type')


def fault_extra_key(d, mapping, touched):
    pick = _pick_type(d, mapping, touched)
    if pick is None:
        return None
    ref, depth, typ = pick
    allowed = {'type', 'description'} | set(KEYS.get(typ['type'], ()))
    if depth == 0:
        allowed |= {'json', 'optional'}
    extra = [k for k in SAMPLE_VALUES if k not in allowed]
    extra.extend(('Minimum', 'min', 'default', 'items', 'name', 'exclusiveMinimum',
                  '', 'minItems', 'id_pattern'))
    key = d.choice(extra)
    typ[key] = copy.deepcopy(SAMPLE_VALUES.get(key, d.choice((1, 'a', None, {}))))
    return Fault('unexpected key', ref)


def fault_bound_type(d, mapping, touched):
    pick = _pick_type(d, mapping, touched, ('integer', 'float', 'array'))
    if pick is None:
        return None
    ref, _, typ = pick
    kind = typ['type']
    if kind == 'array':
        key = d.choice(('minimum_size', 'maximum_size'))
        value = d.choice((None, True, -1, 1.5, '1', [], {}, -10**20))
        other = 'maximum_size' if key == 'minimum_size' else 'minimum_size'
        typ.pop(other, None)
    elif d.chance(50):
        key = d.choice(('minimum', 'maximum'))
        value = d.choice((None, True, False, '1', [], {}))
        if kind == 'integer' and d.chance(30):
            value = d.choice((1.5, -0.5, 1e300))
        if kind == 'float' and d.chance(30):
            value = d.choice(
                (float('inf'), -float('inf'), float('nan'), 10**400, -10**400))
    else:
        key = d.choice(('exclusive_minimum', 'exclusive_maximum'))
        value = d.choice(NOT_A_BOOLEAN)
    typ[key] = value
    return Fault('invalid ' + key, '{}/{}'.format(ref, key))


def fault_empty_range(d, mapping, touched):
    pick = _pick_type(d, mapping, touched, ('integer', 'float'))
    if pick is None:
        return None
    ref, _, typ = pick
    kind = typ['type']
    for key in KEYS[kind]:
        typ.pop(key, None)
    if kind == 'integer':
        low = d.choice((0, 1, -1, 7, -2**63, 10**20, d.int(-1000, 1000)))
        step = d.choice((1, 1, 2, 100))
    else:
        low = d.choice((0, 1, -1, 0.5, -2.5, 1e300, 1e22, 7.0))
        step = d.choice((1, 0.25, 1e299))
    if d.chance(50):
        high = low - step
        if not low > high:
            high = low / 2
        if kind == 'integer':
            high = int(high)
        for key in ('exclusive_minimum', 'exclusive_maximum'):
            if d.chance(30):
                typ[key] = d.chance(50)
    else:
        high = low
        if kind == 'float' and d.chance(40) and low == int(low):
            high = int(low) if isinstance(low, float) else float(low)
        how = d.int(1, 3)
        if how & 1:
            typ['exclusive_minimum'] = True
        elif d.chance(30):
            typ['exclusive_minimum'] = False
        if how & 2:
            typ['exclusive_maximum'] = True
        elif d.chance(30):
            typ['exclusive_maximum'] = False
    if low < high:
        return None
    typ['minimum'] = low
    typ['maximum'] = high
    return Fault('empty range', ref)


def fault_sizes(d, mapping, touched):
    pick = _pick_type(d, mapping, touched, ('array', ))
    if pick is None:
        return None
    ref, _, typ = pick
    high = d.choice((0, 1, 2, 10, 2**64))
    typ['maximum_size'] = high
    typ['minimum_size'] = high + d.choice((1, 1, 2, 100))
    return Fault('sizes contradict', ref + '/minimum_size')


def fault_pattern(d, mapping, touched):
    pick = _pick_type(d, mapping, touched, ('string', 'path'))
    if pick is None:
        return None
    ref, _, typ = pick
    typ['pattern'] = d.choice(BAD_PATTERNS + NOT_A_STRING)
    return Fault('invalid pattern', ref + '/pattern')


def fault_format(d, mapping, touched):
    pick = _pick_type(d, mapping, touched, ('date', 'time', 'datetime'))
    if pick is None:
        return None
    ref, _, typ = pick
    kind = typ['type']
    if d.chance(25):
        typ['format'] = d.choice(NOT_A_STRING + ('', ))
        return Fault('invalid format', ref + '/format')
    fmt = format_of(d, kind)
    at = d.int(0, len(fmt))
    while fmt[:at].endswith('%') and not fmt[:at].endswith('%%'):
        at -= 1
    bad = ['%j', '%Q', '%f', '%U', '%s', '%c', '%x', '%X', '%-', '%1', '%F', '%T',
           '%E', '%O', '%h', '%D', '%C', '%G', '%k', '%n', '%t', '%u', '%w']
    if kind == 'date':
        bad.extend(['%' + c for c in 'HIlMPpS'] * 3)
    elif kind == 'time':
        bad.extend(['%' + c for c in 'aAbBdemyY'] * 2)
    # the text before must be complete directives
    prefix = fmt[:at]
    rest = fmt[at:]
    if _odd_percent(prefix):
        return None
    bad.append(None)
    new = d.choice(bad)
    if new is None:
        if _odd_percent(fmt):
            return None
        typ['format'] = fmt + '%'
    else:
        typ['format'] = prefix + new + rest
    return Fault('invalid format', ref + '/format')


def _odd_percent(text):
    """Tell whether the text ends within a directive."""
    i = 0
    while i < len(text):
        if text[i] == '%':
            if i + 1 >= len(text):
                return True
            i += 2
        else:
            i += 1
    return False


def fault_values(d, mapping, touched):
    pick = _pick_type(d, mapping, touched, ('array', 'map'))
    if pick is None:
        return None
    ref, _, typ = pick
    if d.chance(50):
        del typ['values']
        return Fault('missing values', ref)
    typ['values'] = d.choice(NOT_AN_OBJECT)
    return Fault('values are not an object', ref + '/values')


def fault_registry(d, mapping, touched):
    classes = mapping.get('classes', ())
    if not classes or 'registry' in touched:
        return None
    touched.add('registry')
    key = registry(d.choice(classes))
    props = mapping.setdefault('properties', OrderedDict())
    if d.chance(50):
        # an existing property
        props_left = [
            n for n in props
            if id(props[n]) not in touched and isinstance(props[n], dict)
        ]
        if props_left and key not in props:
            name = d.choice(props_left)
            touched.add(id(props[name]))
            props[name]['json'] = key
            return Fault('JSON name conflicts with a registry', '/' + name)
    if key in props or not key[0].isalpha():
        return None
    prop = _new_property()
    if d.chance(50):
        prop['json'] = 'an unused name of the registry'
    touched.add(id(prop))
    props[key] = prop
    return Fault('property conflicts with a registry', '/' + key)


def fault_registries(d, mapping, touched):
    classes = mapping.get('classes', ())
    if len(classes) < 2 or touched:
        return None
    i = d.int(0, len(classes) - 2)
    j = d.int(i + 1, len(classes) - 1)
    plural = classes[i].get('plural', model.plural(classes[i]['name']))
    if d.chance(50):
        plural = plural[0] + ''.join(
            c.upper() if d.chance(50) else c.lower() for c in plural[1:])
    classes[j]['plural'] = plural
    return Fault('registries conflict', '/classes/{}'.format(j))


def fault_json_names(d, mapping, touched):
    comps = [(ref, comp) for ref, comp in composites(mapping)
             if len(comp.get('properties', ())) > 1]
    if not comps:
        return None
    ref, comp = d.choice(comps)
    props = comp['properties']
    first, second = sorted(d.sample(range(len(props)), 2))
    first, second = list(props)[first], list(props)[second]
    if id(props[first]) in touched or id(props[second]) in touched:
        return None
    touched.add(id(props[first]))
    touched.add(id(props[second]))
    if d.chance(50):
        props[second]['json'] = props[first].get('json', first)
    else:
        props[first]['json'] = props[second].get('json', second)
    return Fault('same JSON names', '{}/properties/{}'.format(ref, second))


FAULTS = (
    fault_name, fault_description, fault_missing, fault_unknown_key,
    fault_container, fault_item, fault_settings, fault_settings,
    fault_class_detail, fault_order, fault_duplicate_name, fault_duplicate_name,
    fault_id_pattern, fault_reserved_id, fault_property_name,
    fault_property_schema, fault_type, fault_type, fault_type, fault_empty_type,
    fault_key_order, fault_extra_key, fault_extra_key, fault_bound_type,
    fault_bound_type, fault_empty_range, fault_empty_range, fault_sizes,
    fault_pattern, fault_format, fault_format, fault_values, fault_registry,
    fault_registries, fault_json_names)

# those which do not hide others and can be combined
COMBINABLE = (
    fault_id_pattern, fault_reserved_id, fault_property_name, fault_type,
    fault_key_order, fault_extra_key, fault_bound_type, fault_empty_range,
    fault_sizes, fault_pattern, fault_format, fault_values)


def faulty(d):
    """Draw a schema with planted faults: (mapping, [Fault])."""
    for _ in range(20):
        mapping = wellformed(d, small=True)
        touched = set()
        faults = []
        if d.chance(25):
            for _ in range(d.int(2, 4)):
                fault = d.choice(COMBINABLE)(d, mapping, touched)
                if fault is not None:
                    faults.append(fault)
        else:
            for _ in range(6):
                fault = plant(d, mapping, touched)
                if fault is not None:
                    faults.append(fault)
                    break
                touched = set()
        if faults:
            return mapping, faults
    # a fault which always applies
    mapping['name'] = 'a'
    return mapping, [Fault('invalid name', '/name', True)]


# ---------------------------------------------------------------------------
# Arbitrary files
# ---------------------------------------------------------------------------

VOCABULARY = (
    'name', 'description', 'plural', 'id_pattern', 'properties', 'classes',
    'embeds', 'type', 'values', 'json', 'optional', 'minimum', 'maximum',
    'exclusive_minimum', 'exclusive_maximum', 'pattern', 'format',
    'minimum_size', 'maximum_size', 'cpp', 'go', 'py', 'module_name', 'path_as',
    'timezone_as', 'package', 'namespace', 'optional_as', 'datetime_library',
    'indention', 'str', 'pathlib.Path', 'ctime', 'date.h', 'boolean', 'integer',
    'float', 'string', 'path', 'date', 'time', 'datetime', 'time_zone',
    'duration', 'array', 'map', 'Some_class', 'defines something.', 'x', 'X',
    'id', 'ID', 'class', 'a__b', 'A__b', '%Y', '%H:%M', '^a$', '', 'é', '\0',
    '\ud800', 'a\nb', '"""', '*/', '%', '%%', '%Y-%Y', '%l', '%P', '2006', 'Jan')

NUMBERS = (0, 1, -1, 2, 1.5, -0.0, 2**31, 2**53, 2**63, -2**63, 2**64, 10**30,
           10**400, 1e308, 1e-320, float('inf'), float('nan'), -float('inf'))


def any_value(d, depth=2):
    """Draw any JSON value in the vocabulary of the schemas."""
    kind = d.int(0, 7 if depth else 5)
    if kind == 0:
        return None
    if kind == 1:
        return d.chance(50)
    if kind == 2:
        return d.choice(NUMBERS)
    if kind <= 4:
        return d.choice(VOCABULARY)
    if kind == 5:
        return d.text(0, 5)
    if kind == 6:
        return [any_value(d, depth - 1) for _ in range(d.int(0, 3))]
    return OrderedDict(
        (d.choice(VOCABULARY), any_value(d, depth - 1))
        for _ in range(d.int(0, 4)))


def nodes(value, path=()):
    """Iterate over all the values: (container, key, value)."""
    if isinstance(value, dict):
        for key in value:
            yield value, key
            yield from nodes(value[key])
    elif isinstance(value, list):
        for i, item in enumerate(value):
            yield value, i
            yield from nodes(item)


def rename_key(container, key, new):
    """Rename a key keeping the order."""
    items = [(new if k == key else k, v) for k, v in container.items()]
    container.clear()
    container.update(items)


def edit(d, root):
    """Edit the tree at random; give the new root."""
    places = list(nodes(root))
    if not places:
        return any_value(d)
    container, key = d.choice(places)
    how = d.int(0, 8)
    if how == 0:
        del container[key]
    elif how <= 2:
        container[key] = any_value(d)
    elif how == 3:
        if isinstance(container, dict):
            rename_key(
                container, key,
                d.choice(VOCABULARY) if d.chance(70) else d.text(0, 4))
        else:
            container.insert(key, any_value(d))
    elif how == 4:
        # copy another value
        other, at = d.choice(places)
        try:
            container[key] = copy.deepcopy(other[at])
        except (KeyError, IndexError):
            pass
    elif how == 5:
        if isinstance(container, dict):
            container[d.choice(VOCABULARY)] = any_value(d)
        else:
            container.append(any_value(d))
    elif how == 6:
        if isinstance(container[key], str):
            text = container[key]
            at = d.int(0, len(text))
            container[key] = text[:at] + d.choice(
                ('', '_', '__', 'x', 'X', '%', '.', ' ', '\n', '\\', '"', 'é',
                 '0')) + text[at + d.int(0, 1):]
        else:
            container[key] = d.choice(NUMBERS)
    elif how == 7:
        # swap or repeat
        if isinstance(container, list):
            container.insert(key, copy.deepcopy(container[key]))
        else:
            container.move_to_end(key, last=d.chance(50)) if isinstance(
                container, OrderedDict) else None
    else:
        # wrap
        container[key] = d.choice(
            ([container[key]], OrderedDict(type='array', values=container[key]),
             OrderedDict(
                 type='map', description='x', values=container[key])))
    return root


SPECIAL = (
    b'', b' ', b'\xef\xbb\xbf{}', b'\xff\xfe{\x00}\x00', b'{', b'}', b'[', b'null',
    b'true', b'0', b'""', b'"', b'[]', b'{}', b'{"a":1', b"{'a': 1}", b'{"a":}',
    b'{"name": "A", "name": "B", "description": "defines it."}', b'\x00', b'\xff',
    b'{"\\ud800": 1}', b'"\\ud800"', b'NaN', b'Infinity', b'-Infinity', b'1e999',
    b'9' * 5000, b'-' + b'9' * 5000, b'[' * 3000 + b']' * 3000, b'[' * 200000,
    b'{"a":' * 2000, b'{} {}', b'{}x', b'// a\n{}', b'{,}', b'[1,]', b'\xc3(',
    b'"\x01"', b'"\\x41"', b'01', b'+1', b'.5', b'1.', b'tru')


def file_content(d):
    """Draw the content of a schema file: (kind, bytes)."""
    kind = d.choice(
        ('edited', 'edited', 'edited', 'edited', 'faulty', 'faulty', 'bytes',
         'bytes', 'value', 'special', 'deep'))
    if kind == 'special':
        return kind, d.choice(SPECIAL)
    if kind == 'value':
        return kind, _encode(d, any_value(d, 3))
    if kind == 'faulty':
        mapping, _ = faulty(d)
        if d.chance(30):
            mapping = edit(d, mapping)
        return kind, _encode(d, mapping)
    mapping = wellformed(d, small=True)
    if d.int(0, 2) == 0:
        mapping['description'] += ' ' + d.choice(('\xe9', '\u65e5', '\U0001f600'))
    if kind == 'edited':
        for _ in range(d.int(1, 4)):
            mapping = edit(d, mapping)
        return kind, _encode(d, mapping)
    if kind == 'deep':
        typ = OrderedDict(type='string')
        # the generators are slow on deep types
        for _ in range(d.choice((5, 15, 40))):
            typ = OrderedDict(type=d.choice(('array', 'map')), values=typ)
        props = mapping.setdefault('properties', OrderedDict())
        typ['description'] = 'is deep'
        typ.move_to_end('description', last=False)
        typ.move_to_end('type', last=False)
        props['deepest'] = typ
        return kind, _encode(d, mapping)
    data = bytearray(_encode(d, mapping))
    for _ in range(d.int(1, 3)):
        if not data:
            break
        how = d.int(0, 4)
        at = d.int(0, len(data) - 1)
        if how == 0:
            del data[at:at + d.int(1, 20)]
        elif how == 1:
            data[at] = d.int(0, 255)
        elif how == 2:
            data[at:at] = d.choice(
                (b'"', b'{', b'}', b'[', b']', b',', b':', b'\\', b'\x00', b'\xff',
                 b'null', b'1e5', b'\\u0000', b'\\ud83d', b'NaN', b'\xc3\xa9',
                 b'\xef\xbb\xbf', b'\xe2\x80\xa8', b'\r', b'\n', b'\t'))
        elif how == 3:
            data = data[:at]
        else:
            other = d.int(0, len(data) - 1)
            data[at:at] = data[other:other + d.int(1, 60)]
    return kind, bytes(data)


def _encode(d, value):
    how = d.int(0, 3)
    if how == 0:
        return json.dumps(
            value, ensure_ascii=False).encode('utf-8', 'surrogatepass')
    return json.dumps(value, indent=(None, None, 1)[how - 1]).encode('ascii')
