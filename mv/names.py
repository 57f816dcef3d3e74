"""Names which might clash in the generated code and the clashes they cause."""
import collections
import copy
import keyword
import re
import string

from . import gen, model, schemagen

PY = (
    'False None True and as assert async await break class continue def del elif '
    'else except finally for from global if import in is lambda nonlocal not or '
    'pass raise return try while with yield match case type self cls object str '
    'int float bool list dict tuple set len isinstance repr any all datetime '
    'collections typing pathlib pytz re errors ref value target graph id Error '
    'Errors parse fromjsonable tojsonable duration_from_string annotations append '
    'items values keys join format print super property registry_value '
    'instance_value some_graph_from serialize_some_graph OrderedDict cap').split()
GO = (
    'break case chan const continue default defer else fallthrough for func go '
    'goto if import interface map package range return select struct switch type '
    'var append bool byte cap close complex copy delete error false float64 imag '
    'int int64 iota len make new nil panic print println real recover rune string '
    'true uint uint8 any min max clear init main fmt strings time regexp math json '
    'errors value target ref instance graph ok err Error Errors NewErrors String '
    'ID Add Len testing DurationFromString key cast').split()
CPP = (
    'alignas alignof and and_eq asm auto bitand bitor bool break case catch char '
    'char16_t char32_t class compl concept const constexpr const_cast continue '
    'co_await co_return co_yield decltype default delete do double dynamic_cast '
    'else enum explicit export extern false float for friend goto if inline int '
    'long mutable namespace new noexcept not not_eq nullptr operator or or_eq '
    'private protected public register reinterpret_cast requires return short '
    'signed sizeof static static_assert static_cast struct switch template this '
    'thread_local throw true try typedef typeid typename union unsigned using '
    'virtual void volatile wchar_t while xor xor_eq std Json date json boost '
    'string vector map message strlen errors value target ref id parse types '
    'jsoncpp errno NULL EOF stdin assert optional final override import module '
    'size_t tm int64_t time main max min linux unix signbit isnan INFINITY INT_MAX regex_0 '
    'cast_0 value_0 ref_0 target_0 item_0 registry instance key kv Errors Error '
    'value_type_to_string parse_duration re atomic_cancel atomic_commit '
    'atomic_noexcept synchronized').split()
WORDS = tuple(sorted(set(PY + GO + CPP)))

# Further identifiers of the generated code
LOCALS = (
    'All Any Consider IDs ISO If Iterable JSONable L List Optional '
    'Otherwise OverflowError Path Placeholders Q R Since Some_Value The '
    'UnknownTimeZoneError Value ValueConstIterator ValueError ValueType add '
    'add_duration add_rep_double adds allocate arrayValue asBool asDouble '
    'atol attribute attributes b b2c book booleanValue buf c c_str cap_ '
    'capped cat cc cc_size chrono cities collects compile container creates '
    'd data dictionaries domain_error duration duration_re emplace '
    'emplace_back empty encountered end enumerate errorf errors_ exceptions '
    'expected expected_errors fail filesystem first first_nonzero fmt_size '
    'fraction full h hour hours i identifier ids initialized initializes '
    'inner instance_ref instances intValue intervals invalid_duration '
    'isArray isBool isDouble isMember isObject item item2instance item2s '
    'item2s_as_value item2s_ref item_count iter itoa kDuration kID label '
    'left library load_location local_seconds locate_zone location lstrip m '
    'make_time make_unique matched matrices matrices_as_value matrices_ref '
    'max_seconds maximum microseconds microseconds_str minute minutes '
    'months move mtch multiplier must_compile mvns mvp nanos_str nanosecond '
    'nanoseconds nanoseconds_in_hour nanoseconds_in_minute '
    'nanoseconds_in_second nanoseconds_str new_errors nullValue '
    'numeric_limits obj objectValue order ordered out overflow '
    'overflow_error overflows p param parse_float parse_int parsed parses '
    'parts path placeholder placeholder_q placeholder_url_entry pre '
    'precision properties q q_as_value q_from q_instance qfrom_jsonable qs '
    'qs_as_value qs_map qs_ok qs_ref qs_value qto_jsonable quantity r '
    'realValue reference reference_not_found references rep rep_t '
    'representation reserve resize rest result rstrip runtime_error s '
    'second seconds seconds_as_ns serialize_q serialize_url_entry '
    'serialized serializes setfill setw shell size smatch some_name '
    'some_value specified sprintf ss sserr ssnano start_at stod stol stores '
    'strconv strftime stripped strptime sum t terms text time_zone '
    'timedelta timezone to_duration trim_left trimmed trunc type_of tzinfo '
    'uintValue unique_ptr units url url_entries url_entry '
    'url_entry_as_value url_entry_from url_entry_instance value_type weeks '
    'x y year years z').split()

PY_KEYWORDS = frozenset(keyword.kwlist)
GO_KEYWORDS = frozenset(GO[:25])
# Reserved in C++17, contextual and experimental ones
CPP_KEYWORDS = frozenset(
    w for w in CPP[:CPP.index('std')]) | {
        'import', 'module', 'atomic_cancel', 'atomic_commit',
        'atomic_noexcept', 'synchronized'
    }
CPP_MACROS = frozenset(('EOF', 'INFINITY', 'NULL', 'errno'))
PY_MODULES = frozenset((
    'Error', 'Errors', 'collections', 'datetime', 'errors', 'graph', 'id',
    'instance_value', 'pathlib', 'pytz', 're', 'ref', 'registry_value',
    'target', 'typing', 'value'))


# Names with rules of their own
SPECIAL = (
    'collections', 'Collections', 'self', 'Self', 'id', 'ID', 'Id', 'instance',
    'Instance', 'strlen', 'Strlen', 'EOF', 'NULL', 'errno', 'INFINITY', 'json',
    'Json', 'target_0', 'Target_12', 'Error', 'errors', 'New_errors', 'None',
    'True', 'False')


def ucamel(name):
    """Give the name in upper camel case."""
    return ''.join(part[:1].upper() + part[1:] for part in name.split('_'))


def camel(name):
    """Give the name in camel case."""
    first, _, rest = name.lstrip('_').partition('_')
    return first.lower() + ucamel(rest)


Clash = collections.namedtuple('Clash', ['what', 'refs'])


class _Schema:
    """Names of a schema together with the references."""

    def __init__(self, mapping):
        # (suffix of the reference, kind, name, {name: suffix of the reference})
        self.composites = []
        for ref, comp in schemagen.composites(mapping):
            kind = ref.split('/')[1] if ref else 'graph'
            props = [(name, '{}/{}'.format(ref, name))
                     for name in comp.get('properties', ())]
            self.composites.append((ref, kind, comp['name'], props))
        self.plurals = [
            (cls.get('plural', model.plural(cls['name'])),
             '/classes/{}'.format(i))
            for i, cls in enumerate(mapping.get('classes', ()))
        ]


def _pairs(items, what):
    """Give a clash for each two equal items (identifier, ref)."""
    first = {}
    out = []
    for identifier, ref in items:
        if identifier in first:
            out.append(
                Clash('{} {!r}'.format(what, identifier), (first[identifier],
                                                           ref)))
        else:
            first[identifier] = ref
    return out


def clashes_py(mapping):
    """Give the clashes in Python."""
    names = _Schema(mapping)
    out = []
    for ref, kind, name, props in names.composites:
        if ucamel(name) in PY_KEYWORDS:
            out.append(Clash('keyword ' + ucamel(name), (ref, )))
        for prop, prop_ref in props:
            attr = prop.lower()
            if attr in PY_KEYWORDS:
                out.append(Clash('keyword ' + attr, (prop_ref, )))
            if attr == 'self':
                out.append(Clash('self', (prop_ref, )))
            if attr == 'id' and kind == 'classes':
                out.append(Clash('id of a class', (prop_ref, )))
            if attr == 'collections' and kind == 'graph' and names.plurals:
                out.append(Clash('collections', (prop_ref, )))
        out.extend(_pairs([(p.lower(), r) for p, r in props], 'attributes'))
    graph_attrs = {p.lower(): r for p, r in names.composites[0][3]}
    for plural, ref in names.plurals:
        attr = plural.lower()
        if attr in PY_KEYWORDS or attr in ('self', 'collections'):
            out.append(Clash('registry ' + attr, (ref, )))
        if attr in graph_attrs:
            out.append(
                Clash('registry and property ' + attr, (ref, graph_attrs[attr])))
    out.extend(
        _pairs([(ucamel(c[2]), c[0]) for c in names.composites], 'composites'))
    out.extend(
        _pairs([(c[2].lower(), c[0]) for c in names.composites], 'variables'))
    parts = mapping['py']['module_name'].split('.')
    if parts[0] in PY_MODULES or any(p in PY_KEYWORDS for p in parts):
        out.append(
            Clash('module ' + mapping['py']['module_name'],
                  ('/py/module_name', )))
    return out


def clashes_go(mapping):
    """Give the clashes in Go."""
    names = _Schema(mapping)
    out = []
    functions = {'Error', 'Errors', 'NewErrors'}
    for _, _, name, _ in names.composites:
        functions.add(ucamel(name) + 'FromJSONable')
        functions.add(ucamel(name) + 'ToJSONable')
    for ref, kind, name, props in names.composites:
        if ucamel(name) in functions:
            out.append(Clash('reserved ' + ucamel(name), (ref, )))
        if kind == 'classes':
            for prop, prop_ref in props:
                if ucamel(prop) == 'ID':
                    out.append(Clash('ID of a class', (prop_ref, )))
        items = [(ucamel(p), r) for p, r in props]
        if kind == 'graph':
            items.extend((ucamel(p), r) for p, r in names.plurals)
        out.extend(_pairs(items, 'fields'))
    out.extend(
        _pairs([(ucamel(c[2]), c[0]) for c in names.composites], 'composites'))
    out.extend(
        _pairs([(camel(p), r) for p, r in names.plurals],
               'variables of registries'))
    if mapping['go']['package'] in GO_KEYWORDS:
        out.append(
            Clash('package ' + mapping['go']['package'], ('/go/package', )))
    return out


def clashes_cpp(mapping):
    """Give the clashes in C++."""
    names = _Schema(mapping)
    out = []
    functions = {'serialize_' + c[2].lower() for c in names.composites}
    for ref, kind, name, props in names.composites:
        variable = name.lower()
        if ucamel(name) in CPP_MACROS or ucamel(name) == 'Json':
            out.append(Clash('composite ' + ucamel(name), (ref, )))
        if (variable in CPP_KEYWORDS or variable in CPP_MACROS
                or variable in functions
                or re.match(r'target_[0-9]+\Z', variable)
                or variable == 'strlen' and kind == 'graph'):
            out.append(Clash('variable ' + variable, (ref, )))
        for prop, prop_ref in props:
            field = prop.lower()
            if field in CPP_KEYWORDS or field in CPP_MACROS:
                out.append(Clash('field ' + field, (prop_ref, )))
            if field == 'id' and kind == 'classes':
                out.append(Clash('id of a class', (prop_ref, )))
        items = [(p.lower(), r) for p, r in props]
        if kind == 'graph':
            items.extend((p.lower(), r) for p, r in names.plurals)
        out.extend(_pairs(items, 'fields'))
    # fields which hide the types of other fields
    for ref, mapped in schemagen.composites(mapping):
        types = set()
        for prop in mapped.get('properties', {}).values():
            if (mapping['cpp']['datetime_library'] == 'ctime'
                    and prop['type'] in ('date', 'time', 'datetime')
                    and not prop.get('optional', False)):
                types.add('tm')
            inner = prop
            while 'values' in inner:
                inner = inner['values']
            if inner['type'] == 'integer':
                types.add('int64_t')
        items = [
            (p.lower(), '{}/{}'.format(ref, p))
            for p in mapped.get('properties', {})
        ]
        if not ref:
            items.extend((p.lower(), r) for p, r in names.plurals)
        for field, field_ref in items:
            if field in types:
                out.append(Clash('hidden type ' + field, (field_ref, )))
    for plural, ref in names.plurals:
        field = plural.lower()
        if field in CPP_KEYWORDS or field in CPP_MACROS or field == 'instance':
            out.append(Clash('registry ' + field, (ref, )))
        if field == mapping['name'].lower():
            # one variable of the serialization hides the other
            out.append(Clash('registry named as the graph', (ref, )))
    out.extend(
        _pairs([(ucamel(c[2]), c[0]) for c in names.composites], 'composites'))
    out.extend(
        _pairs([(cls['name'].lower(), '/classes/{}'.format(i))
                for i, cls in enumerate(mapping.get('classes', ()))
                if 'id_pattern' in cls], 'namespaces of patterns'))
    namespace = mapping['cpp']['namespace']
    if any(part in CPP_KEYWORDS for part in namespace.split('::')):
        out.append(Clash('namespace ' + namespace, ('/cpp/namespace', )))
    return out


CLASHES = {'py': clashes_py, 'go': clashes_go, 'cpp': clashes_cpp}

# ---------------------------------------------------------------------------
# Generation
# ---------------------------------------------------------------------------


def word(d, words=WORDS):
    """Draw a word in one of the cases."""
    text = d.choice(words)
    how = d.int(0, 7)
    if how == 0:
        return text.upper()
    if how == 1:
        return text[0].upper() + text[1:]
    if how == 2:
        return ''.join(
            c.upper() if d.chance(30) else c.lower() for c in text)
    if how == 3:
        return '_'.join(p[:1].upper() + p[1:] for p in text.split('_'))
    if how == 4:
        # in camel case
        return ucamel(text)
    return text


def vary(d, name):
    """Draw a similar name."""
    for _ in range(1 if d.chance(70) else 2):
        name = name or 'x'
        at = d.int(0, len(name) - 1)
        how = d.int(0, 9)
        if how <= 1:
            name = name[:at] + name[at].swapcase() + name[at + 1:]
        elif how == 2:
            name = name.upper()
        elif how == 3:
            name = name.lower()
        elif how == 4 and 0 < at:
            name = name[:at] + '_' + name[at:]
        elif how == 5:
            name = name.replace('_', '')
        elif how == 6:
            # equal in camel case
            name = re.sub('_([a-z])', lambda m: '_' + m.group(1).upper(), name)
        elif how == 7 and '_' in name:
            place = name.index('_')
            rest = name[place + 1:]
            name = name[:place] + rest[:1].upper() + rest[1:]
        else:
            name = d.choice((
                name + 's', name + '_0', name + '1', name + '_from_JSONable',
                name + '_to_JSONable', 'Serialize_' + name, name + '_from',
                name[:-1], name + 'ToJSONable', 'serialize_' + name,
                name + '_ref', name + '_registry', name + '_as_value',
                name + '_instance', name + '_map', name + '_ok',
                name + '_value', 'Target_' + name, 'Placeholder_' + name,
                name + '_re'))
    return name


def legal(name, composite):
    """Make the name legal."""
    name = re.sub('[^A-Za-z0-9_]', '', name)
    name = name.lstrip('_0123456789').rstrip('_')
    if not name:
        name = 'x'
    if composite:
        name = name[0].upper() + name[1:]
    return name


def name_for(d, pool, composite, words=WORDS):
    """Draw a name."""
    if pool and d.chance(45):
        name = vary(d, d.choice(pool))
    elif d.chance(8):
        name = d.choice(SPECIAL)
    elif d.chance(20):
        name = word(d, LOCALS)
    elif d.chance(85):
        name = word(d, words)
    elif d.chance(50):
        name = word(d, words) + '_' + word(d, words)
    else:
        name = schemagen.property_name(d)
    return legal(name, composite)


def rename(d, mapping, percent, words=WORDS):
    """Rename composites, plurals and properties in the mapping."""
    pool = [comp['name'] for _, comp in schemagen.composites(mapping)]
    taken = set(pool)
    names = {}
    for _, comp in schemagen.composites(mapping):
        if d.chance(percent):
            new = name_for(d, pool, True, words)
            if new in taken:
                continue
            taken.add(new)
            pool.append(new)
            names[comp['name']] = new
    pool.extend(['id', 'ID', 'some_property'])
    for cls in mapping.get('classes', ()):
        if d.chance(percent):
            cls['plural'] = name_for(d, pool, True, words)
        pool.append(cls.get('plural', model.plural(cls['name'])))
    # all at once so that names can be swapped
    schemagen.rename(mapping, names)
    for ref, comp in schemagen.composites(mapping):
        props = comp.get('properties')
        if not props:
            continue
        new_props = collections.OrderedDict()
        local = list(pool) + list(props) * 3
        for name, prop in props.items():
            if d.chance(percent):
                new = name_for(d, local, False, words)
                if new not in new_props and new not in props and not (
                        new == 'id' and ref.startswith('/classes')):
                    local.append(new)
                    name = new
            new_props[name] = prop
        comp['properties'] = new_props
    schemagen.settle(d, mapping)


def settings(d, mapping):
    """Draw the names in the settings."""

    def part(reserved):
        if d.chance(40):
            return d.choice(sorted(reserved))
        return legal(word(d), False)

    if 'py' in mapping and d.chance(30):
        mapping['py']['module_name'] = '.'.join(
            part(PY_KEYWORDS if i else PY_MODULES)
            for i in range(d.int(1, 3)))
    if 'go' in mapping and d.chance(30):
        mapping['go']['package'] = part(GO_KEYWORDS)
    if 'cpp' in mapping and d.chance(30):
        mapping['cpp']['namespace'] = '::'.join(
            part(CPP_KEYWORDS) for _ in range(d.int(1, 3)))


def make(d, langs=('py', 'go', 'cpp'), **options):
    """Draw a schema in which names might clash."""
    case = gen.SchemaMaker(
        d, gen.Options(langs=langs, exotic_json=10, **options)).make()
    rename(d, case.mapping, d.choice((5, 15, 40)))
    settings(d, case.mapping)
    return case


def weird(d, case, langs):
    """Rename to weird names which do not clash, if there are such."""
    for _ in range(3):
        mapping = copy.deepcopy(case.mapping)
        rename(d, mapping, d.choice((20, 50)))
        if not any(CLASHES[lang](mapping) for lang in langs):
            return gen.Case(mapping, case.patterns, case.options)
    return case
