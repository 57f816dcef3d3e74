"""Extend schemas compatibly and relate the contents read with two versions of a schema."""
import collections
import copy
import math

from . import gen, model, names, schemagen

OrderedDict = collections.OrderedDict


# ---------------------------------------------------------------------------
# Extensions
# ---------------------------------------------------------------------------


class Extender:
    """Draw compatible extensions of a schema; a step can be applied to any schema."""

    def __init__(self, d, case):
        self.d = d
        self.case = case
        self.mapping = copy.deepcopy(case.mapping)
        self.maker = gen.SchemaMaker(d, case.options)
        self.maker.patterns = case.patterns
        self.names = gen._Names()
        for _, comp in schemagen.composites(self.mapping):
            self.names.take(comp['name'])
            if 'plural' in comp:
                self.names.take(comp['plural'])
        for cls in self.mapping.get('classes', ()):
            self.names.taken.add(
                gen._Names.norm(cls.get('plural', model.plural(cls['name']))))
        for _, name, _, prop in schemagen.properties(self.mapping):
            self.names.taken.add(gen._Names.norm(name))
            self.names.taken.add(gen._Names.norm(prop.get('json', name)))
        self.steps = []

    def name(self, words):
        """Draw a name which is not used anywhere."""
        d = self.d
        word = d.choice(words)
        if words is gen.PROPERTY_WORDS:
            known = [n for _, n, _, _ in schemagen.properties(self.mapping)]
            if known and d.chance(30):
                # a neighbour of a name which is there
                word = d.choice(known) + d.choice(('_2', '_new', 's', 'x'))
            elif d.chance(30):
                word = 'zz_' + word
        return self.names.take(word)

    def prop(self, composite, name):
        """Draw an optional property."""
        d = self.d
        maker = self.maker
        maker.class_names = [
            c['name'] for c in self.mapping.get('classes', ())
        ]
        maker.usable_embeds = []
        for embed in self.mapping.get('embeds', ()):
            if embed is composite:
                break
            maker.usable_embeds.append(embed['name'])
        prop = OrderedDict()
        kind = maker.type(prop, 0, '')
        prop['description'] = maker.property_description(name)
        prop['optional'] = True
        maker.type_details(kind, prop, 0, '')
        if d.chance(20):
            json_name = d.choice(gen.EXOTIC_JSON) + 'Zz'
            taken = {
                p.get('json', n)
                for n, p in composite.get('properties', {}).items()
            }
            if json_name not in taken:
                prop['json'] = json_name
        return prop

    def add_property(self):
        d = self.d
        pairs = list(schemagen.composites(self.mapping))
        ref, comp = d.choice(pairs)
        name = self.name(gen.PROPERTY_WORDS)
        if name == 'id':
            return None
        return [
            'property', comp['name'],
            d.int(0, len(comp.get('properties', ()))), name,
            self.prop(comp, name)
        ]

    def add_composite(self):
        d = self.d
        kind = d.choice(('classes', 'embeds'))
        name = self.name(gen.COMPOSITE_WORDS)
        comp = OrderedDict(name=name, description='defines something new.')
        if kind == 'classes':
            plural = model.plural(name)
            if d.chance(40) or not self.names.free(plural):
                comp['plural'] = self.names.take(d.choice(gen.PLURAL_WORDS))
            else:
                self.names.take(plural)
            if d.chance(30):
                comp['id_pattern'] = self.maker.pattern()
        return [
            kind, d.int(0, len(self.mapping.get(kind, ()))),
            comp
        ]

    def fill(self):
        """Draw a required property of a new composite."""
        d = self.d
        new = [
            s[-1]['name'] for s in self.steps if s[0] in ('classes', 'embeds')
        ]
        if not new:
            return None
        target = d.choice(new)
        comp = next(
            c for _, c in schemagen.composites(self.mapping)
            if c['name'] == target)
        name = self.name(gen.PROPERTY_WORDS)
        if name == 'id':
            return None
        prop = self.prop(comp, name)
        if d.chance(60):
            del prop['optional']
        return [
            'property', target,
            d.int(0, len(comp.get('properties', ()))), name, prop
        ]

    def loosen(self):
        d = self.d
        options = []
        for _, comp in schemagen.composites(self.mapping):
            if 'id_pattern' in comp:
                options.append((comp['name'], None, 0, 'id_pattern'))
            for name, prop in comp.get('properties', {}).items():
                if not prop.get('optional', False):
                    options.append((comp['name'], name, 0, 'optional'))
                level, depth = prop, 0
                while True:
                    for key in level:
                        if key in ('minimum', 'maximum', 'minimum_size',
                                   'maximum_size', 'pattern') or (
                                       key in ('exclusive_minimum',
                                               'exclusive_maximum') and
                                       level[key]):
                            options.extend(
                                [(comp['name'], name, depth, key)] * 3)
                    if 'values' not in level:
                        break
                    level, depth = level['values'], depth + 1
        if not options:
            return None
        comp, name, depth, key = d.choice(options)
        return ['loosen', comp, name, depth, key, d.int(0, 3)]

    def make(self, additive):
        """Draw a sequence of extensions; give the schema."""
        d = self.d
        for _ in range(d.int(1, 6)):
            kinds = [
                self.add_property, self.add_property, self.add_composite,
                self.fill
            ]
            if not additive:
                kinds += [self.loosen] * 5
            step = d.choice(kinds)()
            if step is None:
                continue
            mapping = copy.deepcopy(self.mapping)
            apply_step(mapping, step)
            if any(names.CLASHES[lang](mapping)
                   for lang in self.case.options.langs):
                continue
            self.mapping = mapping
            self.steps.append(step)
        return self.mapping


def apply_step(mapping, step):
    """Extend the schema in place; do nothing if the step can not be applied."""
    if step[0] in ('classes', 'embeds'):
        _, position, comp = step
        mapping.setdefault(step[0], [])
        mapping[step[0]].insert(position, copy.deepcopy(comp))
        return
    for _, comp in schemagen.composites(mapping):
        if comp['name'] == step[1]:
            break
    else:
        return
    if step[0] == 'property':
        _, _, position, name, prop = step
        items = list(comp.get('properties', {}).items())
        items.insert(position, (name, copy.deepcopy(prop)))
        comp['properties'] = OrderedDict(items)
        return
    _, _, name, depth, key, how = step
    if name is None:
        comp.pop(key, None)
        return
    level = comp.get('properties', {}).get(name)
    if level is None:
        return
    if key == 'optional':
        level['optional'] = True
        return
    for _ in range(depth):
        if 'values' not in level:
            return
        level = level['values']
    if key not in level:
        return
    if key in ('minimum', 'maximum'):
        value = widened(level, key, how)
        if value is None:
            del level[key]
            level.pop('exclusive_' + key, None)
        else:
            level[key] = value
    elif key in ('minimum_size', 'maximum_size') and how:
        level[key] += how if key == 'maximum_size' else -how
        if level[key] < 0:
            del level[key]
    else:
        del level[key]


def widened(level, key, how):
    """Give a wider bound."""
    value = level[key]
    down = key == 'minimum'
    if how == 0 or isinstance(value, bool):
        return None
    if level['type'] == 'integer':
        value = value - how if down else value + how
        return value if -2**53 < value < 2**53 else None
    if how == 1:
        value = math.nextafter(value, -math.inf if down else math.inf)
    else:
        value = value - how if down else value + how
    return value if math.isfinite(value) else None


def extended(mapping, steps):
    """Apply the extensions."""
    mapping = copy.deepcopy(mapping)
    for step in steps:
        apply_step(mapping, step)
    return mapping


# ---------------------------------------------------------------------------
# Documents
# ---------------------------------------------------------------------------


def places(schema, doc):
    """
    List the composites in a document: (composite, mapping, path of the content).

    The document need not be valid.
    """
    out = []

    def props(comp, value, path):
        if not isinstance(value, dict):
            return
        out.append((comp, value, path))
        for prop in comp.props:
            if prop.json in value:
                nested(prop.type, value[prop.json], path + (prop.name, ))

    def nested(typ, value, path):
        if typ.kind == 'array' and isinstance(value, list):
            for i, item in enumerate(value):
                nested(typ.values, item, path + (i, ))
        elif typ.kind == 'map' and isinstance(value, dict):
            for key, item in value.items():
                nested(typ.values, item, path + (key, ))
        elif typ.kind == 'embed':
            props(schema.embeds[typ.name], value, path)

    props(schema.graph, doc, ('properties', ))
    if isinstance(doc, dict):
        for cls in schema.classes.values():
            registry = doc.get(cls.registry)
            if isinstance(registry, dict):
                for an_id, inst in registry.items():
                    props(cls, inst, ('registries', cls.name, an_id))
    return out


def known_keys(schemas, name):
    """Give the keys which have a meaning in a composite in any of the schemas."""
    out = set()
    for schema in schemas:
        for comp in schema.composites():
            if comp.name == name:
                out.update(p.json for p in comp.props)
        if schema.graph.name == name:
            out.update(c.registry for c in schema.classes.values())
    return out


def with_unknown(schemas, doc, extras):
    """Add unknown keys to a copy of the document; give also their number."""
    doc = copy.deepcopy(doc)
    count = 0
    for pick, key, value, first in extras:
        where = places(schemas[0], doc)
        if not where:
            break
        comp, target, _ = where[pick % len(where)]
        if key in target or key in known_keys(schemas, comp.name):
            continue
        items = list(target.items())
        items.insert(0 if first else len(items), (key, value))
        target.clear()
        target.update(items)
        count += 1
    return doc, count


def removals(schema, doc):
    """List the optional values: (index of the composite, key, path of the content)."""
    out = []
    for i, (comp, value, path) in enumerate(places(schema, doc)):
        for prop in comp.props:
            if prop.optional and prop.json in value:
                out.append((i, prop.json, path + (prop.name, )))
    return out


def without(schema, doc, removal):
    """Remove an optional value from a copy of the document."""
    doc = copy.deepcopy(doc)
    index, key, _ = removal
    del places(schema, doc)[index][1][key]
    return doc


def unset(content, path):
    """Set the value at the path to None in a copy of the content."""
    content = copy.deepcopy(content)
    target = content
    for key in path[:-1]:
        target = target[key]
    target[path[-1]] = None
    return content


def project(schema, content):
    """Keep what the schema defines; give also the rest: (projected, other values)."""
    rest = []

    def props(comp, value):
        names = [p.name for p in comp.props]
        rest.extend(v for k, v in value.items() if k not in names)
        return {p.name: nested(p.type, value[p.name]) for p in comp.props}

    def nested(typ, value):
        if value is None:
            return None
        if typ.kind == 'array':
            return [nested(typ.values, v) for v in value]
        if typ.kind == 'map':
            return {k: nested(typ.values, v) for k, v in value.items()}
        if typ.kind == 'embed':
            return props(schema.embeds[typ.name], value)
        return value

    registries = {}
    for name, registry in content['registries'].items():
        if name not in schema.classes:
            rest.append(registry or None)
            continue
        registries[name] = {
            k: props(schema.classes[name], v)
            for k, v in registry.items()
        }
    return {
        'registries': registries,
        'properties': props(schema.graph, content['properties'])
    }, rest
