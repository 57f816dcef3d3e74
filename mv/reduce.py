"""Reduce failing cases of compiled code (many candidates are tried per compilation)."""
import collections
import copy
import time

from . import runner


def kind_of(message):
    """Give the part of the message which must stay while reducing."""
    return message.partition(':')[0][:60]


def value_candidates(doc):
    """Give simpler documents, the simplest first."""
    out = []

    def walk(path, value):
        if isinstance(value, dict):
            keys = list(value)
            if len(keys) > 3:
                half = len(keys) // 2
                out.append(('keep', path, keys[:half]))
                out.append(('keep', path, keys[half:]))
            for key in keys:
                out.append(('delete', path + [key], None))
            for key in keys:
                walk(path + [key], value[key])
        elif isinstance(value, list):
            for i in range(len(value)):
                out.append(('delete', path + [i], None))
            for i, item in enumerate(value):
                walk(path + [i], item)
        elif isinstance(value, str):
            if value:
                out.append(('set', path, ''))
                if len(value) > 1:
                    out.append(('set', path, value[:len(value) // 2]))
                    out.append(('set', path, value[len(value) // 2:]))
        elif isinstance(value, (int, float)) and not isinstance(value, bool):
            if value not in (0, 1):
                out.append(('set', path, 0))
                out.append(('set', path, 1))
                if isinstance(value, float) and value == int(value):
                    out.append(('set', path, int(value)))

    walk([], doc)
    return out


def apply(doc, change):
    """Apply a change to a copy."""
    what, path, arg = change
    doc = copy.deepcopy(doc)
    if not path:
        if what == 'set':
            return arg
        if what == 'keep':
            return type(doc)((k, v) for k, v in doc.items() if k in arg)
        return doc
    target = doc
    for key in path[:-1]:
        target = target[key]
    last = path[-1]
    if what == 'delete':
        del target[last]
    elif what == 'set':
        target[last] = arg
    else:
        target[last] = type(target[last])(
            (k, v) for k, v in target[last].items() if k in arg)
    return doc


def mapping_candidates(mapping):
    """Give simpler schemas."""
    out = []

    def changed(func):
        new = copy.deepcopy(mapping)
        func(new)
        out.append(new)

    def composites(new):
        yield new
        for kind in ('classes', 'embeds'):
            yield from new.get(kind, ())

    for kind in ('classes', 'embeds'):
        for i in range(len(mapping.get(kind, ()))):

            def remove(new, kind=kind, i=i):
                gone = new[kind][i]['name']
                del new[kind][i]
                if not new[kind]:
                    del new[kind]
                # the properties of the removed type become strings
                for comp in composites(new):
                    for prop in comp.get('properties', {}).values():
                        while 'values' in prop:
                            prop = prop['values']
                        if prop['type'] == gone:
                            prop['type'] = 'string'

            changed(remove)
    for c, comp in enumerate(composites(mapping)):
        names = list(comp.get('properties', ()))
        groups = []
        if len(names) > 1:
            groups.append(names[:len(names) // 2])
            groups.append(names[len(names) // 2:])
        groups.extend([n] for n in names)
        for group in groups:

            def drop(new, c=c, group=group):
                comp = list(composites(new))[c]
                for name in group:
                    del comp['properties'][name]
                if not comp['properties']:
                    del comp['properties']

            changed(drop)
        for key in ('id_pattern', 'plural'):
            if key in comp:

                def unset(new, c=c, key=key):
                    del list(composites(new))[c][key]

                changed(unset)
        for name, prop in comp.get('properties', {}).items():
            depth = 0
            level = prop
            while True:
                for key in level:
                    if key in ('type', 'values', 'description'):
                        continue

                    def unset_key(new, c=c, name=name, depth=depth, key=key):
                        level = list(composites(new))[c]['properties'][name]
                        for _ in range(depth):
                            level = level['values']
                        del level[key]

                    changed(unset_key)
                if 'values' not in level:
                    break
                if depth == 0:

                    def flatten(new, c=c, name=name):
                        props = list(composites(new))[c]['properties']
                        old = props[name]
                        replaced = collections.OrderedDict()
                        replaced['type'] = old['values']['type']
                        replaced['description'] = old['description']
                        for key, value in old['values'].items():
                            replaced.setdefault(key, value)
                        for key in ('optional', 'json'):
                            if key in old:
                                replaced[key] = old[key]
                        props[name] = replaced

                    changed(flatten)
                level = level['values']
                depth += 1
    return out


def reduce(case, message, evaluate, seconds=60):
    """
    Reduce the case, a mapping with ``mapping`` and optionally ``doc``.

    ``evaluate`` gives the messages (or None) of a list of cases.
    """
    kind = kind_of(message)
    deadline = time.monotonic() + seconds
    best, best_message = case, message

    def attempt(cases):
        """Take the first case which fails alike."""
        nonlocal best, best_message
        try:
            messages = evaluate(cases)
        except (runner.HarnessError, LookupError):
            return False
        for cand, got in zip(cases, messages):
            if got is not None and kind_of(got) == kind:
                best, best_message = cand, got
                return True
        return False

    def reduce_doc():
        progress = True
        while progress and time.monotonic() < deadline:
            progress = False
            changes = value_candidates(best['doc'])
            for start in range(0, len(changes), 40):
                if time.monotonic() > deadline:
                    return
                cases = []
                for change in changes[start:start + 40]:
                    cand = dict(best)
                    cand['doc'] = apply(best['doc'], change)
                    cases.append(cand)
                if attempt(cases):
                    progress = True
                    break

    if 'doc' in case:
        reduce_doc()
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        mappings = mapping_candidates(best['mapping'])
        for start in range(0, len(mappings), 24):
            if time.monotonic() > deadline:
                break
            if attempt([
                    dict(best, mapping=m) for m in mappings[start:start + 24]
            ]):
                progress = True
                break
    if 'doc' in case:
        reduce_doc()
    return best, best_message
