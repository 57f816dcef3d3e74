"""Probe the known findings."""
import json
import os

from . import cpprun, gorun, pyrun


def _py_read(probe):
    """Give the outcome of reading a document with the generated Python code."""
    with pyrun.Package(probe['mapping']) as package:
        try:
            graph, errors, _ = package.read(probe['document'])
        except Exception as err:  # pylint: disable=broad-except
            return 'raised ' + type(err).__name__
        if errors:
            return 'errors at ' + ', '.join(ref for ref, _ in errors)
        if probe.get('write'):
            written = package.write(graph)
            out = 'wrote ' + json.dumps(written)
            if package.read(written)[1]:
                out += ', which is rejected'
            return out
        return 'accepted'


def _describe(answer):
    """Describe the answer of the driver of compiled code."""
    for key in ('hung', 'died'):
        if key in answer:
            return key
    if 'threw' in answer:
        return '{} threw {}'.format(
            answer['stage'], answer['what'] or answer['threw'])
    if answer['errors']:
        return 'errors at ' + ', '.join(ref for ref, _ in answer['errors'])
    if answer.get('errors2'):
        return 'wrote {}, which is rejected'.format(
            json.dumps(answer['written']))
    if 'written' in answer:
        return 'wrote ' + json.dumps(answer['written'])
    return 'accepted'


def _read_compiled(module, lang, probes, toolchain):
    """Give the outcomes of reading and writing documents with compiled code."""
    args = {} if lang == 'go' else {'per_unit': 1}
    out = []
    with module.Batch([p['mapping'] for p in probes], toolchain,
                      **args) as batch:
        for number, probe in enumerate(probes):
            if batch.status[number] != 'ok':
                out.append(batch.status[number])
                continue
            out.append(
                _describe(
                    batch.request({
                        'n': 0,
                        'case': number,
                        'op': 'parse',
                        'ref': 'doc#',
                        'doc': probe['document'],
                        'write': probe.get('write', False),
                        'cap': 0 if lang == 'go' else 1000
                    }, 2)))
    return out


def _compiled_alone(probes, toolchain):
    """Give the errors when a file includes one of the headers first."""
    out = []
    with cpprun.Batch([p['mapping'] for p in probes], toolchain,
                      per_unit=1) as batch:
        for number, probe in enumerate(probes):
            folder = os.path.join(batch.folder, 'c{}'.format(number))
            source = os.path.join(folder, 'alone.cpp')
            with open(source, 'wt') as fid:
                fid.write('#include "{}"\n'.format(probe['header']))
            code, text = cpprun.run(
                [
                    probe['compiler'], '-std=c++17', '-w', '-fsyntax-only',
                    '-DONLY_C_LOCALE=1', '-I' + folder
                ] + cpprun.INCLUDES + [source])
            wanted = probe['outcome']
            out.append(
                'accepted' if code == 0 else
                wanted if wanted in text else cpprun.brief(text))
    return out


def _with(toolchain, make, func):
    """Call the function with the tool chain or a new one."""
    if toolchain is not None:
        return func(toolchain)
    own = make()
    try:
        return func(own)
    finally:
        own.close()


def _outcomes(kind, probes, scratch, toolchain):
    """Give the outcomes of the probes of the same kind."""
    if kind == 'py-read':
        return [_py_read(probe) for probe in probes]
    if kind == 'go-read':
        return _with(
            toolchain, lambda: gorun.Toolchain(scratch),
            lambda t: _read_compiled(gorun, 'go', probes, t))
    if kind == 'cpp-read':
        return _with(
            toolchain, lambda: cpprun.Toolchain(scratch),
            lambda t: _read_compiled(cpprun, 'cpp', probes, t))
    if kind == 'cpp-alone':
        return _with(
            toolchain, lambda: cpprun.Toolchain(scratch),
            lambda t: _compiled_alone(probes, t))
    # the uninitialized variables have a pattern
    assert kind == 'cpp-read-pattern'
    return _with(
        None,
        lambda: cpprun.Toolchain(scratch, sanitize=True, init='pattern'),
        lambda t: _read_compiled(cpprun, 'cpp', probes, t))


def probe(ctx, toolchain=None):
    """Probe the findings known for the property and print them."""
    kinds = []
    for entry in ctx.known:
        if entry['probe']['kind'] not in kinds:
            kinds.append(entry['probe']['kind'])
    for kind in kinds:
        entries = [e for e in ctx.known if e['probe']['kind'] == kind]
        outcomes = _outcomes(
            kind, [e['probe'] for e in entries], ctx.scratch, toolchain)
        for entry, got in zip(entries, outcomes):
            if got == entry['probe']['outcome']:
                print(
                    'KNOWN-FINDING: property={} {}: {}'.format(
                        entry['property'], entry['id'], entry['what']),
                    flush=True)
                ctx.rec.count('known findings confirmed')
            else:
                print(
                    'note: the finding {} is gone: {}'.format(
                        entry['id'], got),
                    flush=True)
                ctx.rec.count('known findings gone')
