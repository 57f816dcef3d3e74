"""Check that exactly the clashes of identifiers are refused: C04."""
import json
import os

from hypothesis import strategies as st

from .. import gen, model, names, pyrun, runner
from ..runner import Violation
from . import pycode, schemas
from .schemas import FILES, LANGS, command, fold, scratch, snapshot


def test_c04(case, rec):
    """Test a single case."""
    import mapry.parse
    mapping = fold(case['mapping'])
    folder = scratch()
    path = folder / 'named.json'
    path.write_text(json.dumps(mapping, indent=1))
    with schemas.Guard('reading the schema'):
        mapry.parse.schema_from_json_file(path)
    outdir = folder / 'named'
    outdir.mkdir(exist_ok=True)
    clashing = []
    for lang in LANGS:
        for child in outdir.iterdir():
            child.unlink()
        (outdir / sorted(FILES[lang])[0]).write_text('stale')
        (outdir / 'other').write_text('other')
        before = snapshot(outdir)
        clashes = names.CLASHES[lang](mapping)
        code, stderr = command(lang, path, outdir)
        if isinstance(code, Exception):
            raise Violation(
                'the generator of {} raised {}: {}'.format(
                    lang, type(code).__name__, code))
        if not clashes:
            if code != 0:
                raise Violation(
                    'the names do not clash in {}, but are refused: {}'.format(
                        lang, stderr))
            if set(snapshot(outdir)) != FILES[lang] | {'other'}:
                raise Violation(
                    'the generator of {} wrote {}'.format(
                        lang, sorted(snapshot(outdir))))
            rec.count(lang + ' accepted')
            continue
        clashing.append(lang)
        rec.count(lang + ' clash')
        for clash in clashes:
            rec.count('{}: {}'.format(lang, clash.what.split(' ')[0]))
        if code == 0:
            raise Violation(
                'the names clash in {}, but are accepted: {}'.format(
                    lang, clashes))
        if snapshot(outdir) != before:
            raise Violation(
                'the schema was refused for {}, but files were written: '
                '{}'.format(lang, sorted(snapshot(outdir))))
        found = schemas.reported('\n' + stderr, str(path) + '#')
        for clash in clashes:
            if not any(ref in found for ref in clash.refs):
                raise Violation(
                    'the clash in {} is not reported at {} ({}): {}'.format(
                        lang, ' or '.join(clash.refs), clash.what, stderr))
        allowed = {ref for clash in clashes for ref in clash.refs}
        for ref in found:
            if ref not in allowed:
                raise Violation(
                    'there is no clash in {} at {}, but it is refused: '
                    '{}'.format(lang, ref, stderr))
    rec.case(
        case['mapping'], {
            'clashing': clashing,
            'mapping': mapping
        })
    if 'py' not in clashing and case['doc'] is not None:
        use(mapping, case['doc'], rec)


def use(mapping, doc, rec):
    """Use the generated Python code."""
    mapping = fold(mapping)
    mapping['py']['module_name'] = 'mvw'
    with pycode.load(mapping) as package:
        with pycode.Guard('reading and writing'):
            graph, errors, _ = package.read(pycode.ordered(doc))
            if errors:
                raise Violation(
                    'a valid document was rejected: {}'.format(errors))
            written = package.write(graph)
            _, errors, _ = package.read(written)
            if errors:
                raise Violation(
                    'the written document was rejected: {}'.format(errors))
    rec.count('used in Python')


def search_c04():
    """Give the search."""

    @st.composite
    def strategy(draw):
        d = gen.D(draw)
        case = names.make(
            d,
            max_classes=2,
            max_embeds=2,
            max_props=3,
            depth=1,
            patterns=False)
        doc = None
        if d.chance(50):
            doc = gen.DocMaker(
                d, gen.Case(case.mapping, case.patterns, case.options)).make()
        else:
            for cls in case.mapping.get('classes', ()):
                if d.chance(40):
                    cls['id_pattern'] = '^.*$'
        return {'mapping': case.mapping, 'doc': doc}

    return strategy(), test_c04


RULE = (
    'schemas whose names are drawn from reserved words, identifiers of the '
    'generated code and variations of each other; an independent list of the '
    'clashes per language decides; non-trivial: all')


def check(prop, ctx):
    """Run the check."""
    ctx.search('naming', 'search_c04', 6000, 60000)
    return runner.finish(
        ctx, RULE, [
            'reserved words are those of Python 3.12, Go and C++17 with the '
            'contextual ones mapry knows',
            'that accepted names compile in Go and C++ is decided by C11 and '
            'C15'
        ])


def replay(prop, failure, scratch_path):
    """Run a single case."""
    del prop, scratch_path
    try:
        test_c04(failure['case'], runner.Recorder())
    except Violation as err:
        return str(err)
    return None
