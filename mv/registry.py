"""Map the properties to the modules which check them."""
CHECKS = {
    'C01': 'schemas',
    'C02': 'schemas',
    'C03': 'schemas',
    'C04': 'naming',
    'C05': 'generation',
    'C06': 'pycode',
    'C07': 'pycode',
    'C08': 'pycode',
    'C09': 'pycode',
    'C10': 'pycode',
    'C11': 'compiled',
    'C12': 'compiled',
    'C13': 'compiled',
    'C14': 'compiled',
    'C15': 'compiled',
    'C16': 'compiled',
    'C17': 'compiled',
    'C18': 'compiled',
    'C19': 'agree',
    'C20': 'durations',
    'C21': 'dates',
    'C22': 'generation',
    'C23': 'evolution',
    'C24': 'purity',
    'C25': 'commandline',
    'C26': 'typing_',
}

_SEARCH = (
    'Randomized search with fixed seeds; it never proves the absence of '
    'violations. ')
_MODEL = (
    'Trusts the reference model in mv/model.py, written from the '
    'documentation. ')
_SHIM = 'jsoncpp is replaced by a stand-in (cppshim/json/json.h). '

# deciding technique and the assurance
INFO = {
    'C01': ('property-based testing (Hypothesis): generated well-formed schemas, '
            'the parsed model compared field by field', _SEARCH),
    'C02': ('property-based testing (Hypothesis): faults injected into '
            'well-formed schemas at known places', _SEARCH),
    'C03': ('fuzzing of schema files (Hypothesis): structural edits, mutated '
            'bytes; totality of the reader and of the generators', _SEARCH),
    'C04': ('property-based testing (Hypothesis): names drawn to clash, an '
            'independent catalogue of the clashes as oracle', _SEARCH),
    'C05': ('stateful property-based testing (Hypothesis): histories of runs '
            'against a model of the files; differential runs in processes of '
            'different hash seeds and environments', _SEARCH),
    'C06': ('property-based testing (Hypothesis): generated schemas, '
            'compile-import-introspect oracle', _SEARCH),
    'C07': ('property-based testing (Hypothesis): generated schemas and valid '
            'documents against a reference parser', _SEARCH + _MODEL),
    'C08': ('property-based testing (Hypothesis): fault injection into valid '
            'documents against a reference parser', _SEARCH + _MODEL),
    'C09': ('property-based testing (Hypothesis): round trips and a reference '
            'serializer', _SEARCH + _MODEL),
    'C10': ('property-based fuzzing (Hypothesis): arbitrary JSON values, '
            'totality and metamorphic cap oracle', _SEARCH),
    'C11': ('randomized generation of schemas, compiled in batches with the Go '
            'tool chain, failures reduced by delta debugging', _SEARCH),
    'C12': ('randomized generation of schemas and valid documents, the compiled '
            'Go code against a reference parser', _SEARCH + _MODEL),
    'C13': ('fault injection and fuzzing with JSON values, the compiled Go code '
            'against a reference parser', _SEARCH + _MODEL),
    'C14': ('randomized round trips of the compiled Go code and a reference '
            'serializer', _SEARCH + _MODEL),
    'C15': ('randomized generation of schemas, compiled with clang++ and g++, '
            'failures reduced by delta debugging', _SEARCH),
    'C16': ('randomized generation of schemas and valid documents, the compiled '
            'C++ code against a reference parser', _SEARCH + _MODEL + _SHIM),
    'C17': ('fault injection and fuzzing with JSON values, the compiled C++ code '
            'against a reference parser (thorough: with sanitizers)',
            _SEARCH + _MODEL + _SHIM),
    'C18': ('randomized round trips of the compiled C++ code and a reference '
            'serializer', _SEARCH + _MODEL + _SHIM),
    'C19': ('differential testing of the generated Python, Go and C++ code of one '
            'schema; serialized documents are exchanged', _SEARCH + _SHIM),
    'C20': ('grammar-based generation and mutation of duration texts in all three '
            'languages against exact rational arithmetic; round trips',
            _SEARCH + _MODEL + _SHIM),
    'C21': ('generated formats and texts (canonical, out of range, mutated) in all '
            'three languages against an interpreter of the directives',
            _SEARCH + _MODEL + _SHIM),
    'C22': ('metamorphic property-based testing (Hypothesis): schemas with other '
            'descriptions and indentions give the same code', _SEARCH),
    'C26': ('randomized generation of schemas, the generated code judged by mypy '
            '--strict, failures reduced by delta debugging',
            _SEARCH + 'Trusts mypy. '),
    'C25': ('property-based testing (Hypothesis): generated invocations of the '
            'command line against a model of the files', _SEARCH),
    'C24': ('stateful property-based testing (Hypothesis and randomized batches): '
            'histories of calls, calls in threads, identity of mutable parts',
            _SEARCH + _SHIM),
    'C23': ('metamorphic property-based testing (Hypothesis and randomized '
            'batches): histories of compatible extensions, unknown keys and '
            'removals; the contents read with two versions are related', _SEARCH),
}
