From 9793fce603062c3be970cc4d89735091070402aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 01/47] fix: serialize Python properties with upper-case names
 from their attributes

---
 mapry/py/generate/tojsonable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index 0ecf5fc..bf87884 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -566,7 +566,8 @@ def _serialize_class_or_embed(
     property_serializations = [
         _serialize_property(
             target_expr="target[{}]".format(repr(prop.json)),
-            value_expr="instance.{}".format(prop.name),
+            value_expr="instance.{}".format(
+                mapry.py.naming.as_attribute(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             py=py)
-- 
2.43.0


From 6cbfb4ec7274edb9bc7fb6337a11481000f2eece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 02/47] fix: quote regular expressions and escape braces in the
 generated Python code

---
 mapry/py/generate/__init__.py     | 36 +++++++++++++++++++++++++++++++
 mapry/py/generate/fromjsonable.py | 16 +++++++-------
 mapry/py/jinja2_env.py            |  2 ++
 3 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index 406bfea..7a9a8cf 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -144,6 +144,42 @@ def docstring(text: str) -> str:
     return ''.join(parts)
 
 
+def regex_literal(pattern: str) -> str:
+    """
+    Translate the regular expression into a single-line Python string literal.
+
+    Raw string literals are preferred, but they can not represent
+    all the regular expressions (*e.g.*, the ones containing a single quote).
+
+    :param pattern: regular expression
+    :return: Python string literal
+
+    >>> print(regex_literal(pattern='^[a-z]$'))
+    r'^[a-z]$'
+
+    >>> print(regex_literal(pattern="^it's$"))
+    "^it's$"
+
+    """
+    # Every back slash consumes the following character in a raw literal.
+    rest = pattern.replace('\\\\', '')
+    if "'" in pattern or not pattern.isprintable() or rest.endswith('\\'):
+        return repr(pattern)
+
+    return "r'{}'".format(pattern)
+
+
+def escape_format(text: str) -> str:
+    """
+    Escape the text so that ``str.format`` reproduces it verbatim.
+
+    >>> escape_format(text='^a{2}$')
+    '^a{{2}}$'
+
+    """
+    return text.replace('{', '{{').replace('}', '}}')
+
+
 def order_by_optional(properties: Mapping[str, mapry.Property]
                       ) -> List[mapry.Property]:
     """
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 25a0b1c..b0127a1 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -466,13 +466,13 @@ else:
     {{ target_expr }} = {{ value }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|as_regex }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_format)|repr }}.format(
                 {{ value }}))
     else:
         {{ target_expr }} = {{ value }}
@@ -540,13 +540,13 @@ else:
     {{ set_target|indent }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|as_regex }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escape_format)|repr }}.format(
                 {{ value }}))
     else:
         {{ set_target|indent|indent }}
@@ -611,7 +611,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_format)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -669,7 +669,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_format)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -728,7 +728,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escape_format)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -1645,7 +1645,7 @@ parses {{ graph.name|as_composite }} from a JSONable value.
             for id in registry_value:
                 {% if cls.id_pattern %}
                 if not re.match(
-                        r'{{ cls.id_pattern.pattern }}',
+                        {{ cls.id_pattern.pattern|as_regex }},
                         id):
                     errors.add(
                         '/'.join((
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 89f6f06..40c9feb 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -21,6 +21,8 @@ ENV.filters.update({
     'comment': mapry.py.generate.comment,
     'as_docstring': mapry.py.generate.docstring,
     'repr': repr,
+    'as_regex': mapry.py.generate.regex_literal,
+    'escape_format': mapry.py.generate.escape_format,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
     '_raise': _raise
-- 
2.43.0


From fd1f9a574d7a2a2fe8252a82a64b07ba5e1d3394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 03/47] fix: keep fractional bounds of floats

---
 mapry/parse.py                    | 31 ++++++++++++++++++++++++++++---
 mapry/py/generate/fromjsonable.py |  4 ++--
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 4990f94..22a48fc 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -5,7 +5,7 @@ import json
 import pathlib
 import re
 from typing import (  # pylint: disable=unused-import
-    Any, Mapping, MutableMapping, Optional)
+    Any, Mapping, MutableMapping, Optional, Union)
 
 import mapry
 import mapry.naming
@@ -103,6 +103,29 @@ def _embed_from_mapping(mapping: Mapping[str, Any], ref: str) -> mapry.Embed:
         name=mapping['name'], description=mapping['description'], ref=ref)
 
 
+def _float_bound(value: Union[int, float]) -> Union[int, float]:
+    """
+    Parse the bound of a float.
+
+    Whole numbers are represented as integers as long as they can be exactly
+    represented in both types.
+
+    :param value: bound as defined in the mapry schema
+    :return: bound of the same numeric value
+
+    >>> _float_bound(100.0)
+    100
+
+    >>> _float_bound(0.5)
+    0.5
+
+    """
+    if abs(value) < 2**53 and value == int(value):
+        return int(value)
+
+    return float(value)
+
+
 def _recurse_type_from_mapping(
         mapping: Mapping[str, Any], classes: Mapping[str, mapry.Class],
         embeds: Mapping[str, mapry.Embed]) -> mapry.Type:
@@ -132,10 +155,12 @@ def _recurse_type_from_mapping(
 
     if type_identifier == 'float':
         return mapry.Float(
-            minimum=int(mapping['minimum']) if 'minimum' in mapping else None,
+            minimum=_float_bound(mapping['minimum'])
+            if 'minimum' in mapping else None,
             exclusive_minimum=bool(mapping['exclusive_minimum'])
             if 'exclusive_minimum' in mapping else False,
-            maximum=int(mapping['maximum']) if 'maximum' in mapping else None,
+            maximum=_float_bound(mapping['maximum'])
+            if 'maximum' in mapping else None,
             exclusive_maximum=bool(mapping['exclusive_maximum'])
             if 'exclusive_maximum' in mapping else False)
 
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index b0127a1..90e73ee 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -396,7 +396,7 @@ else:
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
-            {{ "Expected %s %d, but got: {}"|
+            {{ "Expected %s %s, but got: {}"|
                 format(op, a_type.minimum)|repr }}.format(
                 {{ value }}))
     {% set got_cond_before = True %}
@@ -408,7 +408,7 @@ else:
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
-            {{ "Expected %s %d, but got: {}"|
+            {{ "Expected %s %s, but got: {}"|
                 format(op, a_type.maximum)|repr }}.format(
                 {{ value }}))
     {% set got_cond_before = True %}
-- 
2.43.0


From fc2420fa0d5146a075b03a670d8483751b526d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 04/47] fix: keep the prefix of the identifier in irregular
 plurals

---
 mapry/naming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index cca62be..7f0f5a4 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -75,7 +75,7 @@ def plural(identifier: str) -> str:
     last_part = parts[-1]
 
     if last_part in PLURAL_TABLE:
-        return PLURAL_TABLE[last_part]
+        return '_'.join(parts[:-1] + [PLURAL_TABLE[last_part]])
 
     if (last_part.endswith('ay') or last_part.endswith('ey')
             or last_part.endswith('iy') or last_part.endswith('oy')
-- 
2.43.0


From c3083cb2f79cff470282e4ce229ac8e8bed27cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 05/47] fix: check the names of composites against the name of
 the graph

---
 mapry/cpp/validation.py | 2 +-
 mapry/go/validation.py  | 2 +-
 mapry/py/validation.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 191e56e..7c127a6 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -214,7 +214,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.cpp.naming.as_composite(identifier=cls.name)
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index a3d2be3..a610cee 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -330,7 +330,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.naming.ucamel_case(identifier=cls.name)
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 66e215a..be80322 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -203,7 +203,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.py.naming.as_composite(identifier=cls.name)
-- 
2.43.0


From a17d0a185601526f187ca2c925a3318a6fa5dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 06/47] fix: refuse the type names reserved in Go

---
 mapry/go/validation.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index a610cee..370e1f7 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -201,31 +201,34 @@ def _validate_graph_fields(graph: mapry.Graph
     for cls in graph.classes.values():
         cls_name = mapry.naming.ucamel_case(cls.name)
         if cls_name in reserved_type_names:
-            mapry.validation.SchemaError(
-                message=(
-                    "The Go struct identifier {!r} "
-                    "conflicts with the name reserved for mapry."
-                ).format(cls_name),
-                ref=cls.ref)
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(cls_name),
+                    ref=cls.ref))
 
     for embed in graph.embeds.values():
         embed_name = mapry.naming.ucamel_case(embed.name)
         if embed_name in reserved_type_names:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(embed_name),
+                    ref=embed.ref))
+
+    graph_name = mapry.naming.ucamel_case(graph.name)
+    if graph_name in reserved_type_names:
+        errs.append(
             mapry.validation.SchemaError(
                 message=(
                     "The Go struct identifier {!r} "
                     "conflicts with the name reserved for mapry."
-                ).format(embed_name),
-                ref=embed.ref)
-
-    graph_name = mapry.naming.ucamel_case(graph.name)
-    if graph_name in reserved_type_names:
-        mapry.validation.SchemaError(
-            message=(
-                "The Go struct identifier {!r} "
-                "conflicts with the name reserved for mapry."
-            ).format(graph_name),
-            ref=graph.ref)
+                ).format(graph_name),
+                ref=graph.ref))
 
     return errs
 
-- 
2.43.0


From 3b8f48c2ece8ce1ec12b90fcf89c0540a171dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 07/47] fix: match names and indentions in the schema as a
 whole

The names of graphs, embeddable structures and Go packages were matched only
by their prefix, and '$' ignored a trailing new line, so that names which are
no identifiers ended up in the generated code.  An empty indention of Python
code could not be generated either.
---
 mapry/schemas.py    | 18 +++++++++---------
 mapry/validation.py |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index 1807539..4f2805c 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -10,7 +10,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the object graph.",
-                    "pattern": "^[A-Z][A-Za-z0-9]*"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "description": {
                     "type": "string",
@@ -63,7 +63,7 @@ GRAPH = {
                     "description":
                     "indicates the namespace of the generated code.",
                     "pattern":
-                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*\\Z"
                 },
                 "path_as": {
                     "type": "string",
@@ -97,7 +97,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code."
                     "Defaults to two spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*\\Z"
                 }
             },
             "required":
@@ -112,7 +112,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "indicates the package of the generated code.",
-                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*"
+                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*\\Z"
                 }
             },
             "required": ["package"],
@@ -129,7 +129,7 @@ GRAPH = {
                     "specifies the fully qualified base module name "
                     "of the generated code.",
                     "pattern":
-                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*\Z"
                 },
                 "path_as": {
                     "type": "string",
@@ -148,7 +148,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code. "
                     "Defaults to four spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]+\\Z"
                 }
             },
             "required": ['module_name', 'path_as', 'timezone_as'],
@@ -162,7 +162,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the class in Snake_case.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "description": {
                     "type": "string",
@@ -175,7 +175,7 @@ GRAPH = {
                     "description":
                     "gives the plural of the class in Snake_case. "
                     "If omitted, automatically inferred.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "id_pattern": {
                     "type":
@@ -203,7 +203,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "gives the name of the embeddable data structure.",
-                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "description": {
                     "description": "describes the embeddable data structure "
diff --git a/mapry/validation.py b/mapry/validation.py
index 6b3c491..57b6f6e 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -101,7 +101,7 @@ def _validate_class(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
     return errs
 
 
-_PROPERTY_RE = re.compile(r'^[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$')
+_PROPERTY_RE = re.compile(r'^[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\Z')
 _NONCOMPOSITE_TYPE_SET = {
     'boolean', 'integer', 'float', 'string', 'path', 'date', 'time', 'datetime',
     'duration', 'time_zone', 'array', 'map'
-- 
2.43.0


From 2f92e518242c929b891bf01662ec1a00bbc935af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 08/47] fix: translate identifiers with consecutive underscores
 to camel case

---
 mapry/naming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index 7f0f5a4..994716e 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -140,7 +140,7 @@ def camel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0].lower())
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
 
@@ -176,6 +176,6 @@ def ucamel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0][0].upper() + parts[0][1:])
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
-- 
2.43.0


From a6eaeacfc74933172ba36ed77167a5c0b009b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 09/47] fix: refuse the object graph as a type of a property

---
 mapry/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index 57b6f6e..dbe7cb9 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -667,6 +667,9 @@ def validate(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
     types = _NONCOMPOSITE_TYPE_SET.copy()
     types.update(name_set)
 
+    # The object graph can not be used as a type.
+    types.discard(mapping['name'])
+
     # Check that the graph properties are valid
     errors.extend(_validate_properties(mapping=mapping, ref=ref, types=types))
 
-- 
2.43.0


From 24345f06afa0b326834b95d7c420876433111992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 10/47] fix: report missing and invalid types of nested values

---
 mapry/validation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index dbe7cb9..c93a9f5 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -419,7 +419,11 @@ def _validate_type_recursively(
                         "in the definition, but got {}").format(keys[1]),
                     ref='{}/description'.format(ref))
 
-    if mapping['type'] not in types:
+    if 'type' not in mapping:
+        return SchemaError(
+            message="'type' is a required property", ref='{}/type'.format(ref))
+
+    if not isinstance(mapping['type'], str) or mapping['type'] not in types:
         return SchemaError(
             message="Invalid type: {}".format(mapping['type']),
             ref='{}/type'.format(ref))
-- 
2.43.0


From 66939e265c0dbf0598955e76bfcea3fee641c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 11/47] fix: refuse bounds of floats which are not finite

---
 mapry/validation.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index c93a9f5..ba8ca0a 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -2,6 +2,7 @@
 """Validate the mapry schema."""
 
 import collections
+import math
 import re
 from typing import Any, Dict, List, Mapping, Optional, Set, Tuple
 
@@ -186,6 +187,19 @@ def _validate_integer(mapping: Mapping[str, Any],
     return None
 
 
+def _is_finite_float(value: Any) -> bool:
+    """
+    Check that the bound can be represented as a finite float.
+
+    :param value: bound as defined in the mapry schema
+    :return: True if the bound can be represented
+    """
+    try:
+        return math.isfinite(value)
+    except OverflowError:
+        return False
+
+
 def _validate_float(mapping: Mapping[str, Any],
                     ref: str) -> Optional[SchemaError]:
     """
@@ -195,6 +209,13 @@ def _validate_float(mapping: Mapping[str, Any],
     :param ref: reference to the type definition
     :return: error, if any
     """
+    for key in ['minimum', 'maximum']:
+        if key in mapping and not _is_finite_float(value=mapping[key]):
+            return SchemaError(
+                message="Expected a finite {}, but got {}".format(
+                    key, mapping[key]),
+                ref='{}/{}'.format(ref, key))
+
     if 'minimum' in mapping and 'maximum' in mapping:
         minimum = mapping['minimum']
         maximum = mapping['maximum']
-- 
2.43.0


From 43c694a21ead2628b4ac560ae09d81dd8ff084e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:31 +0000
Subject: [PATCH 12/47] fix: refuse empty formats of date-times

---
 mapry/validation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index ba8ca0a..7a9f3ed 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -350,11 +350,16 @@ def _validate_datetime(mapping: Mapping[str, Any],
     :return: error, if any
     """
     if 'format' in mapping:
+        token_lines = None  # type: Optional[List[List[lexery.Token]]]
         try:
-            _ = mapry.strftime.tokenize(format=mapping['format'])
+            token_lines = mapry.strftime.tokenize(format=mapping['format'])
         except (lexery.Error, NotImplementedError) as err:
             return SchemaError(str(err), ref='{}/format'.format(ref))
 
+        if sum((len(token_line) for token_line in token_lines)) == 0:
+            return SchemaError(
+                "Unexpected empty format", ref='{}/format'.format(ref))
+
     return None
 
 
-- 
2.43.0


From 28349b2bde31e8cebfaf7db0fc6afc0b16bdc179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 13/47] fix: report all the schema files which can not be
 decoded

---
 mapry/parse.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 22a48fc..8304ccf 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -410,12 +410,18 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
 
         try:
             obj = json.load(fp=fid, object_pairs_hook=_OrderedDictPP)
-            return schema_from_mapping(mapping=obj, ref='{}#'.format(str(path)))
         except json.JSONDecodeError as err:
             jsonerr = err
+        except (ValueError, RecursionError) as err:
+            # The text is not properly encoded, numbers are too long or
+            # the values are nested too deep.
+            raise RuntimeError("Failed to json-decode {}: {}".format(path, err))
 
-        if jsonerr is not None:
-            lines = path.read_text().splitlines()
+        if jsonerr is None:
+            return schema_from_mapping(mapping=obj, ref='{}#'.format(str(path)))
+        else:
+            # Split as the lines are counted by the JSON decoder
+            lines = path.read_text().split('\n')
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
@@ -434,5 +440,3 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
             else:
                 raise RuntimeError(
                     "Failed to json-decode {}: {}".format(path, jsonerr))
-
-        raise AssertionError("Expected an exception to be raised before.")
-- 
2.43.0


From 48f47f38643639b5237a7ce9dd9421a8c57d165c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 14/47] fix: report schema files with lone surrogates

---
 mapry/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mapry/parse.py b/mapry/parse.py
index 8304ccf..6d131fc 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -410,6 +410,9 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
 
         try:
             obj = json.load(fp=fid, object_pairs_hook=_OrderedDictPP)
+
+            # Escaped lone surrogates can not be written to generated files.
+            json.dumps(obj, ensure_ascii=False).encode()
         except json.JSONDecodeError as err:
             jsonerr = err
         except (ValueError, RecursionError) as err:
-- 
2.43.0


From 4f03dfd0e7d6f6b528413fd25da2c1aa0d343d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:53 +0000
Subject: [PATCH 15/47] fix: escape control characters in Go and C++ string
 literals

'\e' is no escape sequence in Go and control characters such as NUL were
written verbatim.
---
 mapry/cpp/generate/__init__.py | 8 ++++++--
 mapry/go/generate/__init__.py  | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 7e37be1..0ce4899 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -142,10 +142,14 @@ def escaped_str(text: str) -> str:
         ('\n', '\\n'),
         ('\v', '\\v'),
         ('\f', '\\f'),
-        ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\r', '\\r')])
     # yapf: enable
 
+    # There is no standard short escape sequence for the remaining control
+    # characters.
+    for i in list(range(0x20)) + [0x7f]:
+        mapping.setdefault(chr(i), '\\{:03o}'.format(i))
+
     result = text
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 0e31ec4..ea200a2 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -114,9 +114,14 @@ def escaped_str(text: str) -> str:
         ('\v', '\\v'),
         ('\f', '\\f'),
         ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\ufeff', '\\ufeff')])
     # yapf: enable
 
+    # Go source code must not contain NULs and there is no short escape
+    # sequence for the remaining control characters.
+    for i in list(range(0x20)) + [0x7f]:
+        mapping.setdefault(chr(i), '\\x{:02x}'.format(i))
+
     result = text
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
-- 
2.43.0


From 602567a9a72306a4c07ea33a04ac71738db5e346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 16/47] fix: escape percent signs and special characters of
 patterns in Go

---
 mapry/go/generate/__init__.py     | 5 +++++
 mapry/go/generate/fromjsonable.py | 9 ++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index ea200a2..740dc79 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -148,6 +148,11 @@ def ticked_str(text: str) -> str:
         `me`
 
     """
+    if any(char in text for char in ['\0', '\r', '\ufeff']):
+        # These characters are either not allowed or ignored in the raw string
+        # literals.
+        return escaped_str(text=text)
+
     tick_parts = text.split('`')
     parts = []  # type: List[str]
 
diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index ba4181c..bbfeb73 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -692,7 +692,8 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected to match %s, but got: %%s"|
-                    format(a_type.pattern.pattern)|escaped_str }},
+                    format(a_type.pattern.pattern|replace('%', '%%'))|
+                        escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = cast{{ uid }}
@@ -761,7 +762,8 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected layout %s, got: %%s"|
-                    format(converted_format)|escaped_str }},
+                    format(converted_format|replace('%', '%%'))|
+                        escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = target{{ uid }}
@@ -1688,7 +1690,8 @@ func {{ graph.name|ucamel_case }}FromJSONable(
                         {{ cls.plural|camel_case }}Ref,
                         fmt.Sprintf(
                             {{ "expected ID to match %s, but got: %%s"|
-                                format(cls.id_pattern.pattern)|escaped_str }},
+                                format(cls.id_pattern.pattern|replace(
+                                    '%', '%%'))|escaped_str }},
                             id))
                 } else {
                     {{ preallocate_instance|
-- 
2.43.0


From f371df135df5aa7abe6920867ab5f40bffd87e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 17/47] fix: convert weekdays and line breaks of date/time
 formats to Go

Go's reference time is a Monday, so 'Sun' and 'Sunday' were written and
expected literally.  Line breaks were lost.
---
 mapry/go/timeformat.py | 31 +++++--------------------------
 mapry/go/validation.py |  4 ++--
 2 files changed, 7 insertions(+), 28 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index fd5bf85..2a52952 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -1,15 +1,11 @@
 #!/usr/bin/env python3
 """Convert date/time format from strftime directives to Go."""
-from typing import List  # pylint: disable=unused-import
-
-from icontract import ensure
-
-import mapry.strftime
+import re
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
 _STRFTIME_TO_GO = {
-    '%a': 'Sun',
-    '%A': 'Sunday',
+    '%a': 'Mon',
+    '%A': 'Monday',
     '%b': 'Jan',
     '%B': 'January',
     '%d': '02',
@@ -30,7 +26,6 @@ _STRFTIME_TO_GO = {
 }
 
 
-@ensure(lambda result: not result.endswith('\n'))
 def convert(a_format: str) -> str:
     r"""
     Convert the strftime/strptime directives to Go directives.
@@ -45,21 +40,5 @@ def convert(a_format: str) -> str:
     '2006-01-02\\n15:04:05Z'
 
     """
-    tkn_lines = mapry.strftime.tokenize(format=a_format)
-
-    parts = []  # type: List[str]
-
-    for i, tkn_line in enumerate(tkn_lines):
-        if i > 0:
-            parts.append('\n')
-
-        for tkn in tkn_line:
-            if tkn.identifier == 'directive':
-                assert tkn.content in _STRFTIME_TO_GO, \
-                    "Unhandled strftime->go mapping for: {}".format(tkn.content)
-
-                parts.append(_STRFTIME_TO_GO[tkn.content])
-            elif tkn.identifier == 'text':
-                parts.append(tkn.content)
-
-    return ''.join(parts)
+    return re.sub(
+        r'%[a-zA-Z%]', lambda mtch: _STRFTIME_TO_GO[mtch.group()], a_format)
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 370e1f7..ebe313e 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -235,8 +235,8 @@ def _validate_graph_fields(graph: mapry.Graph
 
 # yapf: disable
 _GO_TIME_FORMAT_DIRECTIVES = [
-    'Sunday',
-    'Sun',
+    'Monday',
+    'Mon',
     'January',
     'Jan',
     '02',
-- 
2.43.0


From ec6e7b1df63896c27cd02a799dd56fff9c419e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 18/47] fix: refuse date/time formats which Go would read
 differently

Literal texts were searched only for some of the Go directives and only
within a single text.
---
 mapry/go/timeformat.py | 54 ++++++++++++++++++++++++++++
 mapry/go/validation.py | 81 ++++++++++++------------------------------
 2 files changed, 76 insertions(+), 59 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index 2a52952..7b6d651 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -1,6 +1,9 @@
 #!/usr/bin/env python3
 """Convert date/time format from strftime directives to Go."""
+import collections
 import re
+from typing import (  # pylint: disable=unused-import
+    MutableMapping, Optional, Tuple)
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
 _STRFTIME_TO_GO = {
@@ -42,3 +45,54 @@ def convert(a_format: str) -> str:
     """
     return re.sub(
         r'%[a-zA-Z%]', lambda mtch: _STRFTIME_TO_GO[mtch.group()], a_format)
+
+
+# Directives of Go time formats in the order in which Go matches them
+_GO_DIRECTIVE_RE = re.compile(
+    r'January|Jan(?![a-z])|Monday|Mon(?![a-z])|MST|'
+    r'0[1-6]|002|15|1|2006|2|_2(?!006)|__2|3|4|5|PM|pm|'
+    r'-070000|-07:00:00|-0700|-07:00|-07|'
+    r'Z070000|Z07:00:00|Z0700|Z07:00|Z07|'
+    r'[.,](?:0+|9+)(?![0-9])')
+
+
+def find_conflict(a_format: str) -> Optional[str]:
+    """
+    Find a Go directive which Go would read differently than strftime.
+
+    :param a_format: strftime/strptime directives
+    :return: conflicting Go directive, if any
+
+    >>> find_conflict(a_format='%Y-%m-%d')
+
+    >>> find_conflict(a_format='Monday %d')
+    'Monday'
+
+    >>> find_conflict(a_format='0%d')
+    '002'
+
+    """
+    expected = collections.OrderedDict(
+    )  # type: MutableMapping[Tuple[int, int], str]
+    layout = ''
+    for mtch in re.finditer(r'%[a-zA-Z%]|[^%]+', a_format):
+        part = convert(mtch.group())
+        if mtch.group().startswith('%') and mtch.group() != '%%':
+            expected[(len(layout), len(layout) + len(part))] = part
+        layout += part
+
+    found = set()
+    for mtch in _GO_DIRECTIVE_RE.finditer(layout):
+        if mtch.span() not in expected:
+            return mtch.group()
+
+        found.add(mtch.span())
+
+    for (start, end), part in expected.items():
+        # Abbreviations are not directives if followed by a lower-case letter
+        # and Go reads digits after a point as a fraction of the seconds.
+        if (start, end) not in found or (part == '05' and re.match(
+                r'[.,][0-9_]', layout[end:])):
+            return part
+
+    return None
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index ebe313e..e30823e 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -3,8 +3,8 @@ from typing import (  # pylint: disable=unused-import
     Dict, List, Mapping, MutableMapping)
 
 import mapry
+import mapry.go.timeformat
 import mapry.naming
-import mapry.strftime
 import mapry.validation
 
 _KEYWORDS = {
@@ -233,32 +233,6 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
-# yapf: disable
-_GO_TIME_FORMAT_DIRECTIVES = [
-    'Monday',
-    'Mon',
-    'January',
-    'Jan',
-    '02',
-    '_2',
-    '01',
-    '2006',
-    '06',
-    '15',
-    '03',
-    '3',
-    '04',
-    'pm',
-    'PM',
-    '05',
-    '-0700',
-    'MST'
-]
-
-
-# yapf: enable
-
-
 def _validate_date_time_formats(graph: mapry.Graph
                                 ) -> List[mapry.validation.SchemaError]:
     """
@@ -277,38 +251,27 @@ def _validate_date_time_formats(graph: mapry.Graph
     # yapf: enable
 
     for a_type, ref in date_time_types:
-        tkn_lines = mapry.strftime.tokenize(format=a_type.format)
-
-        # yapf: disable
-        text_tkns = [
-            tkn
-            for tkn_line in tkn_lines
-            for tkn in tkn_line
-            if tkn.identifier == 'text'
-        ]
-        # yapf: enable
-
-        for tkn in text_tkns:
-            for directive in _GO_TIME_FORMAT_DIRECTIVES:
-                if directive in tkn.content:
-                    if isinstance(a_type, mapry.Date):
-                        type_str = 'Date'
-                    elif isinstance(a_type, mapry.Datetime):
-                        type_str = 'Date/time'
-                    elif isinstance(a_type, mapry.Time):
-                        type_str = 'Time'
-                    else:
-                        raise NotImplementedError(
-                            "Unhandled mapry type: {}".format(type(a_type)))
-
-                    errs.append(
-                        mapry.validation.SchemaError(
-                            message=(
-                                '{} format contains a conflicting '
-                                'Go time.Format directive {}: {}').format(
-                                    type_str, directive, a_type.format),
-                            ref=ref))
-                    break
+        directive = mapry.go.timeformat.find_conflict(a_format=a_type.format)
+
+        if directive is not None:
+            if isinstance(a_type, mapry.Date):
+                type_str = 'Date'
+            elif isinstance(a_type, mapry.Datetime):
+                type_str = 'Date/time'
+            elif isinstance(a_type, mapry.Time):
+                type_str = 'Time'
+            else:
+                raise NotImplementedError(
+                    "Unhandled mapry type: {}".format(type(a_type)))
+
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        '{} format contains a conflicting '
+                        'Go time.Format directive {}: {}').format(
+                            type_str, directive, a_type.format),
+                    ref=ref))
+
     return errs
 
 
-- 
2.43.0


From d7ecf273f7a9300e0901f4a4f39a0698974dd2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 19/47] fix: refuse async and await as identifiers in Python

---
 mapry/py/validation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index be80322..f923106 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -7,8 +7,8 @@ import mapry.py.naming
 import mapry.validation
 
 _KEYWORDS = {
-    'False', 'None', 'True', 'and', 'as', 'assert', 'break', 'class',
-    'continue', 'def', 'del', 'elif', 'else', 'except', 'finally', 'for',
+    'False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await', 'break',
+    'class', 'continue', 'def', 'del', 'elif', 'else', 'except', 'finally', 'for',
     'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal', 'not',
     'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
 }
-- 
2.43.0


From 8e451bc66e7095207a2544de827a65385e2c638c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 20/47] fix: refuse attributes which conflict with the
 generated Python code

A property called 'self' duplicated the argument of the constructor, and
'collections' hid the module which the constructor of the graph uses.
---
 mapry/py/validation.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index f923106..214375c 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -70,6 +70,15 @@ def _validate_attributes(attributes: List[_Attribute]
                         "is reserved in Python").format(attribute.name),
                     ref=attribute.ref))
 
+        if attribute.name == 'self':
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python attribute identifier {!r} "
+                        "is used by the autogenerated code").format(
+                            attribute.name),
+                    ref=attribute.ref))
+
         if attribute.name in name_to_attributes:
             errs.append(
                 mapry.validation.SchemaError(
@@ -134,11 +143,32 @@ def _validate_graph_attributes(graph: mapry.Graph
     }
     # yapf: enable
 
+    # The constructor of the object graph uses the module ``collections``
+    # to initialize the registries.
+    if graph.classes and 'collections' in property_attribute_map:
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    "The Python attribute identifier 'collections' "
+                    "is used by the autogenerated code"),
+                ref=property_attribute_map['collections'].ref))
+
     registry_attribute_map = dict()  # type: MutableMapping[str, mapry.Class]
 
     for cls in graph.classes.values():
         plural_attribute = mapry.py.naming.as_attribute(identifier=cls.plural)
 
+        if plural_attribute in ['self', 'collections']:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python attribute identifier {!r} "
+                        "corresponding to the registry of the class {!r} "
+                        "in the object graph "
+                        "is used by the autogenerated code").format(
+                            plural_attribute, cls.name),
+                    ref=cls.ref))
+
         if plural_attribute in _KEYWORDS:
             errs.append(
                 mapry.validation.SchemaError(
-- 
2.43.0


From ed0b1cf156aeeefe3e853e6df0a4e441411a4c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 21/47] fix: refuse composites and modules which conflict in
 Python

Functions of composites which differ only in case overwrote each other, and
modules named as keywords or local variables could not be used.
---
 mapry/py/validation.py | 81 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 214375c..898b77d 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -211,6 +211,79 @@ def _validate_graph_attributes(graph: mapry.Graph
     return errs
 
 
+def _validate_variables(graph: mapry.Graph
+                        ) -> List[mapry.validation.SchemaError]:
+    """
+    Check that the variables and functions of the composites are different.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+
+    variable_to_composite = dict()  # type: Dict[str, mapry.Composite]
+    for composite in composites:
+        variable = mapry.py.naming.as_variable(identifier=composite.name)
+        conflict = variable_to_composite.setdefault(variable, composite)
+
+        # Identical composite identifiers are reported separately.
+        if (mapry.py.naming.as_composite(identifier=conflict.name) !=
+                mapry.py.naming.as_composite(identifier=composite.name)):
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The composites {!r} and {!r} ({}) "
+                        "have conflicting Python variables: {!r}").format(
+                            composite.name, conflict.name, conflict.ref,
+                            variable),
+                    ref=composite.ref))
+
+    return errs
+
+
+# Python identifiers used in the generated code which would hide the module
+_RESERVED_MODULES = {
+    'Error', 'Errors', 'collections', 'datetime', 'errors', 'graph', 'id',
+    'instance_value', 'pathlib', 'pytz', 're', 'ref', 'registry_value',
+    'target', 'typing', 'value'
+}
+
+
+def _validate_module_name(module_name: str,
+                          ref: str) -> List[mapry.validation.SchemaError]:
+    """
+    Check that the module can be imported in the generated code.
+
+    :param module_name: fully qualified name of the base module
+    :param ref: reference to the module name in the mapry schema
+    :return: list of errors, or an empty list if no errors
+    """
+    parts = module_name.split('.')
+
+    for part in parts:
+        if part in _KEYWORDS:
+            return [
+                mapry.validation.SchemaError(
+                    message="The part {!r} of the module name {!r} "
+                    "is reserved in Python".format(part, module_name),
+                    ref=ref)
+            ]
+
+    if parts[0] in _RESERVED_MODULES:
+        return [
+            mapry.validation.SchemaError(
+                message="The module {!r} would be hidden by the identifiers "
+                "used in the autogenerated code".format(parts[0]),
+                ref=ref)
+        ]
+
+    return []
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -299,4 +372,12 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # (including the class registries)
     errs.extend(_validate_graph_attributes(graph=schema.graph))
 
+    errs.extend(_validate_variables(graph=schema.graph))
+
+    if schema.py is not None:
+        errs.extend(
+            _validate_module_name(
+                module_name=schema.py.module_name,
+                ref='{}/py/module_name'.format(schema.graph.ref)))
+
     return errs
-- 
2.43.0


From 867f87eff3223458e092a6aec76bc9d4bd258660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 22/47] fix: refuse Error, NewErrors and keywords as package
 names in Go

---
 mapry/go/validation.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index e30823e..5d11389 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -182,7 +182,8 @@ def _validate_graph_fields(graph: mapry.Graph
             registry_field_map[plural_field] = cls
 
     reserved_type_names = {
-        'Errors', '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
+        'Error', 'Errors', 'NewErrors',
+        '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
         '{}ToJSONable'.format(mapry.naming.ucamel_case(graph.name))
     }
 
@@ -362,4 +363,11 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs.extend(_validate_date_time_formats(graph=schema.graph))
 
+    if schema.go is not None and schema.go.package in _KEYWORDS:
+        errs.append(
+            mapry.validation.SchemaError(
+                message="The package {!r} is a keyword in Go".format(
+                    schema.go.package),
+                ref='{}/go/package'.format(schema.graph.ref)))
+
     return errs
-- 
2.43.0


From a23d713e6fa38d54e9ee9091530f892ecaaa9c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 23/47] fix: use the fields for properties with upper-case
 names in C++

---
 mapry/cpp/generate/jsoncpp_impl.py | 6 ++++--
 mapry/cpp/generate/types_header.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 8735d89..8f29e8d 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2687,7 +2687,8 @@ def _serialize_class_or_embed(
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(class_or_embed.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(identifier=prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
@@ -2773,7 +2774,8 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(graph.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(identifier=prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 6ef087b..64d1285 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -6,6 +6,7 @@ from icontract import ensure
 import mapry
 import mapry.cpp.generate
 import mapry.cpp.jinja2_env
+import mapry.cpp.naming
 import mapry.indention
 
 
@@ -256,10 +257,11 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
             prop_type = mapry.cpp.generate.type_repr(a_type=prop.type, cpp=cpp)
             def_val = _default_value(a_type=prop.type, cpp=cpp)
 
+        field = mapry.cpp.naming.as_field(identifier=prop.name)
         if def_val is not None:
-            block.append("{} {} = {};".format(prop_type, prop.name, def_val))
+            block.append("{} {} = {};".format(prop_type, field, def_val))
         else:
-            block.append("{} {};".format(prop_type, prop.name))
+            block.append("{} {};".format(prop_type, field))
 
         blocks.append('\n'.join(block))
 
-- 
2.43.0


From eab25b71a55bd9e8d60f701bfbd3b19514e431a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 24/47] fix: define embedded structures before the embedding
 ones in C++

---
 mapry/cpp/generate/types_header.py | 32 +++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 64d1285..9c7e8f6 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -281,6 +281,36 @@ struct {{embed.name|as_composite}} {
 ''')
 
 
+def _order_embeds(graph: mapry.Graph) -> List[mapry.Embed]:
+    """
+    Order the embeddable structures so that their fields are complete types.
+
+    The order of the schema is kept unless a structure embeds a later one.
+
+    :param graph: definition of the object graph
+    :return: ordered embeddable structures
+    """
+    ordered = []  # type: List[mapry.Embed]
+    visited = set()  # type: Set[str]
+
+    def visit(embed: mapry.Embed) -> None:
+        """Append the structure after the structures that it embeds."""
+        if embed.name in visited:
+            return
+
+        visited.add(embed.name)
+        for prop in embed.properties.values():
+            if isinstance(prop.type, mapry.Embed):
+                visit(embed=prop.type)
+
+        ordered.append(embed)
+
+    for embed in graph.embeds.values():
+        visit(embed=embed)
+
+    return ordered
+
+
 @ensure(lambda result: not result.endswith('\n'))
 def _embed_definition(embed: mapry.Embed, cpp: mapry.Cpp) -> str:
     """
@@ -391,7 +421,7 @@ def generate(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
 
     blocks.append(_forward_declarations(graph=graph))
 
-    for embed in graph.embeds.values():
+    for embed in _order_embeds(graph=graph):
         blocks.append(_embed_definition(embed=embed, cpp=cpp))
 
     for cls in graph.classes.values():
-- 
2.43.0


From f4d5b4893fc872df9738e71a642c496d861ea5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 25/47] fix: refuse recursive embeddable structures in Go and
 C++

---
 mapry/cpp/validation.py | 35 ++++++++++++++++++++++++++++++++++-
 mapry/go/validation.py  | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 69 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 7c127a6..8f67097 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -1,6 +1,6 @@
 """Validate that the C++ code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Set)
 
 import mapry
 import mapry.cpp
@@ -193,6 +193,37 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
+def _validate_recursion(graph: mapry.Graph
+                        ) -> List[mapry.validation.SchemaError]:
+    """
+    Check that no embeddable structure has itself as a part of its value.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for embed in graph.embeds.values():
+        visited = set()  # type: Set[str]
+        stack = [embed]
+        while stack:
+            for prop in stack.pop().properties.values():
+                if (isinstance(prop.type, mapry.Embed)
+                        and prop.type.name not in visited):
+                    visited.add(prop.type.name)
+                    stack.append(prop.type)
+
+        if embed.name in visited:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The embeddable structure {!r} recursively "
+                        "contains itself").format(embed.name),
+                    ref=embed.ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -277,4 +308,6 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check the fields of the object graph (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
+    errs.extend(_validate_recursion(graph=schema.graph))
+
     return errs
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 5d11389..14b6fdc 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -1,6 +1,6 @@
 """Validate that the Go code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Set)
 
 import mapry
 import mapry.go.timeformat
@@ -276,6 +276,38 @@ def _validate_date_time_formats(graph: mapry.Graph
     return errs
 
 
+def _validate_recursion(graph: mapry.Graph
+                        ) -> List[mapry.validation.SchemaError]:
+    """
+    Check that no embeddable structure has itself as a part of its value.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for embed in graph.embeds.values():
+        visited = set()  # type: Set[str]
+        stack = [embed]
+        while stack:
+            for prop in stack.pop().properties.values():
+                if (isinstance(prop.type, mapry.Embed)
+                        and not prop.optional
+                        and prop.type.name not in visited):
+                    visited.add(prop.type.name)
+                    stack.append(prop.type)
+
+        if embed.name in visited:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The embeddable structure {!r} recursively "
+                        "contains itself").format(embed.name),
+                    ref=embed.ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Go code for the given mapry schema.
@@ -370,4 +402,6 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                     schema.go.package),
                 ref='{}/go/package'.format(schema.graph.ref)))
 
+    errs.extend(_validate_recursion(graph=schema.graph))
+
     return errs
-- 
2.43.0


From 53aedeb27f8c92f5dbfae0e62460535cb8e34095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 26/47] fix: parse optional dates and date-times with date.h in
 C++

---
 mapry/cpp/generate/jsoncpp_impl.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 8f29e8d..dfdb9b9 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -1877,14 +1877,18 @@ def _parse_property(
     ]
 
     # Special handling of the optional property
-    needs_emplace = isinstance(
-        a_property.type, (mapry.Array, mapry.Map, mapry.Embed))
+    is_parsed_in_place = isinstance(a_property.type, mapry.Embed) or (
+        cpp.datetime_library == 'date.h'
+        and isinstance(a_property.type, (mapry.Date, mapry.Datetime)))
+
+    needs_emplace = is_parsed_in_place or isinstance(
+        a_property.type, (mapry.Array, mapry.Map))
 
     parsing_target_expr = property_target_expr
     if a_property.optional:
         if isinstance(a_property.type, (mapry.Array, mapry.Map)):
             parsing_target_expr = "*{}".format(property_target_expr)
-        elif isinstance(a_property.type, mapry.Embed):
+        elif is_parsed_in_place:
             parsing_target_expr = "(*{})".format(property_target_expr)
 
     # yapf: disable
-- 
2.43.0


From 7eccafacc9e2c1f645c8513317495f3daa41e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 27/47] fix: escape line separators in Go and C++ string
 literals

---
 mapry/cpp/generate/__init__.py     | 30 ++++++++++++++++++++++++++++++
 mapry/cpp/generate/jsoncpp_impl.py |  9 +++++----
 mapry/cpp/jinja2_env.py            |  1 +
 mapry/go/generate/__init__.py      |  8 ++++++--
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 0ce4899..ee27ac1 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -150,8 +150,38 @@ def escaped_str(text: str) -> str:
     for i in list(range(0x20)) + [0x7f]:
         mapping.setdefault(chr(i), '\\{:03o}'.format(i))
 
+    # The remaining line boundaries would be re-indented.
+    for char in ['\x85', '\u2028', '\u2029']:
+        mapping[char] = ''.join(
+            '\\{:03o}'.format(byte) for byte in char.encode('utf-8'))
+
     result = text
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
 
     return '"{}"'.format(result)
+
+
+def regex_literal(pattern: str) -> str:
+    r"""
+    Convert the ``pattern`` into a C++ string literal.
+
+    Raw string literals are preferred, but they can not represent all
+    the patterns (*e.g.*, line breaks would be re-indented).
+
+    :param pattern: regular expression
+    :return: C++ string literal
+
+    >>> print(regex_literal(pattern='^[a-z]\.$'))
+    R"v0g0n(^[a-z]\.$)v0g0n"
+
+    >>> print(regex_literal(pattern='^a\n\\.$'))
+    "^a\n\\.$"
+
+    """
+    if ')v0g0n"' in pattern or any(ord(char) < 0x20 or
+                                   char in '\x7f\x85\u2028\u2029'
+                                   for char in pattern):
+        return escaped_str(text=pattern)
+
+    return 'R"v0g0n({})v0g0n"'.format(pattern)
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index dfdb9b9..7855384 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -202,11 +202,12 @@ def _regex_constants(graph: mapry.Graph) -> str:
                 '''\
             namespace {composite_varname}_re {{
             const std::regex kID(
-                R"v0g0n({regex})v0g0n");
+                {regex});
             }}  // namespace {composite_varname}_re'''.format(
                     composite_varname=mapry.cpp.naming.as_variable(
                         identifier=cls.name),
-                    regex=cls.id_pattern.pattern)))
+                    regex=mapry.cpp.generate.regex_literal(
+                        pattern=cls.id_pattern.pattern))))
 
     return "\n\n".join(blocks)
 
@@ -771,7 +772,7 @@ if (!{{ value }}.isString()) {
     {{ target_expr }} = {{ value }}.asString();
     {% else %}
     const static std::regex regex_{{ uid }}(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|regex_literal }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
@@ -863,7 +864,7 @@ if (!{{ value }}.isString()) {
     {{ set_target }}
     {% else %}
     const static std::regex regex(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|regex_literal }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index eff190f..c99762e 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -21,6 +21,7 @@ ENV.filters.update({
     'as_composite': mapry.cpp.naming.as_composite,
     'comment': mapry.cpp.generate.comment,
     'escaped_str': mapry.cpp.generate.escaped_str,
+    'regex_literal': mapry.cpp.generate.regex_literal,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 740dc79..0d678cd 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -114,6 +114,9 @@ def escaped_str(text: str) -> str:
         ('\v', '\\v'),
         ('\f', '\\f'),
         ('\r', '\\r'),
+        ('\x85', '\\u0085'),
+        ('\u2028', '\\u2028'),
+        ('\u2029', '\\u2029'),
         ('\ufeff', '\\ufeff')])
     # yapf: enable
 
@@ -148,9 +151,10 @@ def ticked_str(text: str) -> str:
         `me`
 
     """
-    if any(char in text for char in ['\0', '\r', '\ufeff']):
+    if any(ord(char) < 0x20 or char in '\x85\u2028\u2029\ufeff'
+           for char in text):
         # These characters are either not allowed or ignored in the raw string
-        # literals.
+        # literals, or they would be re-indented.
         return escaped_str(text=text)
 
     tick_parts = text.split('`')
-- 
2.43.0


From bf60f718746e59dbc5ee57b5ed8ebfb2cc0dcabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 28/47] fix: do not splice the lines after C++ comments

---
 mapry/cpp/generate/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index ee27ac1..cdbe011 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -17,7 +17,10 @@ def comment(text: str) -> str:
     """
     comment_lines = []  # type: List[str]
     for line in text.splitlines():
-        if line.strip():
+        if line.rstrip().endswith(('\\', '??/')):
+            # The next line must not be spliced to the comment.
+            comment_lines.append('// {} //'.format(line))
+        elif line.strip():
             comment_lines.append('// {}'.format(line))
         else:
             comment_lines.append('//')
-- 
2.43.0


From 9e179f96fa838561c8d54c63cb0b68a2118be001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 29/47] fix: compile generated Go code of empty graphs

The variable holding the cast value and the package strings were never
used when the graph had neither classes nor properties.
---
 mapry/go/generate/fromjsonable.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index bbfeb73..d4d1503 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -46,7 +46,12 @@ def _imports(graph: mapry.Graph) -> str:
     :param go: Go settings
     :return: generated code
     """
-    import_set = {'strings', 'fmt'}
+    import_set = {'fmt'}
+
+    # The references are joined for the instances and the properties.
+    if graph.classes or graph.properties or any(
+            embed.properties for embed in graph.embeds.values()):
+        import_set.add('strings')
 
     if mapry.needs_type(a_type=graph, query=mapry.Integer):
         import_set.add('math')
@@ -1643,7 +1648,11 @@ func {{ graph.name|ucamel_case }}FromJSONable(
         panic("unexpected non-empty errors")
     }
 
+    {% if graph.classes or property_parsings %}
     cast, ok := value.(map[string]interface{})
+    {% else %}
+    _, ok := value.(map[string]interface{})
+    {% endif %}{# /if graph.classes or property_parsings #}
     if !ok {
         errors.Add(
             ref,
-- 
2.43.0


From d364d13657221226ba184a4e028d78d93030b3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:20 +0000
Subject: [PATCH 30/47] fix: read and write the formats with %e, %l and %P in
 Python

strptime of Python does not support the directives so that every document
was refused.
---
 mapry/py/generate/fromjsonable.py |  6 ++---
 mapry/py/generate/tojsonable.py   |  6 +++--
 mapry/py/jinja2_env.py            |  2 ++
 mapry/py/timeformat.py            | 41 +++++++++++++++++++++++++++++++
 4 files changed, 50 insertions(+), 5 deletions(-)
 create mode 100644 mapry/py/timeformat.py

diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 90e73ee..4fd25ee 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -604,7 +604,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }}
+            {{ a_type.format|to_strptime|repr }}
         ).date()
     except ValueError:
         errors.add(
@@ -663,7 +663,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }})
+            {{ a_type.format|to_strptime|repr }})
     except ValueError:
         errors.add(
             '/'.join((
@@ -721,7 +721,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }}
+            {{ a_type.format|to_strptime|repr }}
         ).time()
     except ValueError:
         errors.add(
diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index bf87884..f757c62 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -9,6 +9,7 @@ import mapry
 import mapry.py.generate
 import mapry.py.jinja2_env
 import mapry.py.naming
+import mapry.py.timeformat
 
 
 @ensure(lambda result: not result.endswith('\n'))
@@ -162,7 +163,7 @@ def _serialize_date_time(
     """
     return _SERIALIZE_DATE_TIME_TPL.render(
         value_expr=value_expr, target_expr=target_expr,
-        dt_format=a_type.format).rstrip()
+        dt_format=mapry.py.timeformat.to_strftime(a_type.format)).rstrip()
 
 
 def _jsonable_type_repr(a_type: mapry.Type) -> str:
@@ -391,7 +392,8 @@ def _serialization_expr(value_expr: str, a_type: mapry.Type,
 
     elif isinstance(a_type, (mapry.Date, mapry.Datetime, mapry.Time)):
         result = '{value_expr}.strftime({dt_format!r})'.format(
-            value_expr=value_expr, dt_format=a_type.format)
+            value_expr=value_expr,
+            dt_format=mapry.py.timeformat.to_strftime(a_type.format))
 
     elif isinstance(a_type, mapry.TimeZone):
         if py.timezone_as == 'str':
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 40c9feb..16fb278 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -5,6 +5,7 @@ import mapry.naming
 import mapry.py.expr
 import mapry.py.generate
 import mapry.py.naming
+import mapry.py.timeformat
 
 
 def _raise(message: str) -> None:
@@ -25,5 +26,6 @@ ENV.filters.update({
     'escape_format': mapry.py.generate.escape_format,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
+    'to_strptime': mapry.py.timeformat.to_strptime,
     '_raise': _raise
 })
diff --git a/mapry/py/timeformat.py b/mapry/py/timeformat.py
new file mode 100644
index 0000000..2346574
--- /dev/null
+++ b/mapry/py/timeformat.py
@@ -0,0 +1,41 @@
+"""Convert date/time formats to the formats of the Python datetime module."""
+import re
+
+_DIRECTIVE_RE = re.compile(r'%[a-zA-Z%]')
+
+# ``strptime`` does not support these directives, but reads the same texts with
+# the other ones.
+_TO_STRPTIME = {'%e': '%d', '%l': '%I', '%P': '%p'}
+
+# ``strftime`` writes a leading blank which ``strptime`` can not read.
+_TO_STRFTIME = {'%l': '%-I'}
+
+
+def to_strptime(a_format: str) -> str:
+    """
+    Convert the format for parsing with ``datetime.datetime.strptime``.
+
+    :param a_format: strftime/strptime directives
+    :return: format for ``strptime``
+
+    >>> to_strptime(a_format='%e.%m.%Y %l:%M %P %%l')
+    '%d.%m.%Y %I:%M %p %%l'
+
+    """
+    return _DIRECTIVE_RE.sub(
+        lambda mtch: _TO_STRPTIME.get(mtch.group(), mtch.group()), a_format)
+
+
+def to_strftime(a_format: str) -> str:
+    """
+    Convert the format for serializing with ``strftime``.
+
+    :param a_format: strftime/strptime directives
+    :return: format for ``strftime``
+
+    >>> to_strftime(a_format='%e.%m.%Y %l:%M %P %%l')
+    '%e.%m.%Y %-I:%M %P %%l'
+
+    """
+    return _DIRECTIVE_RE.sub(
+        lambda mtch: _TO_STRFTIME.get(mtch.group(), mtch.group()), a_format)
-- 
2.43.0


From e34c975a053f6568f8765f5b9fb5ceb3ba2d72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 31/47] fix: refuse Python formats with repeated directives

strptime of Python raises re.error if a directive is repeated so that
the generated code could not parse any document.
---
 mapry/py/timeformat.py | 30 ++++++++++++++++++++++++++++++
 mapry/py/validation.py | 30 ++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/mapry/py/timeformat.py b/mapry/py/timeformat.py
index 2346574..1d1e31e 100644
--- a/mapry/py/timeformat.py
+++ b/mapry/py/timeformat.py
@@ -1,5 +1,6 @@
 """Convert date/time formats to the formats of the Python datetime module."""
 import re
+from typing import Optional, Set  # pylint: disable=unused-import
 
 _DIRECTIVE_RE = re.compile(r'%[a-zA-Z%]')
 
@@ -39,3 +40,32 @@ def to_strftime(a_format: str) -> str:
     """
     return _DIRECTIVE_RE.sub(
         lambda mtch: _TO_STRFTIME.get(mtch.group(), mtch.group()), a_format)
+
+
+def find_repeated(a_format: str) -> Optional[str]:
+    """
+    Find the first directive which is repeated when the format is parsed.
+
+    Python can not parse a date/time if a directive is repeated.
+
+    :param a_format: strftime/strptime directives
+    :return: repeated ``strptime`` directive, if any
+
+    >>> find_repeated(a_format='%Y-%m-%d %% %%')
+
+    >>> find_repeated(a_format='%Y-%m-%d %e')
+    '%d'
+
+    """
+    observed = set()  # type: Set[str]
+    for mtch in _DIRECTIVE_RE.finditer(to_strptime(a_format=a_format)):
+        directive = mtch.group()
+        if directive == '%%':
+            continue
+
+        if directive in observed:
+            return directive
+
+        observed.add(directive)
+
+    return None
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 898b77d..2f025f0 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -4,6 +4,7 @@ from typing import (  # pylint: disable=unused-import
 
 import mapry
 import mapry.py.naming
+import mapry.py.timeformat
 import mapry.validation
 
 _KEYWORDS = {
@@ -284,6 +285,33 @@ def _validate_module_name(module_name: str,
     return []
 
 
+def _validate_date_time_formats(graph: mapry.Graph
+                                ) -> List[mapry.validation.SchemaError]:
+    """
+    Check that Python can parse the date/time formats.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if not isinstance(a_type, (mapry.Date, mapry.Datetime, mapry.Time)):
+            continue
+
+        directive = mapry.py.timeformat.find_repeated(a_format=a_type.format)
+        if directive is not None:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The date/time format can not be parsed in Python "
+                        "since the directive {} is repeated: {}").format(
+                            directive, a_type.format),
+                    ref=ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -374,6 +402,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs.extend(_validate_variables(graph=schema.graph))
 
+    errs.extend(_validate_date_time_formats(graph=schema.graph))
+
     if schema.py is not None:
         errs.extend(
             _validate_module_name(
-- 
2.43.0


From 4b27db421acaffdf7b6a693f072cf00b4fca6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 32/47] fix: read the C++ dates with %e with date.h and times
 with %P with ctime

---
 mapry/cpp/generate/jsoncpp_impl.py |  6 +--
 mapry/cpp/jinja2_env.py            |  3 ++
 mapry/cpp/timeformat.py            | 64 ++++++++++++++++++++++++++++++
 3 files changed, 70 insertions(+), 3 deletions(-)
 create mode 100644 mapry/cpp/timeformat.py

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 7855384..5372288 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -945,7 +945,7 @@ if (!{{ value }}.isString()) {
     struct tm tm_{{ uid }} = tm{0};
     char* ret_{{ uid }} = strptime(
         cast_{{ uid }}.c_str(),
-        {{ a_type.format|escaped_str }},
+        {{ a_type.format|to_strptime|escaped_str }},
         &tm_{{ uid }});
 
     if (ret_{{ uid }} == nullptr or *ret_{{ uid }} != '\\0') {
@@ -992,7 +992,7 @@ if (!{{ value }}.isString()) {
         {{ value }}.asString());
     iss_{{ uid }} >>
         date::parse(
-            {{ a_type.format|escaped_str }},
+            {{ a_type.format|to_date_parse|escaped_str }},
             {{ target_expr }} );
 
     if (iss_{{ uid }}.fail()) {
@@ -1117,7 +1117,7 @@ if (!{{ value }}.isString()) {
         {{ value }}.asString());
     iss_{{ uid }} >>
         date::parse(
-            {{ a_type.format|escaped_str }},
+            {{ a_type.format|to_date_parse|escaped_str }},
             seconds_of_day_{{ uid }} );
 
     if (iss_{{ uid }}.fail()) {
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index c99762e..28fc4d7 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -4,6 +4,7 @@ import jinja2
 import mapry.cpp.expr
 import mapry.cpp.generate
 import mapry.cpp.naming
+import mapry.cpp.timeformat
 import mapry.naming
 
 
@@ -23,6 +24,8 @@ ENV.filters.update({
     'escaped_str': mapry.cpp.generate.escaped_str,
     'regex_literal': mapry.cpp.generate.regex_literal,
     'json_plural': mapry.naming.json_plural,
+    'to_strptime': mapry.cpp.timeformat.to_strptime,
+    'to_date_parse': mapry.cpp.timeformat.to_date_parse,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
     '_raise': _raise
diff --git a/mapry/cpp/timeformat.py b/mapry/cpp/timeformat.py
new file mode 100644
index 0000000..3a701c6
--- /dev/null
+++ b/mapry/cpp/timeformat.py
@@ -0,0 +1,64 @@
+"""Convert date/time formats to the formats of the C++ date/time libraries."""
+import re
+from typing import Optional  # pylint: disable=unused-import
+
+_DIRECTIVE_RE = re.compile(r'%[a-zA-Z%]')
+
+# ``strptime`` does not support ``%P``, but ``%p`` ignores the case.
+_TO_STRPTIME = {'%P': '%p'}
+
+# ``date::parse`` does not skip the leading blank written by ``%e``.
+_TO_DATE_PARSE = {'%e': '%t%e'}
+
+# Directives which the library ``date.h`` does not support
+_UNSUPPORTED_IN_DATE_H = ['%l', '%P']
+
+
+def to_strptime(a_format: str) -> str:
+    """
+    Convert the format for parsing with ``strptime``.
+
+    :param a_format: strftime/strptime directives
+    :return: format for ``strptime``
+
+    >>> to_strptime(a_format='%I:%M %P %%P')
+    '%I:%M %p %%P'
+
+    """
+    return _DIRECTIVE_RE.sub(
+        lambda mtch: _TO_STRPTIME.get(mtch.group(), mtch.group()), a_format)
+
+
+def to_date_parse(a_format: str) -> str:
+    """
+    Convert the format for parsing with ``date::parse``.
+
+    :param a_format: strftime/strptime directives
+    :return: format for ``date::parse``
+
+    >>> to_date_parse(a_format='%e.%m.%Y %%e')
+    '%t%e.%m.%Y %%e'
+
+    """
+    return _DIRECTIVE_RE.sub(
+        lambda mtch: _TO_DATE_PARSE.get(mtch.group(), mtch.group()), a_format)
+
+
+def find_unsupported_in_date_h(a_format: str) -> Optional[str]:
+    """
+    Find the first directive which the library ``date.h`` does not support.
+
+    :param a_format: strftime/strptime directives
+    :return: unsupported directive, if any
+
+    >>> find_unsupported_in_date_h(a_format='%H:%M %%l')
+
+    >>> find_unsupported_in_date_h(a_format='%l:%M %p')
+    '%l'
+
+    """
+    for mtch in _DIRECTIVE_RE.finditer(a_format):
+        if mtch.group() in _UNSUPPORTED_IN_DATE_H:
+            return mtch.group()
+
+    return None
-- 
2.43.0


From 58f89379725da5b4d87b01a28ec816d84283f1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:08 +0000
Subject: [PATCH 33/47] fix: refuse the directives %l and %P in C++ with date.h

date.h does not support them, neither in parsing nor in formatting.
---
 mapry/cpp/validation.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 8f67097..b57288b 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -5,6 +5,7 @@ from typing import (  # pylint: disable=unused-import
 import mapry
 import mapry.cpp
 import mapry.cpp.naming
+import mapry.cpp.timeformat
 import mapry.validation
 
 _KEYWORDS = {
@@ -224,6 +225,35 @@ def _validate_recursion(graph: mapry.Graph
     return errs
 
 
+def _validate_date_time_formats(graph: mapry.Graph
+                                ) -> List[mapry.validation.SchemaError]:
+    """
+    Check that the library ``date.h`` supports the date/time formats.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if not isinstance(a_type, (mapry.Date, mapry.Datetime, mapry.Time)):
+            continue
+
+        directive = mapry.cpp.timeformat.find_unsupported_in_date_h(
+            a_format=a_type.format)
+
+        if directive is not None:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The library date.h does not support the directive {} "
+                        "of the date/time format: {}").format(
+                            directive, a_type.format),
+                    ref=ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -310,4 +340,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs.extend(_validate_recursion(graph=schema.graph))
 
+    if schema.cpp is not None and schema.cpp.datetime_library == 'date.h':
+        errs.extend(_validate_date_time_formats(graph=schema.graph))
+
     return errs
-- 
2.43.0


From 9bab510ba1d87cad063906b58849b33728f5d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:57 +0000
Subject: [PATCH 34/47] fix: refuse properties and registries with the same
 JSON name

The values could not be distinguished in the JSONable objects.
---
 mapry/validation.py | 92 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 86 insertions(+), 6 deletions(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index 7a9f3ed..2c8a8e7 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -621,15 +621,84 @@ def _validate_plurals(mapping: Mapping[str, Any],
         property_names = sorted(mapping['properties'].keys())
 
     for property_name in property_names:
-        if property_name in registry_property_to_class_name:
+        json_name = mapping['properties'][property_name].get(
+            'json', property_name)
+
+        for identifier in [property_name, json_name]:
+            if identifier in registry_property_to_class_name:
+                errs.append(
+                    SchemaError(
+                        message=(
+                            'Graph property {!r} conflicts with the plural '
+                            'necessary for the registry of class {!r}').format(
+                                identifier,
+                                registry_property_to_class_name[identifier]),
+                        ref='{}/{}'.format(ref, property_name)))
+                break
+
+    return errs
+
+
+def _validate_json_names(mapping: Mapping[str, Any],
+                         ref: str) -> List[SchemaError]:
+    """
+    Check that the properties of a composite have different JSON names.
+
+    :param mapping: of the composite to be validated
+    :param ref: reference to the composite
+    :return: list of schema errors or an empty list, if no errors
+    """
+    errs = []  # type: List[SchemaError]
+
+    json_name_to_property = dict()  # type: Dict[str, str]
+
+    for name, property_mapping in mapping.get('properties', dict()).items():
+        json_name = property_mapping.get('json', name)
+        conflict = json_name_to_property.setdefault(json_name, name)
+        if conflict != name:
             errs.append(
                 SchemaError(
                     message=(
-                        'Graph property {!r} conflicts with the plural '
-                        'necessary for the registry of class {!r}').format(
-                            property_name,
-                            registry_property_to_class_name[property_name]),
-                    ref='{}/{}'.format(ref, property_name)))
+                        'The JSON name {!r} of the property {!r} conflicts '
+                        'with the JSON name of the property {!r}').format(
+                            json_name, name, conflict),
+                    ref='{}/properties/{}'.format(ref, name)))
+
+    return errs
+
+
+def _validate_registry_names(mapping: Mapping[str, Any],
+                             ref: str) -> List[SchemaError]:
+    """
+    Check that the class registries have different JSON names.
+
+    :param mapping: schema mapping to be validated
+    :param ref: reference to the schema
+    :return: list of schema errors or an empty list, if no errors
+    """
+    errs = []  # type: List[SchemaError]
+
+    json_name_to_index = dict()  # type: Dict[str, int]
+
+    for i, cls_mapping in enumerate(mapping.get('classes', [])):
+        if 'plural' in cls_mapping:
+            plural = cls_mapping['plural']
+        else:
+            plural = mapry.naming.plural(identifier=cls_mapping['name'])
+
+        json_name = mapry.naming.json_plural(a_plural=plural)
+        conflict = json_name_to_index.setdefault(json_name, i)
+
+        # Identical class names are reported separately.
+        if mapping['classes'][conflict]['name'] != cls_mapping['name']:
+            errs.append(
+                SchemaError(
+                    message=(
+                        'The registry {!r} of the class {!r} conflicts with '
+                        'the registry of the class {!r}').format(
+                            json_name, cls_mapping['name'],
+                            mapping['classes'][conflict]['name']),
+                    ref='{}/classes/{}'.format(ref, i)))
 
     return errs
 
@@ -725,4 +794,15 @@ def validate(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
     # do not conflict any of the graph properties
     errors.extend(_validate_plurals(mapping=mapping, ref=ref))
 
+    # Check that the values can be distinguished in the JSONable objects
+    errors.extend(_validate_registry_names(mapping=mapping, ref=ref))
+    errors.extend(_validate_json_names(mapping=mapping, ref=ref))
+
+    for key in ['classes', 'embeds']:
+        for i, composite_mapping in enumerate(mapping.get(key, [])):
+            errors.extend(
+                _validate_json_names(
+                    mapping=composite_mapping,
+                    ref='{}/{}/{}'.format(ref, key, i)))
+
     return errors
-- 
2.43.0


From 0614c62c32a48bb1b16ca1cdaf5746c586191e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:37 +0000
Subject: [PATCH 35/47] fix: refuse bounds beyond 64-bit integers in Go and C++

The generated code did not compile.
---
 mapry/cpp/validation.py | 31 +++++++++++++++++++++++++++++++
 mapry/go/validation.py  | 31 +++++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index b57288b..45f0bba 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -225,6 +225,35 @@ def _validate_recursion(graph: mapry.Graph
     return errs
 
 
+def _validate_bounds(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
+    """
+    Check that the bounds of integers and sizes can be represented in C++.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if isinstance(a_type, mapry.Integer):
+            bounds = [a_type.minimum, a_type.maximum]
+        elif isinstance(a_type, mapry.Array):
+            bounds = [a_type.minimum_size, a_type.maximum_size]
+        else:
+            continue
+
+        for bound in bounds:
+            if bound is not None and not -2**63 <= bound < 2**63:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The bound {} can not be represented "
+                            "as a 64-bit integer in C++").format(bound),
+                        ref=ref))
+
+    return errs
+
+
 def _validate_date_time_formats(graph: mapry.Graph
                                 ) -> List[mapry.validation.SchemaError]:
     """
@@ -340,6 +369,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs.extend(_validate_recursion(graph=schema.graph))
 
+    errs.extend(_validate_bounds(graph=schema.graph))
+
     if schema.cpp is not None and schema.cpp.datetime_library == 'date.h':
         errs.extend(_validate_date_time_formats(graph=schema.graph))
 
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 14b6fdc..7497d11 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -276,6 +276,35 @@ def _validate_date_time_formats(graph: mapry.Graph
     return errs
 
 
+def _validate_bounds(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
+    """
+    Check that the bounds of integers and sizes can be represented in Go.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if isinstance(a_type, mapry.Integer):
+            bounds = [a_type.minimum, a_type.maximum]
+        elif isinstance(a_type, mapry.Array):
+            bounds = [a_type.minimum_size, a_type.maximum_size]
+        else:
+            continue
+
+        for bound in bounds:
+            if bound is not None and not -2**63 <= bound < 2**63:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The bound {} can not be represented "
+                            "as a 64-bit integer in Go").format(bound),
+                        ref=ref))
+
+    return errs
+
+
 def _validate_recursion(graph: mapry.Graph
                         ) -> List[mapry.validation.SchemaError]:
     """
@@ -395,6 +424,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs.extend(_validate_date_time_formats(graph=schema.graph))
 
+    errs.extend(_validate_bounds(graph=schema.graph))
+
     if schema.go is not None and schema.go.package in _KEYWORDS:
         errs.append(
             mapry.validation.SchemaError(
-- 
2.43.0


From 9e86c6a55e34b3c0219d675416847779265d4fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:18 +0000
Subject: [PATCH 36/47] fix: compare with the lowest 64-bit integer as signed
 in C++

The literal was unsigned so that all the negative numbers were accepted.
---
 mapry/cpp/expr.py                  | 23 +++++++++++++++++++++++
 mapry/cpp/generate/jsoncpp_impl.py |  4 ++--
 mapry/cpp/jinja2_env.py            |  1 +
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/expr.py b/mapry/cpp/expr.py
index a998684..bc03658 100644
--- a/mapry/cpp/expr.py
+++ b/mapry/cpp/expr.py
@@ -50,3 +50,26 @@ def append_strings(exprs: List[str]) -> str:
         parts.append('\n    .append({})'.format(ref_part))
 
     return ''.join(parts)
+
+
+def integer_literal(value: int) -> str:
+    """
+    Generate the C++ literal of the given 64-bit integer.
+
+    The sign is not a part of the literals in C++ so that the lowest integer
+    needs to be computed.
+
+    :param value: to be written as C++ code
+    :return: generated C++ expression
+
+    >>> integer_literal(-3)
+    '-3'
+
+    >>> integer_literal(-2**63)
+    '(-9223372036854775807 - 1)'
+
+    """
+    if value == -2**63:
+        return '({} - 1)'.format(value + 1)
+
+    return str(value)
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 5372288..2bb24dc 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -579,7 +579,7 @@ if (!{{ value }}.isInt64()) {
     {% if a_type.minimum is not none %}
 
     {% set op = ">" if a_type.exclusive_minimum else ">="  %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.minimum }})) {
+    if (!(cast_{{ uid }} {{ op }} {{ a_type.minimum|integer_literal }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %d"|format(op, a_type.minimum)|escaped_str }}
@@ -597,7 +597,7 @@ if (!{{ value }}.isInt64()) {
     {% if a_type.maximum is not none %}
 
     {% set op = "<" if a_type.exclusive_maximum else "<=" %}
-    if (!(cast_{{ uid }} {{ op }} {{ a_type.maximum }})) {
+    if (!(cast_{{ uid }} {{ op }} {{ a_type.maximum|integer_literal }})) {
         constexpr auto expected_but_got(
             "Expected "
             {{ "%s %d"|format(op, a_type.maximum)|escaped_str }}
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index 28fc4d7..233d9e2 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -26,6 +26,7 @@ ENV.filters.update({
     'json_plural': mapry.naming.json_plural,
     'to_strptime': mapry.cpp.timeformat.to_strptime,
     'to_date_parse': mapry.cpp.timeformat.to_date_parse,
+    'integer_literal': mapry.cpp.expr.integer_literal,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
     '_raise': _raise
-- 
2.43.0


From 16604b7729b29e41e7b852a949ab5037a214641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 37/47] fix: refuse C++ identifiers which are keywords, macros
 or hide functions

The composites were only compared in camel case with the keywords though
they are also translated to variables in lower case.
---
 mapry/cpp/validation.py | 91 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 91 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 45f0bba..6d907ea 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -1,4 +1,5 @@
 """Validate that the C++ code can be generated according to the schema."""
+import re
 from typing import (  # pylint: disable=unused-import
     Dict, List, Mapping, MutableMapping, Set)
 
@@ -25,6 +26,9 @@ _KEYWORDS = {
     'void', 'volatile', 'wchar_t', 'while', 'xor', 'xor_eq'
 }
 
+# Macros of the headers included in the generated code
+_MACROS = {'EOF', 'INFINITY', 'NULL', 'errno'}
+
 
 class _Field:
     """Represent a C++ field of a composite."""
@@ -80,6 +84,14 @@ def _validate_fields(fields: List[_Field]
                         "is a keyword in C++").format(field.name),
                     ref=field.ref))
 
+        if field.name in _MACROS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} "
+                        "is a macro in C++").format(field.name),
+                    ref=field.ref))
+
         if field.name in name_to_fields:
             errs.append(
                 mapry.validation.SchemaError(
@@ -164,6 +176,17 @@ def _validate_graph_fields(graph: mapry.Graph
                             plural_field, cls.name),
                     ref=cls.ref))
 
+        # The variable ``instance_ref`` is also used for other references.
+        if plural_field in _MACROS or plural_field == 'instance':
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} corresponding "
+                        "to the registry of the class {!r} in the object "
+                        "graph is used by the autogenerated code").format(
+                            plural_field, cls.name),
+                    ref=cls.ref))
+
         if plural_field in property_field_map:
             errs.append(
                 mapry.validation.SchemaError(
@@ -194,6 +217,61 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
+def _validate_variables(graph: mapry.Graph
+                        ) -> List[mapry.validation.SchemaError]:
+    """
+    Check that the composites do not hide identifiers in the generated code.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+
+    functions = {
+        'serialize_{}'.format(
+            mapry.cpp.naming.as_variable(identifier=composite.name))
+        for composite in composites
+    }
+
+    for composite in composites:
+        name = mapry.cpp.naming.as_composite(identifier=composite.name)
+        variable = mapry.cpp.naming.as_variable(identifier=composite.name)
+
+        if name in _MACROS or name == 'Json':
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ identifier {!r} of the composite {!r} "
+                        "is used by the autogenerated code").format(
+                            name, composite.name),
+                    ref=composite.ref))
+        elif variable in _KEYWORDS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ variable {!r} corresponding to "
+                        "the composite {!r} is a keyword in C++").format(
+                            variable, composite.name),
+                    ref=composite.ref))
+        elif (variable in _MACROS or variable in functions
+              or re.match(r'^target_[0-9]+\Z', variable)
+              or (variable == 'strlen' and composite is graph)):
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ variable {!r} corresponding to "
+                        "the composite {!r} would hide an identifier used "
+                        "by the autogenerated code").format(
+                            variable, composite.name),
+                    ref=composite.ref))
+
+    return errs
+
+
 def _validate_recursion(graph: mapry.Graph
                         ) -> List[mapry.validation.SchemaError]:
     """
@@ -367,6 +445,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check the fields of the object graph (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
+    errs.extend(_validate_variables(graph=schema.graph))
+
     errs.extend(_validate_recursion(graph=schema.graph))
 
     errs.extend(_validate_bounds(graph=schema.graph))
@@ -374,4 +454,15 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     if schema.cpp is not None and schema.cpp.datetime_library == 'date.h':
         errs.extend(_validate_date_time_formats(graph=schema.graph))
 
+    if schema.cpp is not None:
+        for part in schema.cpp.namespace.split('::'):
+            if part in _KEYWORDS:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The part {!r} of the namespace {!r} "
+                            "is a keyword in C++").format(
+                                part, schema.cpp.namespace),
+                        ref='{}/cpp/namespace'.format(schema.graph.ref)))
+
     return errs
-- 
2.43.0


From 174ab7cea5e1570a6277234784d48da4bed8cbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:32 +0000
Subject: [PATCH 38/47] fix: escape characters not allowed in comments in Go
 and Python

Neither NULs nor byte order marks are allowed in Go code, NULs are not
allowed in Python code.
---
 mapry/go/generate/__init__.py | 3 +++
 mapry/py/generate/__init__.py | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 0d678cd..07ea3ad 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -20,6 +20,9 @@ def comment(text: str) -> str:
     :return: non-indented comment
     """
     comment_lines = []  # type: List[str]
+
+    # Go code must contain neither NULs nor byte order marks.
+    text = text.replace('\0', '\\0').replace('\ufeff', '\\ufeff')
     for line in text.splitlines():
         if line.strip():
             comment_lines.append('// {}'.format(line))
diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index 7a9a8cf..9a2d8fc 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -20,7 +20,9 @@ def comment(text: str) -> str:
     :return: non-indented comment
     """
     comment_lines = []  # type: List[str]
-    for line in text.splitlines():
+
+    # Python code must not contain NULs.
+    for line in text.replace('\0', '\\0').splitlines():
         if line.strip():
             comment_lines.append('# {}'.format(line))
         else:
@@ -116,6 +118,9 @@ def docstring(text: str) -> str:
     :param text: text of the docstring
     :return: Python string literal
     """
+    # Python code must not contain NULs.
+    text = text.replace('\0', '\\0')
+
     has_backslash = '\\' in text
     has_triple_quote = '"""' in text
 
-- 
2.43.0


From f99b98ee2a3ca59d40220e3516997ec47511f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 39/47] fix: refuse null characters which would cut C++ string
 literals

---
 mapry/cpp/validation.py | 47 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 6d907ea..44f9fef 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -1,7 +1,7 @@
 """Validate that the C++ code can be generated according to the schema."""
 import re
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping, Set)
+    Dict, List, Mapping, MutableMapping, Set, Tuple)
 
 import mapry
 import mapry.cpp
@@ -217,6 +217,49 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
+def _validate_nulls(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
+    """
+    Check that no null characters are needed in the C++ string literals.
+
+    The string literals are passed as null-terminated strings.
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    texts = []  # type: List[Tuple[str, str]]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+    for composite in composites:
+        for prop in composite.properties.values():
+            texts.append((prop.json, prop.ref))
+
+    for cls in graph.classes.values():
+        if cls.id_pattern is not None:
+            texts.append((cls.id_pattern.pattern, cls.ref))
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if isinstance(a_type, (mapry.String, mapry.Path)):
+            if a_type.pattern is not None:
+                texts.append((a_type.pattern.pattern, ref))
+        elif isinstance(a_type, (mapry.Date, mapry.Datetime, mapry.Time)):
+            texts.append((a_type.format, ref))
+
+    for text, ref in texts:
+        if '\0' in text:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The null character can not be represented "
+                        "in the C++ code: {!r}").format(text),
+                    ref=ref))
+
+    return errs
+
+
 def _validate_variables(graph: mapry.Graph
                         ) -> List[mapry.validation.SchemaError]:
     """
@@ -447,6 +490,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs.extend(_validate_variables(graph=schema.graph))
 
+    errs.extend(_validate_nulls(graph=schema.graph))
+
     errs.extend(_validate_recursion(graph=schema.graph))
 
     errs.extend(_validate_bounds(graph=schema.graph))
-- 
2.43.0


From 8ea6c94f339f9b14b66ab3b3889e0927511596c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 40/47] fix: Refuse conflicting namespaces of ID patterns in
 C++

---
 mapry/cpp/validation.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 44f9fef..f1521e5 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -312,6 +312,23 @@ def _validate_variables(graph: mapry.Graph
                             variable, composite.name),
                     ref=composite.ref))
 
+    # The patterns of IDs are defined in a namespace named after the variable.
+    variable_to_class = dict()  # type: Dict[str, mapry.Class]
+    for cls in graph.classes.values():
+        if cls.id_pattern is None:
+            continue
+
+        variable = mapry.cpp.naming.as_variable(identifier=cls.name)
+        conflict = variable_to_class.setdefault(variable, cls)
+        if conflict is not cls:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The ID patterns of the classes {!r} and {!r} ({}) "
+                        "have conflicting C++ namespaces: '{}_re'").format(
+                            cls.name, conflict.name, conflict.ref, variable),
+                    ref=cls.ref))
+
     return errs
 
 
-- 
2.43.0


From 7efe3b443b6b036a8779051f582d8912d21feb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 41/47] fix: Read and write files as UTF-8 irrespective of the
 locale

---
 mapry/main.py  | 6 +++---
 mapry/parse.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mapry/main.py b/mapry/main.py
index 8410d75..78835a7 100644
--- a/mapry/main.py
+++ b/mapry/main.py
@@ -79,7 +79,7 @@ def generate_cpp(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -132,7 +132,7 @@ def generate_go(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
@@ -183,7 +183,7 @@ def generate_py(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     for filename, code in filename_to_code.items():
         pth = outdir / filename
-        pth.write_text(code)
+        pth.write_text(code, encoding='utf-8')
 
     print('Files generated in: {}'.format(outdir))
 
diff --git a/mapry/parse.py b/mapry/parse.py
index 6d131fc..e3ab82c 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -405,7 +405,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
     :param path: to the JSON-encoded mapry schema.
     :return: parsed schema
     """
-    with path.open('rt') as fid:
+    with path.open('rt', encoding='utf-8') as fid:
         jsonerr = None  # type: Optional[json.JSONDecodeError]
 
         try:
-- 
2.43.0


From d987c072b4f2fcfab3b4165801b63952e4847af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:16 +0000
Subject: [PATCH 42/47] fix: Read the schema as UTF-8 for the message about
 invalid JSON

---
 mapry/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index e3ab82c..21a912c 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -424,7 +424,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
             return schema_from_mapping(mapping=obj, ref='{}#'.format(str(path)))
         else:
             # Split as the lines are counted by the JSON decoder
-            lines = path.read_text().split('\n')
+            lines = path.read_text(encoding='utf-8').split('\n')
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
-- 
2.43.0


From 5f09070cd450dfb50f8bf39b157ec0e379c52fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:16 +0000
Subject: [PATCH 43/47] fix: Name Go in the message about its missing settings

---
 mapry/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/main.py b/mapry/main.py
index 78835a7..e94ca9d 100644
--- a/mapry/main.py
+++ b/mapry/main.py
@@ -108,7 +108,7 @@ def generate_go(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     if go is None:
         print(
-            'Expected the C++ settings to be set in the schema, '
+            'Expected the Go settings to be set in the schema, '
             'but found none (no "go" field)',
             file=sys.stderr)
         return 1
-- 
2.43.0


From 0e2eea052525555705b929a9f80110168de8c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:16 +0000
Subject: [PATCH 44/47] fix: Import datetime for the types of collections of
 time zones in Python

---
 mapry/py/generate/fromjsonable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 4fd25ee..d876530 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -43,6 +43,12 @@ def _imports(graph: mapry.Graph, py: mapry.Py) -> str:
             third_party_block.update(
                 ('import pytz', 'import pytz.exceptions  # type: ignore'))
 
+            # The types of lists and mappings are given in comments.
+            if any(isinstance(a_type, (mapry.Array, mapry.Map))
+                   and isinstance(a_type.values, mapry.TimeZone)
+                   for a_type, _ in mapry.iterate_over_types(graph=graph)):
+                stdlib_block.add('import datetime')
+
         else:
             raise NotImplementedError(
                 'Unhandled timezone_as: {}'.format(py.timezone_as))
-- 
2.43.0


From 7d2ad296918fcea497d9abe899124ea2cd2e8417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:46 +0000
Subject: [PATCH 45/47] fix: Refuse registries which hide the object graph in
 the C++ serialization

---
 mapry/cpp/validation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index f1521e5..575d782 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -187,6 +187,18 @@ def _validate_graph_fields(graph: mapry.Graph
                             plural_field, cls.name),
                     ref=cls.ref))
 
+        # The serialization keeps the graph and the registries in variables.
+        if plural_field == mapry.cpp.naming.as_variable(identifier=graph.name):
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ variable {!r} corresponding to the registry "
+                        "of the class {!r} in the serialization hides "
+                        "the variable corresponding to the object "
+                        "graph").format(
+                            '{}_as_value'.format(plural_field), cls.name),
+                    ref=cls.ref))
+
         if plural_field in property_field_map:
             errs.append(
                 mapry.validation.SchemaError(
-- 
2.43.0


From fd46c76c4699caff0bc06f80f6a2b861ad22544c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:10 +0000
Subject: [PATCH 46/47] fix: Refuse fields which hide the types of other fields
 in C++

---
 mapry/cpp/validation.py | 55 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 575d782..14a138b 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -229,6 +229,59 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
+def _validate_type_names(schema: mapry.Schema
+                         ) -> List[mapry.validation.SchemaError]:
+    """
+    Check that no field hides the name of a type used by the same composite.
+
+    :param schema: mapry schema
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    is_ctime = (
+        schema.cpp is not None and schema.cpp.datetime_library == 'ctime')
+
+    composites = [schema.graph]  # type: List[mapry.Composite]
+    composites.extend(schema.graph.classes.values())
+    composites.extend(schema.graph.embeds.values())
+
+    for composite in composites:
+        type_names = set()  # type: Set[str]
+        for prop in composite.properties.values():
+            # The optional fields have no default value.
+            if (is_ctime and not prop.optional and isinstance(
+                    prop.type, (mapry.Date, mapry.Datetime, mapry.Time))):
+                type_names.add('tm')
+
+            value_type = prop.type
+            while isinstance(value_type, (mapry.Array, mapry.Map)):
+                value_type = value_type.values
+
+            if isinstance(value_type, mapry.Integer):
+                type_names.add('int64_t')
+
+        fields = _properties_to_fields(properties=composite.properties)
+        if composite is schema.graph:
+            for cls in schema.graph.classes.values():
+                fields.append(
+                    _Field(
+                        name=mapry.cpp.naming.as_field(identifier=cls.plural),
+                        ref=cls.ref))
+
+        for field in fields:
+            if field.name in type_names:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The C++ field identifier {!r} hides the type "
+                            "used by a field of the same composite").format(
+                                field.name),
+                        ref=field.ref))
+
+    return errs
+
+
 def _validate_nulls(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
     """
     Check that no null characters are needed in the C++ string literals.
@@ -519,6 +572,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs.extend(_validate_variables(graph=schema.graph))
 
+    errs.extend(_validate_type_names(schema=schema))
+
     errs.extend(_validate_nulls(graph=schema.graph))
 
     errs.extend(_validate_recursion(graph=schema.graph))
-- 
2.43.0


From 4f27573c7740b474244df0066a8280774ef7a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:49 +0000
Subject: [PATCH 47/47] fix: Refuse registries with equal variables in Go

---
 mapry/go/validation.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 7497d11..9eee110 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -140,6 +140,7 @@ def _validate_graph_fields(graph: mapry.Graph
 
     property_field_map = {field.name: field for field in fields}
     registry_field_map = dict()  # type: MutableMapping[str, mapry.Class]
+    registry_variable_map = dict()  # type: MutableMapping[str, mapry.Class]
 
     for cls in graph.classes.values():
         plural_field = mapry.naming.ucamel_case(identifier=cls.plural)
@@ -181,6 +182,22 @@ def _validate_graph_fields(graph: mapry.Graph
         else:
             registry_field_map[plural_field] = cls
 
+        # The variables are named after the plural when the graph is parsed.
+        plural_variable = mapry.naming.camel_case(identifier=cls.plural)
+        conflict = registry_variable_map.setdefault(plural_variable, cls)
+        if (conflict is not cls and mapry.naming.ucamel_case(
+                identifier=conflict.plural) != plural_field):
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go variables {!r} corresponding to the registry "
+                        "of the class {!r} conflict with the Go variables "
+                        "corresponding to the registry of the class "
+                        "{!r} ({})").format(
+                            plural_variable, cls.name, conflict.name,
+                            conflict.ref),
+                    ref=cls.ref))
+
     reserved_type_names = {
         'Error', 'Errors', 'NewErrors',
         '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
-- 
2.43.0

