From c6fbff552349486d16db7ea990d4ad9960a31b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 01/43] fix: keep fractional bounds of floats

The minimum and the maximum of a float were truncated to integers.
---
 mapry/parse.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 4990f94..dc8add9 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -5,7 +5,7 @@ import json
 import pathlib
 import re
 from typing import (  # pylint: disable=unused-import
-    Any, Mapping, MutableMapping, Optional)
+    Any, Mapping, MutableMapping, Optional, Union)
 
 import mapry
 import mapry.naming
@@ -103,6 +103,27 @@ def _embed_from_mapping(mapping: Mapping[str, Any], ref: str) -> mapry.Embed:
         name=mapping['name'], description=mapping['description'], ref=ref)
 
 
+def _float_bound(value: Union[int, float]) -> Union[int, float]:
+    """
+    Represent the bound of a float so that no precision is lost.
+
+    Whole numbers are represented as integers.
+
+    :param value: of the bound as given in the schema
+    :return: bound
+
+    >>> _float_bound(100.0)
+    100
+
+    >>> _float_bound(0.5)
+    0.5
+    """
+    if isinstance(value, float) and value.is_integer() and abs(value) < 2**53:
+        return int(value)
+
+    return value
+
+
 def _recurse_type_from_mapping(
         mapping: Mapping[str, Any], classes: Mapping[str, mapry.Class],
         embeds: Mapping[str, mapry.Embed]) -> mapry.Type:
@@ -132,10 +153,12 @@ def _recurse_type_from_mapping(
 
     if type_identifier == 'float':
         return mapry.Float(
-            minimum=int(mapping['minimum']) if 'minimum' in mapping else None,
+            minimum=_float_bound(mapping['minimum'])
+            if 'minimum' in mapping else None,
             exclusive_minimum=bool(mapping['exclusive_minimum'])
             if 'exclusive_minimum' in mapping else False,
-            maximum=int(mapping['maximum']) if 'maximum' in mapping else None,
+            maximum=_float_bound(mapping['maximum'])
+            if 'maximum' in mapping else None,
             exclusive_maximum=bool(mapping['exclusive_maximum'])
             if 'exclusive_maximum' in mapping else False)
 
-- 
2.43.0


From e7f0b10796a6dad4781bf90956d39d3a1d725dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 02/43] fix: use C++ field names in type definitions and
 serialization

Names with upper-case letters gave C++ code which did not compile.
---
 mapry/cpp/generate/jsoncpp_impl.py | 6 ++++--
 mapry/cpp/generate/types_header.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 8735d89..6580f1a 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2687,7 +2687,8 @@ def _serialize_class_or_embed(
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(class_or_embed.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
@@ -2773,7 +2774,8 @@ def _serialize_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
             target_expr="{}_as_value[{}]".format(
                 mapry.cpp.naming.as_variable(graph.name),
                 mapry.cpp.generate.escaped_str(prop.json)),
-            value_expr="{}.{}".format(value_expr, prop.name),
+            value_expr="{}.{}".format(
+                value_expr, mapry.cpp.naming.as_field(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             cpp=cpp)
diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 6ef087b..64d1285 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -6,6 +6,7 @@ from icontract import ensure
 import mapry
 import mapry.cpp.generate
 import mapry.cpp.jinja2_env
+import mapry.cpp.naming
 import mapry.indention
 
 
@@ -256,10 +257,11 @@ def _property_fields(composite: mapry.Composite, cpp: mapry.Cpp) -> str:
             prop_type = mapry.cpp.generate.type_repr(a_type=prop.type, cpp=cpp)
             def_val = _default_value(a_type=prop.type, cpp=cpp)
 
+        field = mapry.cpp.naming.as_field(identifier=prop.name)
         if def_val is not None:
-            block.append("{} {} = {};".format(prop_type, prop.name, def_val))
+            block.append("{} {} = {};".format(prop_type, field, def_val))
         else:
-            block.append("{} {};".format(prop_type, prop.name))
+            block.append("{} {};".format(prop_type, field))
 
         blocks.append('\n'.join(block))
 
-- 
2.43.0


From e418ebb370b2d18d23db87ba3635b9128eee7337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 03/43] fix: use Python attribute names in serialization of
 composites

Properties with upper-case letters could not be serialized.
---
 mapry/py/generate/tojsonable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index 0ecf5fc..bf87884 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -566,7 +566,8 @@ def _serialize_class_or_embed(
     property_serializations = [
         _serialize_property(
             target_expr="target[{}]".format(repr(prop.json)),
-            value_expr="instance.{}".format(prop.name),
+            value_expr="instance.{}".format(
+                mapry.py.naming.as_attribute(prop.name)),
             a_property=prop,
             auto_id=auto_id,
             py=py)
-- 
2.43.0


From 6302490c0ce9822e1e1db4e4b74e98758da5048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:26 +0000
Subject: [PATCH 04/43] fix: embed patterns and formats safely into generated
 Python

Braces in a pattern or a format broke the error message at run time and
single quotes in a pattern gave invalid Python code.
---
 mapry/py/generate/__init__.py     | 32 +++++++++++++++++++++++++++++++
 mapry/py/generate/fromjsonable.py | 16 ++++++++--------
 mapry/py/jinja2_env.py            |  2 ++
 3 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index 406bfea..afc60df 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -29,6 +29,38 @@ def comment(text: str) -> str:
     return '\n'.join(comment_lines)
 
 
+def re_literal(pattern: str) -> str:
+    """
+    Convert the regular expression to a Python literal.
+
+    :param pattern: text of the regular expression
+    :return: Python literal, raw if possible
+
+    >>> print(re_literal(pattern='^[a-z]*$'))
+    r'^[a-z]*$'
+
+    >>> print(re_literal(pattern="it's"))
+    "it's"
+    """
+    if "'" in pattern or not pattern.isprintable():
+        return repr(pattern)
+
+    return "r'{}'".format(pattern)
+
+
+def escaped_fmt(text: str) -> str:
+    """
+    Escape the text so that it can be embedded in a format string.
+
+    :param text: to be escaped
+    :return: text with escaped braces
+
+    >>> escaped_fmt(text='[a-z]{3}')
+    '[a-z]{{3}}'
+    """
+    return text.replace('{', '{{').replace('}', '}}')
+
+
 def type_repr(a_type: mapry.Type, py: mapry.Py) -> str:
     """
     Generate the Python type representation of the given mapry type.
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 25a0b1c..3fbd7a8 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -466,13 +466,13 @@ else:
     {{ target_expr }} = {{ value }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|re_literal }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escaped_fmt)|repr }}.format(
                 {{ value }}))
     else:
         {{ target_expr }} = {{ value }}
@@ -540,13 +540,13 @@ else:
     {{ set_target|indent }}
     {% else %}
     if not re.match(
-            r'{{ a_type.pattern.pattern }}',
+            {{ a_type.pattern.pattern|re_literal }},
             {{ value }}):
         errors.add(
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to match %s, but got: {}"|
-                format(a_type.pattern.pattern)|repr }}.format(
+                format(a_type.pattern.pattern|escaped_fmt)|repr }}.format(
                 {{ value }}))
     else:
         {{ set_target|indent|indent }}
@@ -611,7 +611,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escaped_fmt)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -669,7 +669,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escaped_fmt)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -728,7 +728,7 @@ else:
             '/'.join((
                 {{ ref_parts|join(', ') }})),
             {{ "Expected to strptime %s, but got: {}"|
-                format(a_type.format)|repr }}.format(
+                format(a_type.format|escaped_fmt)|repr }}.format(
                 {{ value }}))
 ''')
 
@@ -1645,7 +1645,7 @@ parses {{ graph.name|as_composite }} from a JSONable value.
             for id in registry_value:
                 {% if cls.id_pattern %}
                 if not re.match(
-                        r'{{ cls.id_pattern.pattern }}',
+                        {{ cls.id_pattern.pattern|re_literal }},
                         id):
                     errors.add(
                         '/'.join((
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 89f6f06..4b1850e 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -21,6 +21,8 @@ ENV.filters.update({
     'comment': mapry.py.generate.comment,
     'as_docstring': mapry.py.generate.docstring,
     'repr': repr,
+    're_literal': mapry.py.generate.re_literal,
+    'escaped_fmt': mapry.py.generate.escaped_fmt,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
     '_raise': _raise
-- 
2.43.0


From c8e0851b5bbc371e4c8be5cb5c368067df195af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 05/43] fix: define C++ embeddables after those they contain

An embeddable containing another one declared later gave C++ code which
did not compile (incomplete type).
---
 mapry/cpp/generate/types_header.py | 33 +++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/types_header.py b/mapry/cpp/generate/types_header.py
index 64d1285..811497c 100644
--- a/mapry/cpp/generate/types_header.py
+++ b/mapry/cpp/generate/types_header.py
@@ -295,6 +295,37 @@ def _embed_definition(embed: mapry.Embed, cpp: mapry.Cpp) -> str:
                                                       cpp=cpp)).strip()
 
 
+def _order_embeds(graph: mapry.Graph) -> List[mapry.Embed]:
+    """
+    Order the embeddable structures so that the members come first.
+
+    C++ requires the type of a member to be completely defined before the
+    structure. Otherwise, the order of the schema is kept.
+
+    :param graph: definition of the object graph
+    :return: ordered embeddable structures
+    """
+    ordered = []  # type: List[mapry.Embed]
+    visited = set()  # type: Set[str]
+
+    def visit(embed: mapry.Embed) -> None:
+        """Visit recursively the members in depth-first fashion."""
+        if embed.name in visited:
+            return
+
+        visited.add(embed.name)
+        for prop in embed.properties.values():
+            if isinstance(prop.type, mapry.Embed):
+                visit(embed=prop.type)
+
+        ordered.append(embed)
+
+    for embed in graph.embeds.values():
+        visit(embed=embed)
+
+    return ordered
+
+
 _CLASS_DEFINITION_TPL = mapry.cpp.jinja2_env.ENV.from_string(
     '''\
 {% if cls.description %}
@@ -391,7 +422,7 @@ def generate(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
 
     blocks.append(_forward_declarations(graph=graph))
 
-    for embed in graph.embeds.values():
+    for embed in _order_embeds(graph=graph):
         blocks.append(_embed_definition(embed=embed, cpp=cpp))
 
     for cls in graph.classes.values():
-- 
2.43.0


From 0466ce6264ea080c22b0496fc604e4b581be4e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 06/43] fix: translate week days and line breaks of date/time
 formats to Go

Go recognizes the week days as 'Mon' and 'Monday' in a layout, while 'Sun'
and 'Sunday' are plain text. Carriage returns and trailing line breaks of a
format were lost.
---
 mapry/go/timeformat.py | 30 ++++++------------------------
 mapry/strftime.py      | 22 ++++++++++++++++++++--
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index fd5bf85..b4ff24e 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -1,15 +1,11 @@
 #!/usr/bin/env python3
 """Convert date/time format from strftime directives to Go."""
-from typing import List  # pylint: disable=unused-import
-
-from icontract import ensure
-
 import mapry.strftime
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
 _STRFTIME_TO_GO = {
-    '%a': 'Sun',
-    '%A': 'Sunday',
+    '%a': 'Mon',
+    '%A': 'Monday',
     '%b': 'Jan',
     '%B': 'January',
     '%d': '02',
@@ -30,7 +26,6 @@ _STRFTIME_TO_GO = {
 }
 
 
-@ensure(lambda result: not result.endswith('\n'))
 def convert(a_format: str) -> str:
     r"""
     Convert the strftime/strptime directives to Go directives.
@@ -45,21 +40,8 @@ def convert(a_format: str) -> str:
     '2006-01-02\\n15:04:05Z'
 
     """
-    tkn_lines = mapry.strftime.tokenize(format=a_format)
-
-    parts = []  # type: List[str]
-
-    for i, tkn_line in enumerate(tkn_lines):
-        if i > 0:
-            parts.append('\n')
-
-        for tkn in tkn_line:
-            if tkn.identifier == 'directive':
-                assert tkn.content in _STRFTIME_TO_GO, \
-                    "Unhandled strftime->go mapping for: {}".format(tkn.content)
-
-                parts.append(_STRFTIME_TO_GO[tkn.content])
-            elif tkn.identifier == 'text':
-                parts.append(tkn.content)
+    # Make sure that only the supported directives are used.
+    mapry.strftime.tokenize(format=a_format)
 
-    return ''.join(parts)
+    return mapry.strftime.substitute(
+        format=a_format, substitutes=_STRFTIME_TO_GO)
diff --git a/mapry/strftime.py b/mapry/strftime.py
index 04043d6..43e2465 100644
--- a/mapry/strftime.py
+++ b/mapry/strftime.py
@@ -2,13 +2,15 @@
 import collections
 import re
 from typing import (  # pylint: disable=unused-import
-    List, MutableMapping, Optional)
+    List, Mapping, MutableMapping, Optional)
 
 import lexery
 
+_DIRECTIVE_RE = re.compile(r'%[a-zA-Z%]')
+
 _LEXER = lexery.Lexer(
     rules=[
-        lexery.Rule(identifier='directive', pattern=re.compile(r'%[a-zA-Z%]')),
+        lexery.Rule(identifier='directive', pattern=_DIRECTIVE_RE),
         lexery.Rule(identifier='text', pattern=re.compile(r'[^%]+'))
     ],
     skip_whitespace=False)
@@ -106,6 +108,22 @@ def tokenize(format: str) -> List[List[lexery.Token]]:
     return token_lines
 
 
+def substitute(format: str, substitutes: Mapping[str, str]) -> str:
+    """
+    Substitute the directives in the date/time format.
+
+    :param format: date/time format
+    :param substitutes: directive -> substitute
+    :return: format with the given directives substituted
+
+    >>> substitute(format='%d %%d', substitutes={'%d': '02'})
+    '02 %%d'
+    """
+    # pylint: disable=redefined-builtin
+    return _DIRECTIVE_RE.sub(
+        lambda mtch: substitutes.get(mtch.group(), mtch.group()), format)
+
+
 def validate_date_tokens(token_lines: List[List[lexery.Token]]
                          ) -> Optional[ValueError]:
     """
-- 
2.43.0


From c06d0226b40ac2fdc1d02fb2a10d84399aafee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 07/43] fix: refuse exactly the date/time formats which Go
 reads differently

Elements such as '1', 'Mon' or '.000' were not detected in the text of a
format, neither were the ones arising where text and directives meet.
---
 docs/source/go_specifics.rst |  2 +-
 mapry/go/timeformat.py       | 56 ++++++++++++++++++++++++
 mapry/go/validation.py       | 82 ++++++++++--------------------------
 3 files changed, 80 insertions(+), 60 deletions(-)

diff --git a/docs/source/go_specifics.rst b/docs/source/go_specifics.rst
index d420e7d..33c1f6a 100644
--- a/docs/source/go_specifics.rst
+++ b/docs/source/go_specifics.rst
@@ -210,7 +210,7 @@ a couple of repercussions:
    C/C++ ``ctime`` library).
  * Second, certain parts of the format, while unproblematic in strftime
    directives, cause conflicts in Go. For example, the format
-   ``"Sun goes up: %Y-%m-%d %H:%M:%S"`` will be misinterpreted since ``Sun``
+   ``"Mon goes up: %Y-%m-%d %H:%M:%S"`` will be misinterpreted since ``Mon``
    will be understood as abbreviated weekday in Go. Mapry detects such conflicts
    as soon as you try to generate Go code and raise an error. However, we leave
    it to the user to decide to generate code in other languages even though
diff --git a/mapry/go/timeformat.py b/mapry/go/timeformat.py
index b4ff24e..c0d2a05 100644
--- a/mapry/go/timeformat.py
+++ b/mapry/go/timeformat.py
@@ -1,5 +1,8 @@
 #!/usr/bin/env python3
 """Convert date/time format from strftime directives to Go."""
+import re
+from typing import List, Optional, Tuple  # pylint: disable=unused-import
+
 import mapry.strftime
 
 # Taken from https://github.com/bdotdub/fuckinggodateformat
@@ -45,3 +48,56 @@ def convert(a_format: str) -> str:
 
     return mapry.strftime.substitute(
         format=a_format, substitutes=_STRFTIME_TO_GO)
+
+
+# Elements of a layout as Go recognizes them from left to right
+# (see ``nextStdChunk`` in the package ``time``)
+_GO_ELEMENT_RE = re.compile(
+    r'January|Jan(?![a-z])|Monday|Mon(?![a-z])|MST'
+    r'|0[1-6]|002|15|1|2006|2|_2(?!006)|__2|3|4|5|PM|pm'
+    r'|-070000|-07:00:00|-0700|-07:00|-07'
+    r'|Z070000|Z07:00:00|Z0700|Z07:00|Z07'
+    r'|[.,](?:0+|9+)(?![0-9])')
+
+# Go reads digits after the seconds as their fraction even if there is none in
+# the layout.
+_GO_FRACTION_RE = re.compile(r'05[.,](?:[0-9]|_2(?!006))')
+
+
+def find_conflict(a_format: str) -> Optional[str]:
+    """
+    Look for a part of the format which Go would read differently.
+
+    :param a_format: strftime/strptime directives
+    :return: the conflicting part of the corresponding Go layout, if any
+
+    >>> find_conflict(a_format='%Y-%m-%d') is None
+    True
+
+    >>> find_conflict(a_format='at 5 on %Y-%m-%d')
+    '5'
+
+    >>> find_conflict(a_format='%bs %d')
+    'Jan'
+
+    >>> find_conflict(a_format='%H:%M:%S.%d')
+    '05.0'
+    """
+    expected = []  # type: List[Tuple[int, str]]
+    layout = ''
+    for part in re.split('(%[a-zA-Z%])', a_format):
+        converted = _STRFTIME_TO_GO.get(part, part)
+        if part in _STRFTIME_TO_GO and part != '%%':
+            expected.append((len(layout), converted))
+        layout += converted
+
+    got = [
+        (mtch.start(), mtch.group())
+        for mtch in _GO_ELEMENT_RE.finditer(layout)
+    ]
+
+    if got == expected:
+        mtch = _GO_FRACTION_RE.search(layout)
+        return mtch.group() if mtch is not None else None
+
+    return min(set(got).symmetric_difference(expected))[1]
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index a3d2be3..28bf2f1 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -3,8 +3,8 @@ from typing import (  # pylint: disable=unused-import
     Dict, List, Mapping, MutableMapping)
 
 import mapry
+import mapry.go.timeformat
 import mapry.naming
-import mapry.strftime
 import mapry.validation
 
 _KEYWORDS = {
@@ -230,32 +230,6 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
-# yapf: disable
-_GO_TIME_FORMAT_DIRECTIVES = [
-    'Sunday',
-    'Sun',
-    'January',
-    'Jan',
-    '02',
-    '_2',
-    '01',
-    '2006',
-    '06',
-    '15',
-    '03',
-    '3',
-    '04',
-    'pm',
-    'PM',
-    '05',
-    '-0700',
-    'MST'
-]
-
-
-# yapf: enable
-
-
 def _validate_date_time_formats(graph: mapry.Graph
                                 ) -> List[mapry.validation.SchemaError]:
     """
@@ -274,38 +248,28 @@ def _validate_date_time_formats(graph: mapry.Graph
     # yapf: enable
 
     for a_type, ref in date_time_types:
-        tkn_lines = mapry.strftime.tokenize(format=a_type.format)
-
-        # yapf: disable
-        text_tkns = [
-            tkn
-            for tkn_line in tkn_lines
-            for tkn in tkn_line
-            if tkn.identifier == 'text'
-        ]
-        # yapf: enable
-
-        for tkn in text_tkns:
-            for directive in _GO_TIME_FORMAT_DIRECTIVES:
-                if directive in tkn.content:
-                    if isinstance(a_type, mapry.Date):
-                        type_str = 'Date'
-                    elif isinstance(a_type, mapry.Datetime):
-                        type_str = 'Date/time'
-                    elif isinstance(a_type, mapry.Time):
-                        type_str = 'Time'
-                    else:
-                        raise NotImplementedError(
-                            "Unhandled mapry type: {}".format(type(a_type)))
-
-                    errs.append(
-                        mapry.validation.SchemaError(
-                            message=(
-                                '{} format contains a conflicting '
-                                'Go time.Format directive {}: {}').format(
-                                    type_str, directive, a_type.format),
-                            ref=ref))
-                    break
+        directive = mapry.go.timeformat.find_conflict(a_format=a_type.format)
+        if directive is None:
+            continue
+
+        if isinstance(a_type, mapry.Date):
+            type_str = 'Date'
+        elif isinstance(a_type, mapry.Datetime):
+            type_str = 'Date/time'
+        elif isinstance(a_type, mapry.Time):
+            type_str = 'Time'
+        else:
+            raise NotImplementedError(
+                "Unhandled mapry type: {}".format(type(a_type)))
+
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    '{} format contains a conflicting '
+                    'Go time.Format directive {}: {}').format(
+                        type_str, directive, a_type.format),
+                ref=ref))
+
     return errs
 
 
-- 
2.43.0


From 98feed4d19042b793a0e5d43cca86b291f4dbb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 08/43] fix: parse %e, %l and %P in Python

The function strptime of Python does not know them, so generated Python code
rejected every text of such a format. Moreover, strftime padded %l with
a blank though it should be written without a leading zero or blank.
---
 mapry/py/generate/__init__.py     | 33 +++++++++++++++++++++++++++++++
 mapry/py/generate/fromjsonable.py |  6 +++---
 mapry/py/generate/tojsonable.py   |  5 +++--
 mapry/py/jinja2_env.py            |  2 ++
 4 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index afc60df..60f1ece 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -8,6 +8,7 @@ from icontract import ensure, require
 
 import mapry
 import mapry.py.naming
+import mapry.strftime
 
 WARNING = "# File automatically generated by mapry. DO NOT EDIT OR APPEND!"
 
@@ -61,6 +62,38 @@ def escaped_fmt(text: str) -> str:
     return text.replace('{', '{{').replace('}', '}}')
 
 
+def strptime_fmt(text: str) -> str:
+    """
+    Convert the date/time format so that strptime can parse it.
+
+    :param text: date/time format
+    :return: format with the directives which are not available in strptime
+        replaced by the equivalent ones
+
+    >>> strptime_fmt(text='%e.%m. %l %P')
+    '%d.%m. %I %p'
+    """
+    return mapry.strftime.substitute(
+        format=text, substitutes={
+            '%e': '%d',
+            '%l': '%I',
+            '%P': '%p'
+        })
+
+
+def strftime_fmt(text: str) -> str:
+    """
+    Convert the date/time format so that strftime writes it as specified.
+
+    :param text: date/time format
+    :return: format with ``%l``, which strftime pads with a blank, replaced
+
+    >>> strftime_fmt(text='%l:%M %P')
+    '%-I:%M %P'
+    """
+    return mapry.strftime.substitute(format=text, substitutes={'%l': '%-I'})
+
+
 def type_repr(a_type: mapry.Type, py: mapry.Py) -> str:
     """
     Generate the Python type representation of the given mapry type.
diff --git a/mapry/py/generate/fromjsonable.py b/mapry/py/generate/fromjsonable.py
index 3fbd7a8..d29c4bd 100644
--- a/mapry/py/generate/fromjsonable.py
+++ b/mapry/py/generate/fromjsonable.py
@@ -604,7 +604,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }}
+            {{ a_type.format|strptime_fmt|repr }}
         ).date()
     except ValueError:
         errors.add(
@@ -663,7 +663,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }})
+            {{ a_type.format|strptime_fmt|repr }})
     except ValueError:
         errors.add(
             '/'.join((
@@ -721,7 +721,7 @@ else:
     try:
         {{ target_expr }} = datetime.datetime.strptime(
             {{ value }},
-            {{ a_type.format|repr }}
+            {{ a_type.format|strptime_fmt|repr }}
         ).time()
     except ValueError:
         errors.add(
diff --git a/mapry/py/generate/tojsonable.py b/mapry/py/generate/tojsonable.py
index bf87884..0156107 100644
--- a/mapry/py/generate/tojsonable.py
+++ b/mapry/py/generate/tojsonable.py
@@ -138,7 +138,7 @@ _SERIALIZE_DATE_TIME_TPL = mapry.py.jinja2_env.ENV.from_string(
     '''\
 {% if dt_format %}
 {{ target_expr }} = {{ value_expr }}.strftime(
-    {{ dt_format|repr }})
+    {{ dt_format|strftime_fmt|repr }})
 {% else %}
 {{ target_expr }} = ""
 {% endif %}{# /if dt_format #}
@@ -391,7 +391,8 @@ def _serialization_expr(value_expr: str, a_type: mapry.Type,
 
     elif isinstance(a_type, (mapry.Date, mapry.Datetime, mapry.Time)):
         result = '{value_expr}.strftime({dt_format!r})'.format(
-            value_expr=value_expr, dt_format=a_type.format)
+            value_expr=value_expr,
+            dt_format=mapry.py.generate.strftime_fmt(a_type.format))
 
     elif isinstance(a_type, mapry.TimeZone):
         if py.timezone_as == 'str':
diff --git a/mapry/py/jinja2_env.py b/mapry/py/jinja2_env.py
index 4b1850e..c541358 100644
--- a/mapry/py/jinja2_env.py
+++ b/mapry/py/jinja2_env.py
@@ -22,6 +22,8 @@ ENV.filters.update({
     'as_docstring': mapry.py.generate.docstring,
     'repr': repr,
     're_literal': mapry.py.generate.re_literal,
+    'strptime_fmt': mapry.py.generate.strptime_fmt,
+    'strftime_fmt': mapry.py.generate.strftime_fmt,
     'escaped_fmt': mapry.py.generate.escaped_fmt,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.py.expr.is_variable,
-- 
2.43.0


From 1dbe991237d4617262e0627933bc524e3cabfb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:35 +0000
Subject: [PATCH 09/43] fix: parse %P and write %l as specified in C++

The function strptime of glibc does not know %P, and strftime pads %l with
a blank though it should be written without a leading zero or blank.
---
 mapry/cpp/generate/__init__.py     | 28 ++++++++++++++++++++++++++++
 mapry/cpp/generate/jsoncpp_impl.py |  4 ++--
 mapry/cpp/jinja2_env.py            |  2 ++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 7e37be1..2973261 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -4,6 +4,7 @@ from typing import List
 
 import mapry
 import mapry.cpp.naming
+import mapry.strftime
 
 WARNING = "// File automatically generated by mapry. DO NOT EDIT OR APPEND!"
 
@@ -118,6 +119,33 @@ def type_repr(a_type: mapry.Type, cpp: mapry.Cpp) -> str:
             "Unhandled C++ represenation of a type: {}".format(type(a_type)))
 
 
+def strptime_fmt(text: str) -> str:
+    """
+    Convert the date/time format so that ``strptime`` of ctime can parse it.
+
+    :param text: date/time format
+    :return: format with the directive which is not available in strptime
+        replaced by the equivalent one
+
+    >>> strptime_fmt(text='%I:%M %P')
+    '%I:%M %p'
+    """
+    return mapry.strftime.substitute(format=text, substitutes={'%P': '%p'})
+
+
+def strftime_fmt(text: str) -> str:
+    """
+    Convert the date/time format so that ``strftime`` writes it as specified.
+
+    :param text: date/time format
+    :return: format with ``%l``, which strftime pads with a blank, replaced
+
+    >>> strftime_fmt(text='%l:%M %P')
+    '%-I:%M %P'
+    """
+    return mapry.strftime.substitute(format=text, substitutes={'%l': '%-I'})
+
+
 def escaped_str(text: str) -> str:
     r"""
     Convert the ``text`` into a C++ escaped string.
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 6580f1a..d450224 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -944,7 +944,7 @@ if (!{{ value }}.isString()) {
     struct tm tm_{{ uid }} = tm{0};
     char* ret_{{ uid }} = strptime(
         cast_{{ uid }}.c_str(),
-        {{ a_type.format|escaped_str }},
+        {{ a_type.format|strptime_fmt|escaped_str }},
         &tm_{{ uid }});
 
     if (ret_{{ uid }} == nullptr or *ret_{{ uid }} != '\\0') {
@@ -2323,7 +2323,7 @@ _SERIALIZE_CTIME_TPL = mapry.cpp.jinja2_env.ENV.from_string(
 {% if dt_format %}
 {{ target_expr }} = tm_to_string(
     {{ value_expr }},
-    {{ dt_format|escaped_str }});
+    {{ dt_format|strftime_fmt|escaped_str }});
 {% else %}
 {{ target_expr }} = "";
 {% endif %}{# /if dt_format #}
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index eff190f..76eea58 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -20,6 +20,8 @@ ENV.filters.update({
     'as_variable': mapry.cpp.naming.as_variable,
     'as_composite': mapry.cpp.naming.as_composite,
     'comment': mapry.cpp.generate.comment,
+    'strptime_fmt': mapry.cpp.generate.strptime_fmt,
+    'strftime_fmt': mapry.cpp.generate.strftime_fmt,
     'escaped_str': mapry.cpp.generate.escaped_str,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
-- 
2.43.0


From fcf7b8880d886c3502d45a2cfb95005ae3afa370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 10/43] fix: check the names of a schema up to their end

Only the beginning of the names of graphs, embeddable structures and Go packages
was checked, and all the other names could end in a line break.
---
 mapry/schemas.py    | 18 +++++++++---------
 mapry/validation.py |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index 1807539..4e1ea80 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -10,7 +10,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the object graph.",
-                    "pattern": "^[A-Z][A-Za-z0-9]*"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "description": {
                     "type": "string",
@@ -63,7 +63,7 @@ GRAPH = {
                     "description":
                     "indicates the namespace of the generated code.",
                     "pattern":
-                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    "^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*\\Z"
                 },
                 "path_as": {
                     "type": "string",
@@ -97,7 +97,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code."
                     "Defaults to two spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*\\Z"
                 }
             },
             "required":
@@ -112,7 +112,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "indicates the package of the generated code.",
-                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*"
+                    "pattern": "^[a-zA-Z][a-zA-Z0-9_]*\\Z"
                 }
             },
             "required": ["package"],
@@ -129,7 +129,7 @@ GRAPH = {
                     "specifies the fully qualified base module name "
                     "of the generated code.",
                     "pattern":
-                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*$"
+                    r"^[a-zA-Z][a-zA-Z0-9_]*(\.[a-zA-Z][a-zA-Z0-9_]*)*\Z"
                 },
                 "path_as": {
                     "type": "string",
@@ -148,7 +148,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code. "
                     "Defaults to four spaces.",
-                    "pattern": "^[ \t]*$"
+                    "pattern": "^[ \t]*\\Z"
                 }
             },
             "required": ['module_name', 'path_as', 'timezone_as'],
@@ -162,7 +162,7 @@ GRAPH = {
                 "name": {
                     "type": "string",
                     "description": "gives the name of the class in Snake_case.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "description": {
                     "type": "string",
@@ -175,7 +175,7 @@ GRAPH = {
                     "description":
                     "gives the plural of the class in Snake_case. "
                     "If omitted, automatically inferred.",
-                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "id_pattern": {
                     "type":
@@ -203,7 +203,7 @@ GRAPH = {
                     "type": "string",
                     "description":
                     "gives the name of the embeddable data structure.",
-                    "pattern": "^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?"
+                    "pattern": "^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\\Z"
                 },
                 "description": {
                     "description": "describes the embeddable data structure "
diff --git a/mapry/validation.py b/mapry/validation.py
index 6b3c491..57b6f6e 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -101,7 +101,7 @@ def _validate_class(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
     return errs
 
 
-_PROPERTY_RE = re.compile(r'^[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?$')
+_PROPERTY_RE = re.compile(r'^[a-zA-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?\Z')
 _NONCOMPOSITE_TYPE_SET = {
     'boolean', 'integer', 'float', 'string', 'path', 'date', 'time', 'datetime',
     'duration', 'time_zone', 'array', 'map'
-- 
2.43.0


From e2a0002cf3791d38bf10bf33e0bbcb62e3d3d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 11/43] fix: refuse values without a type and properties of the
 graph's type

Both passed the validation and resulted in exceptions other than schema
errors.
---
 mapry/validation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index 57b6f6e..cd3104c 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -419,7 +419,11 @@ def _validate_type_recursively(
                         "in the definition, but got {}").format(keys[1]),
                     ref='{}/description'.format(ref))
 
-    if mapping['type'] not in types:
+    if 'type' not in mapping:
+        return SchemaError(
+            message="Expected 'type' in the type definition", ref=ref)
+
+    if not isinstance(mapping['type'], str) or mapping['type'] not in types:
         return SchemaError(
             message="Invalid type: {}".format(mapping['type']),
             ref='{}/type'.format(ref))
@@ -665,7 +669,7 @@ def validate(mapping: Mapping[str, Any], ref: str) -> List[SchemaError]:
 
     # Validate properties of the classes and embeds
     types = _NONCOMPOSITE_TYPE_SET.copy()
-    types.update(name_set)
+    types.update(name_set - {mapping['name']})
 
     # Check that the graph properties are valid
     errors.extend(_validate_properties(mapping=mapping, ref=ref, types=types))
-- 
2.43.0


From 8883a95092c9273be585790d5a38d618e4bbd678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 12/43] fix: refuse properties and registries with the same
 JSON name

Their values would overwrite each other in the JSON of a graph.
---
 mapry/validation.py | 58 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/mapry/validation.py b/mapry/validation.py
index cd3104c..f42406e 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -534,7 +534,21 @@ def _validate_properties(mapping: Mapping[str, Any], ref: str,
     if 'properties' not in mapping:
         return []
 
+    json_names = dict()  # type: Dict[str, str]
+
     for name, property_mapping in mapping['properties'].items():
+        json_name = property_mapping.get('json', name)
+        if json_name in json_names:
+            errs.append(
+                SchemaError(
+                    message=(
+                        "The JSON name {!r} conflicts with "
+                        "the property {!r}").format(
+                            json_name, json_names[json_name]),
+                    ref="{}/properties/{}/json".format(ref, name)))
+        else:
+            json_names[json_name] = name
+
         if not _PROPERTY_RE.match(name):
             errs.append(
                 SchemaError(
@@ -566,12 +580,11 @@ def _validate_plurals(mapping: Mapping[str, Any],
     if 'classes' not in mapping:
         return []
 
-    if 'properties' not in mapping:
-        return []
+    errs = []  # type: List[SchemaError]
 
     registry_property_to_class_name = dict()  # type: Dict[str, str]
 
-    for cls_mapping in mapping['classes']:
+    for i, cls_mapping in enumerate(mapping['classes']):
         if 'plural' in cls_mapping:
             plural = cls_mapping['plural']
         else:
@@ -584,10 +597,24 @@ def _validate_plurals(mapping: Mapping[str, Any],
             plural = mapry.naming.plural(identifier=cls_mapping['name'])
 
         plural_as_property = mapry.naming.json_plural(a_plural=plural)
+        other_class_name = registry_property_to_class_name.get(
+            plural_as_property, cls_mapping['name'])
+        if other_class_name != cls_mapping['name']:
+            errs.append(
+                SchemaError(
+                    message=(
+                        'The registry {!r} of class {!r} conflicts with '
+                        'the registry of class {!r}').format(
+                            plural_as_property, cls_mapping['name'],
+                            other_class_name),
+                    ref='{}/classes/{}/plural'.format(ref, i)))
+            continue
+
         registry_property_to_class_name[plural_as_property] = (
             cls_mapping['name'])
 
-    errs = []  # type: List[SchemaError]
+    if 'properties' not in mapping:
+        return errs
 
     if isinstance(mapping['properties'], collections.OrderedDict):
         property_names = list(mapping['properties'].keys())
@@ -595,15 +622,20 @@ def _validate_plurals(mapping: Mapping[str, Any],
         property_names = sorted(mapping['properties'].keys())
 
     for property_name in property_names:
-        if property_name in registry_property_to_class_name:
-            errs.append(
-                SchemaError(
-                    message=(
-                        'Graph property {!r} conflicts with the plural '
-                        'necessary for the registry of class {!r}').format(
-                            property_name,
-                            registry_property_to_class_name[property_name]),
-                    ref='{}/{}'.format(ref, property_name)))
+        json_name = mapping['properties'][property_name].get(
+            'json', property_name)
+
+        for name in (property_name, json_name):
+            if name in registry_property_to_class_name:
+                errs.append(
+                    SchemaError(
+                        message=(
+                            'Graph property {!r} conflicts with the plural '
+                            'necessary for the registry of class {!r}').format(
+                                property_name,
+                                registry_property_to_class_name[name]),
+                        ref='{}/{}'.format(ref, property_name)))
+                break
 
     return errs
 
-- 
2.43.0


From 1e3ae0c9eaaeed7171423b9ee205c58793bb7177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 13/43] fix: keep the leading words in irregular plurals

---
 mapry/naming.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index cca62be..e7a6742 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -70,12 +70,15 @@ def plural(identifier: str) -> str:
     >>> plural(identifier='Focus')
     'Foci'
 
+    >>> plural(identifier='Some_focus')
+    'Some_foci'
+
     """
     parts = split_identifier(identifier=identifier)
     last_part = parts[-1]
 
     if last_part in PLURAL_TABLE:
-        return PLURAL_TABLE[last_part]
+        return '_'.join(parts[:-1] + [PLURAL_TABLE[last_part]])
 
     if (last_part.endswith('ay') or last_part.endswith('ey')
             or last_part.endswith('iy') or last_part.endswith('oy')
-- 
2.43.0


From 5b07b898c557b11f81ea47f4e0fb018d3f872cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 14/43] fix: put names with successive underscores in camel
 case

---
 mapry/naming.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mapry/naming.py b/mapry/naming.py
index e7a6742..ff4cd14 100644
--- a/mapry/naming.py
+++ b/mapry/naming.py
@@ -136,6 +136,9 @@ def camel_case(identifier: str) -> str:
     >>> result = camel_case('IDs_of_URLs')
     >>> assert result == "idsOfURLs"
 
+    >>> result = camel_case('some__block')
+    >>> assert result == "someBlock"
+
     """
     parts = split_identifier(identifier=identifier)
 
@@ -143,7 +146,7 @@ def camel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0].lower())
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
 
@@ -172,6 +175,9 @@ def ucamel_case(identifier: str) -> str:
 
     >>> result = ucamel_case('IDs_of_URLs')
     >>> assert result == 'IDsOfURLs'
+
+    >>> result = ucamel_case('some__block')
+    >>> assert result == 'SomeBlock'
     """
     parts = split_identifier(identifier=identifier)
 
@@ -179,6 +185,6 @@ def ucamel_case(identifier: str) -> str:
     camel_case_parts.append(parts[0][0].upper() + parts[0][1:])
 
     for part in parts[1:]:
-        camel_case_parts.append(part[0].upper() + part[1:])
+        camel_case_parts.append(part[:1].upper() + part[1:])
 
     return ''.join(camel_case_parts)
-- 
2.43.0


From 773a04552567e1e143825a801623d218f8b09603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 15/43] fix: refuse exclusive bounds without an integer in
 between

---
 mapry/validation.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index f42406e..69f4b29 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -162,6 +162,14 @@ def _validate_integer(mapping: Mapping[str, Any],
                         "minimum (== {}) == maximum and "
                         "both are set to exclusive").format(minimum),
                     ref=ref)
+
+            if minimum + 1 == maximum:
+                return SchemaError(
+                    message=(
+                        "no integer between minimum (== {}) and "
+                        "maximum (== {}), both set to exclusive").format(
+                            minimum, maximum),
+                    ref=ref)
         elif not excl_min and excl_max:
             if minimum == maximum:
                 return SchemaError(
-- 
2.43.0


From 56bd144f3d05f9245c90768212744dd648e8f0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 16/43] fix: write the generated files all in UTF-8 or none

---
 mapry/main.py  | 31 +++++++++++++++++++++----------
 mapry/parse.py |  2 +-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/mapry/main.py b/mapry/main.py
index 8410d75..e2fc3ed 100644
--- a/mapry/main.py
+++ b/mapry/main.py
@@ -5,7 +5,7 @@ import argparse
 import collections
 import pathlib
 import sys
-from typing import Optional  # pylint: disable=unused-import
+from typing import Mapping, Optional  # pylint: disable=unused-import
 
 import icontract
 
@@ -33,6 +33,23 @@ import mapry.py.generate.types
 import mapry.py.validation
 
 
+def _write_files(
+        outdir: pathlib.Path, filename_to_code: Mapping[str, str]) -> None:
+    """
+    Write the files to the output directory.
+
+    Nothing is written if some of the files can not be encoded.
+
+    :param outdir: output directory where generated files should be stored
+    :param filename_to_code: code to be written to the individual files
+    """
+    encoded = [(outdir / filename, code.encode('utf-8'))
+               for filename, code in filename_to_code.items()]
+
+    for pth, data in encoded:
+        pth.write_bytes(data)
+
+
 @icontract.require(lambda outdir: outdir.exists())
 def generate_cpp(schema: mapry.Schema, outdir: pathlib.Path) -> int:
     """
@@ -77,9 +94,7 @@ def generate_cpp(schema: mapry.Schema, outdir: pathlib.Path) -> int:
     ])
     # yapf: enable
 
-    for filename, code in filename_to_code.items():
-        pth = outdir / filename
-        pth.write_text(code)
+    _write_files(outdir=outdir, filename_to_code=filename_to_code)
 
     print('Files generated in: {}'.format(outdir))
 
@@ -130,9 +145,7 @@ def generate_go(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     outdir.mkdir(exist_ok=True, parents=True)
 
-    for filename, code in filename_to_code.items():
-        pth = outdir / filename
-        pth.write_text(code)
+    _write_files(outdir=outdir, filename_to_code=filename_to_code)
 
     print('Files generated in: {}'.format(outdir))
 
@@ -181,9 +194,7 @@ def generate_py(schema: mapry.Schema, outdir: pathlib.Path) -> int:
 
     outdir.mkdir(exist_ok=True, parents=True)
 
-    for filename, code in filename_to_code.items():
-        pth = outdir / filename
-        pth.write_text(code)
+    _write_files(outdir=outdir, filename_to_code=filename_to_code)
 
     print('Files generated in: {}'.format(outdir))
 
diff --git a/mapry/parse.py b/mapry/parse.py
index dc8add9..9332cb9 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -403,7 +403,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
     :param path: to the JSON-encoded mapry schema.
     :return: parsed schema
     """
-    with path.open('rt') as fid:
+    with path.open('rt', encoding='utf-8') as fid:
         jsonerr = None  # type: Optional[json.JSONDecodeError]
 
         try:
-- 
2.43.0


From e066e515e5831623243cb9b3dc9c5317da2ab862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 17/43] fix: report where JSON of a schema ends unexpectedly

---
 mapry/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/parse.py b/mapry/parse.py
index 9332cb9..6e54ef6 100644
--- a/mapry/parse.py
+++ b/mapry/parse.py
@@ -413,7 +413,7 @@ def schema_from_json_file(path: pathlib.Path) -> mapry.Schema:
             jsonerr = err
 
         if jsonerr is not None:
-            lines = path.read_text().splitlines()
+            lines = path.read_text(encoding='utf-8').split('\n')
             line = lines[jsonerr.lineno - 1]
 
             if len(line) <= 120:
-- 
2.43.0


From e264028a8e3085ec96933bf9eb1b73364145d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 18/43] fix: keep C++ comments from continuing on the next line

---
 mapry/cpp/generate/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 2973261..43e9282 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -18,7 +18,11 @@ def comment(text: str) -> str:
     """
     comment_lines = []  # type: List[str]
     for line in text.splitlines():
-        if line.strip():
+        if line.rstrip().endswith(('\\', '??/')):
+            # A backslash (or its trigraph) at the end of the line would
+            # continue the comment on the next line of the code.
+            comment_lines.append('// {} .'.format(line.rstrip()))
+        elif line.strip():
             comment_lines.append('// {}'.format(line))
         else:
             comment_lines.append('//')
-- 
2.43.0


From 3f5e9e9910fd6f95eae6c662ad18d9af40761877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 19/43] fix: drop characters which Go and Python sources must
 not contain

---
 mapry/go/generate/__init__.py | 4 ++++
 mapry/py/generate/__init__.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 0e31ec4..23baa1e 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -19,6 +19,10 @@ def comment(text: str) -> str:
     :param text: of the comment
     :return: non-indented comment
     """
+    # Go source code must contain neither a NUL nor, except at the beginning of
+    # the file, a byte order mark.
+    text = text.replace('\x00', '').replace('\ufeff', '')
+
     comment_lines = []  # type: List[str]
     for line in text.splitlines():
         if line.strip():
diff --git a/mapry/py/generate/__init__.py b/mapry/py/generate/__init__.py
index 60f1ece..20ede4e 100644
--- a/mapry/py/generate/__init__.py
+++ b/mapry/py/generate/__init__.py
@@ -181,6 +181,9 @@ def docstring(text: str) -> str:
     :param text: text of the docstring
     :return: Python string literal
     """
+    # Python source code must not contain NULs.
+    text = text.replace('\x00', '')
+
     has_backslash = '\\' in text
     has_triple_quote = '"""' in text
 
-- 
2.43.0


From 4cd81365e9e382b317ba914e34a4859cfec009cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:57 +0000
Subject: [PATCH 20/43] fix: refuse composites with the same identifier as the
 object graph

---
 mapry/cpp/validation.py | 2 +-
 mapry/go/validation.py  | 2 +-
 mapry/py/validation.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 191e56e..7c127a6 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -214,7 +214,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.cpp.naming.as_composite(identifier=cls.name)
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 28bf2f1..2934d77 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -294,7 +294,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.naming.ucamel_case(identifier=cls.name)
diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 66e215a..be80322 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -203,7 +203,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
-        name_to_composite[graph_name] = schema.graph
+    name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
         cls_name = mapry.py.naming.as_composite(identifier=cls.name)
-- 
2.43.0


From 5fa91ebae73ec338a4e113e4e7eafbb079b8c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 21/43] fix: report Go structs which conflict with names
 reserved for mapry

---
 mapry/go/validation.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 2934d77..5d4e10a 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -182,7 +182,8 @@ def _validate_graph_fields(graph: mapry.Graph
             registry_field_map[plural_field] = cls
 
     reserved_type_names = {
-        'Errors', '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
+        'Error', 'Errors', 'NewErrors',
+        '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
         '{}ToJSONable'.format(mapry.naming.ucamel_case(graph.name))
     }
 
@@ -201,31 +202,34 @@ def _validate_graph_fields(graph: mapry.Graph
     for cls in graph.classes.values():
         cls_name = mapry.naming.ucamel_case(cls.name)
         if cls_name in reserved_type_names:
-            mapry.validation.SchemaError(
-                message=(
-                    "The Go struct identifier {!r} "
-                    "conflicts with the name reserved for mapry."
-                ).format(cls_name),
-                ref=cls.ref)
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(cls_name),
+                    ref=cls.ref))
 
     for embed in graph.embeds.values():
         embed_name = mapry.naming.ucamel_case(embed.name)
         if embed_name in reserved_type_names:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Go struct identifier {!r} "
+                        "conflicts with the name reserved for mapry."
+                    ).format(embed_name),
+                    ref=embed.ref))
+
+    graph_name = mapry.naming.ucamel_case(graph.name)
+    if graph_name in reserved_type_names:
+        errs.append(
             mapry.validation.SchemaError(
                 message=(
                     "The Go struct identifier {!r} "
                     "conflicts with the name reserved for mapry."
-                ).format(embed_name),
-                ref=embed.ref)
-
-    graph_name = mapry.naming.ucamel_case(graph.name)
-    if graph_name in reserved_type_names:
-        mapry.validation.SchemaError(
-            message=(
-                "The Go struct identifier {!r} "
-                "conflicts with the name reserved for mapry."
-            ).format(graph_name),
-            ref=graph.ref)
+                ).format(graph_name),
+                ref=graph.ref))
 
     return errs
 
-- 
2.43.0


From 1c1b141313fffc6b538ec335a3e3c34bdd4246c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 22/43] fix: compile Go code of object graphs without
 properties and classes

---
 mapry/go/generate/fromjsonable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index ba4181c..2f582aa 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -1641,7 +1641,11 @@ func {{ graph.name|ucamel_case }}FromJSONable(
         panic("unexpected non-empty errors")
     }
 
+    {% if graph.classes or property_parsings %}
     cast, ok := value.(map[string]interface{})
+    {% else %}
+    _, ok := value.(map[string]interface{})
+    {% endif %}{# /if graph.classes or property_parsings #}
     if !ok {
         errors.Add(
             ref,
-- 
2.43.0


From e8e2f0feef398c9776d8ecab2a7557249284fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:54 +0000
Subject: [PATCH 23/43] fix: refuse Go packages and registries with reserved or
 clashing names

---
 mapry/go/validation.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 5d4e10a..c803beb 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -140,6 +140,7 @@ def _validate_graph_fields(graph: mapry.Graph
 
     property_field_map = {field.name: field for field in fields}
     registry_field_map = dict()  # type: MutableMapping[str, mapry.Class]
+    registry_variable_map = dict()  # type: MutableMapping[str, mapry.Class]
 
     for cls in graph.classes.values():
         plural_field = mapry.naming.ucamel_case(identifier=cls.plural)
@@ -181,6 +182,24 @@ def _validate_graph_fields(graph: mapry.Graph
         else:
             registry_field_map[plural_field] = cls
 
+            # The registries are also referred to by variables.
+            plural_variable = mapry.naming.camel_case(identifier=cls.plural)
+            if plural_variable in registry_variable_map:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The Go variable identifier {!r} corresponding "
+                            "to the registry of the class {!r} in the object "
+                            "graph conflicts with the Go variable "
+                            "corresponding to another registry of "
+                            "the class {!r} ({})").format(
+                                plural_variable, cls.name,
+                                registry_variable_map[plural_variable].name,
+                                registry_variable_map[plural_variable].ref),
+                        ref=cls.ref))
+            else:
+                registry_variable_map[plural_variable] = cls
+
     reserved_type_names = {
         'Error', 'Errors', 'NewErrors',
         '{}FromJSONable'.format(mapry.naming.ucamel_case(graph.name)),
@@ -288,6 +307,15 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs = []  # type: List[mapry.validation.SchemaError]
 
+    if schema.go is not None:
+        # Go ignores the files of the package "documentation".
+        if schema.go.package in _KEYWORDS | {'documentation'}:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message="The package name {!r} is reserved in Go".format(
+                        schema.go.package),
+                    ref='{}/go/package'.format(schema.graph.ref)))
+
     graph_name = mapry.naming.ucamel_case(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
-- 
2.43.0


From 928d824d932543a1bf3f1d3b30b30431f30fc128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:19 +0000
Subject: [PATCH 24/43] fix: refuse embeddables which contain themselves by
 value

---
 mapry/cpp/validation.py | 38 +++++++++++++++++++++++++++++++++++++-
 mapry/go/validation.py  | 39 ++++++++++++++++++++++++++++++++++++++-
 2 files changed, 75 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 7c127a6..e55e319 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -1,6 +1,6 @@
 """Validate that the C++ code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Set)
 
 import mapry
 import mapry.cpp
@@ -118,6 +118,33 @@ def _validate_class_fields(a_class: mapry.Class
     return errs
 
 
+def _contains_itself(embed: mapry.Embed) -> bool:
+    """
+    Check whether the embeddable structure contains itself by value.
+
+    Optional properties matter as well, since C++ stores them in place.
+
+    :param embed: definition of an embeddable structure
+    :return: True if the C++ structure would be infinitely large
+    """
+    visited = set()  # type: Set[str]
+    stack = [embed]
+
+    while stack:
+        for prop in stack.pop().properties.values():
+            if not isinstance(prop.type, mapry.Embed):
+                continue
+
+            if prop.type is embed:
+                return True
+
+            if prop.type.name not in visited:
+                visited.add(prop.type.name)
+                stack.append(prop.type)
+
+    return False
+
+
 def _validate_embed_fields(embed: mapry.Embed
                            ) -> List[mapry.validation.SchemaError]:
     """
@@ -274,6 +301,15 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
         # Check that the fields are valid
         errs.extend(_validate_embed_fields(embed=embed))
 
+        if _contains_itself(embed=embed):
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The embeddable structure {!r} contains itself, "
+                        "but C++ structures have a finite size").format(
+                            embed.name),
+                    ref=embed.ref))
+
     # Check the fields of the object graph (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index c803beb..956a957 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -1,6 +1,6 @@
 """Validate that the Go code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping)
+    Dict, List, Mapping, MutableMapping, Set)
 
 import mapry
 import mapry.go.timeformat
@@ -109,6 +109,34 @@ def _validate_class_fields(a_class: mapry.Class
     return errs
 
 
+def _contains_itself(embed: mapry.Embed) -> bool:
+    """
+    Check whether the embeddable structure contains itself by value.
+
+    Only the mandatory properties matter, since Go refers to the optional ones
+    by pointers.
+
+    :param embed: definition of an embeddable structure
+    :return: True if the Go structure would be infinitely large
+    """
+    visited = set()  # type: Set[str]
+    stack = [embed]
+
+    while stack:
+        for prop in stack.pop().properties.values():
+            if not isinstance(prop.type, mapry.Embed) or prop.optional:
+                continue
+
+            if prop.type is embed:
+                return True
+
+            if prop.type.name not in visited:
+                visited.add(prop.type.name)
+                stack.append(prop.type)
+
+    return False
+
+
 def _validate_embed_fields(embed: mapry.Embed
                            ) -> List[mapry.validation.SchemaError]:
     """
@@ -386,6 +414,15 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
         # Check that the field names are valid
         errs.extend(_validate_embed_fields(embed=embed))
 
+        if _contains_itself(embed=embed):
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The embeddable structure {!r} contains itself, "
+                        "but Go structures have a finite size").format(
+                            embed.name),
+                    ref=embed.ref))
+
     # Check that the field names of the object graph are valid
     # (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
-- 
2.43.0


From d4d8b48959753e4cc695e72ce91d411317a5b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 25/43] fix: refuse names which became keywords of Python

---
 mapry/py/validation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index be80322..cbc3866 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -7,10 +7,10 @@ import mapry.py.naming
 import mapry.validation
 
 _KEYWORDS = {
-    'False', 'None', 'True', 'and', 'as', 'assert', 'break', 'class',
-    'continue', 'def', 'del', 'elif', 'else', 'except', 'finally', 'for',
-    'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal', 'not',
-    'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
+    'False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await', 'break',
+    'class', 'continue', 'def', 'del', 'elif', 'else', 'except', 'finally',
+    'for', 'from', 'global', 'if', 'import', 'in', 'is', 'lambda', 'nonlocal',
+    'not', 'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'
 }
 
 
-- 
2.43.0


From 33bd1dc14bee4ddd7b7a4a9e0c53a16ccc63c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 26/43] fix: refuse attributes which shadow names in Python
 constructors

---
 mapry/py/validation.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index cbc3866..2355991 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -70,6 +70,15 @@ def _validate_attributes(attributes: List[_Attribute]
                         "is reserved in Python").format(attribute.name),
                     ref=attribute.ref))
 
+        if attribute.name == 'self':
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python attribute identifier {!r} "
+                        "conflicts with the first argument of "
+                        "the constructor").format(attribute.name),
+                    ref=attribute.ref))
+
         if attribute.name in name_to_attributes:
             errs.append(
                 mapry.validation.SchemaError(
@@ -134,6 +143,17 @@ def _validate_graph_attributes(graph: mapry.Graph
     }
     # yapf: enable
 
+    # The constructor of the object graph uses the module to initialize
+    # the registries.
+    if graph.classes and 'collections' in property_attribute_map:
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    "The Python attribute identifier 'collections' "
+                    "conflicts with the module needed "
+                    "to initialize the registries of the object graph"),
+                ref=property_attribute_map['collections'].ref))
+
     registry_attribute_map = dict()  # type: MutableMapping[str, mapry.Class]
 
     for cls in graph.classes.values():
@@ -149,6 +169,17 @@ def _validate_graph_attributes(graph: mapry.Graph
                             plural_attribute, cls.name),
                     ref=cls.ref))
 
+        if plural_attribute in ['self', 'collections']:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python attribute identifier {!r} "
+                        "corresponding to the registry of the class {!r} "
+                        "conflicts with a name used by the constructor "
+                        "of the object graph").format(
+                            plural_attribute, cls.name),
+                    ref=cls.ref))
+
         if plural_attribute in property_attribute_map:
             errs.append(
                 mapry.validation.SchemaError(
-- 
2.43.0


From 0cf1edcc6b8b9b5d7f0d4eedf6eb2e3e0ee21350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 27/43] fix: refuse composites whose Python functions have the
 same names

---
 mapry/py/validation.py | 43 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 2355991..01691e2 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -212,6 +212,46 @@ def _validate_graph_attributes(graph: mapry.Graph
     return errs
 
 
+def _validate_variables(graph: mapry.Graph
+                        ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the functions of the composites have different names.
+
+    Names of composites which are different as names of Python classes can
+    still be the same in the names of the functions (*e.g.*, ``SomeURL`` and
+    ``SomeUrl``).
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    variable_map = dict()  # type: MutableMapping[str, mapry.Composite]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+
+    for composite in composites:
+        variable = mapry.py.naming.as_variable(identifier=composite.name)
+
+        if variable in variable_map:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The Python variable identifier {!r} corresponding to "
+                        "the composite {!r} conflicts with the variable "
+                        "corresponding to the composite {!r} ({})").format(
+                            variable, composite.name,
+                            variable_map[variable].name,
+                            variable_map[variable].ref),
+                    ref=composite.ref))
+        else:
+            variable_map[variable] = composite
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -300,4 +340,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # (including the class registries)
     errs.extend(_validate_graph_attributes(graph=schema.graph))
 
+    # Check that the functions of the composites do not overwrite each other
+    errs.extend(_validate_variables(graph=schema.graph))
+
     return errs
-- 
2.43.0


From 0d74638a08fc7fb3fb1c43e52a2563598292f983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 28/43] fix: refuse Python modules which can not be imported

---
 mapry/py/validation.py | 45 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/mapry/py/validation.py b/mapry/py/validation.py
index 01691e2..b8a9d98 100644
--- a/mapry/py/validation.py
+++ b/mapry/py/validation.py
@@ -14,6 +14,12 @@ _KEYWORDS = {
 }
 
 
+# Modules imported by the generated code
+_IMPORTED_MODULES = {
+    'collections', 'datetime', 'pathlib', 'pytz', 're', 'typing'
+}
+
+
 class _Attribute:
     """Represent a Python attribute of a composite."""
 
@@ -252,6 +258,39 @@ def _validate_variables(graph: mapry.Graph
     return errs
 
 
+def _validate_module_name(module_name: str, ref: str
+                          ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the generated code can import the modules it consists of.
+
+    :param module_name: fully qualified name of the base module
+    :param ref: reference path in the mapry schema of the Python settings
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    parts = module_name.split('.')
+    for part in parts:
+        if part in _KEYWORDS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The part {!r} of the module name {!r} "
+                        "is reserved in Python").format(part, module_name),
+                    ref='{}/module_name'.format(ref)))
+
+    if parts[0] in _IMPORTED_MODULES:
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    "The module name {!r} conflicts with the module {!r} "
+                    "imported by the autogenerated code").format(
+                        module_name, parts[0]),
+                ref='{}/module_name'.format(ref)))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Python code for the given mapry schema.
@@ -263,6 +302,12 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs = []  # type: List[mapry.validation.SchemaError]
 
+    if schema.py is not None:
+        errs.extend(
+            _validate_module_name(
+                module_name=schema.py.module_name,
+                ref='{}/py'.format(schema.graph.ref)))
+
     graph_name = mapry.py.naming.as_composite(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
-- 
2.43.0


From 22b93f153760a11af8a57e1b8e7524ed2d76afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 29/43] fix: refuse composites and fields which C++ code can
 not name

---
 mapry/cpp/validation.py | 67 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index e55e319..f7606cc 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -24,6 +24,12 @@ _KEYWORDS = {
     'void', 'volatile', 'wchar_t', 'while', 'xor', 'xor_eq'
 }
 
+# Macros defined by the standard headers which the generated code includes
+_MACROS = {
+    'BUFSIZ', 'EDOM', 'EILSEQ', 'EOF', 'ERANGE', 'INFINITY', 'NAN', 'NULL',
+    'WEOF', 'errno', 'math_errhandling'
+}
+
 
 class _Field:
     """Represent a C++ field of a composite."""
@@ -79,6 +85,14 @@ def _validate_fields(fields: List[_Field]
                         "is a keyword in C++").format(field.name),
                     ref=field.ref))
 
+        if field.name in _MACROS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} "
+                        "conflicts with a macro in C++").format(field.name),
+                    ref=field.ref))
+
         if field.name in name_to_fields:
             errs.append(
                 mapry.validation.SchemaError(
@@ -190,6 +204,16 @@ def _validate_graph_fields(graph: mapry.Graph
                             plural_field, cls.name),
                     ref=cls.ref))
 
+        if plural_field in _MACROS:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} corresponding "
+                        "to the registry of the class {!r} in the object "
+                        "graph conflicts with a macro in C++").format(
+                            plural_field, cls.name),
+                    ref=cls.ref))
+
         if plural_field in property_field_map:
             errs.append(
                 mapry.validation.SchemaError(
@@ -220,6 +244,43 @@ def _validate_graph_fields(graph: mapry.Graph
     return errs
 
 
+def _validate_composite_name(composite: mapry.Composite
+                             ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the C++ code may use the identifiers of the composite.
+
+    The arguments of the functions are named after the composites as well, so
+    that also the variable identifiers must not be reserved.
+
+    :param composite: mapry definition of the composite
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    identifier = mapry.cpp.naming.as_composite(identifier=composite.name)
+    if identifier in _MACROS or identifier == 'Json':
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    "The C++ identifier {!r} corresponding to the composite "
+                    "{!r} conflicts with a name used by "
+                    "the autogenerated code").format(
+                        identifier, composite.name),
+                ref=composite.ref))
+
+    variable = mapry.cpp.naming.as_variable(identifier=composite.name)
+    if variable in _KEYWORDS or variable in _MACROS:
+        errs.append(
+            mapry.validation.SchemaError(
+                message=(
+                    "The C++ variable identifier {!r} corresponding to "
+                    "the composite {!r} is reserved in C++").format(
+                        variable, composite.name),
+                ref=composite.ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -241,6 +302,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         graph_name, schema.graph.name),
                 ref=schema.graph.ref))
 
+    errs.extend(_validate_composite_name(composite=schema.graph))
+
     name_to_composite[graph_name] = schema.graph
 
     for cls in schema.graph.classes.values():
@@ -256,6 +319,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                             cls_name, cls.name),
                     ref=cls.ref))
 
+        errs.extend(_validate_composite_name(composite=cls))
+
         # Check that the name is not a duplicate
         if cls_name in name_to_composite:
             conflict_composite = name_to_composite[cls_name]
@@ -284,6 +349,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         "is a keyword in C++").format(embed_name, embed.name),
                     ref=embed.ref))
 
+        errs.extend(_validate_composite_name(composite=embed))
+
         if embed_name in name_to_composite:
             conflict_composite = name_to_composite[embed_name]
             errs.append(
-- 
2.43.0


From ce10489c9f14d927c1f1efd0df23b6c32c50109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 30/43] fix: refuse classes whose C++ ID patterns have the same
 name

---
 mapry/cpp/validation.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index f7606cc..4bde9bc 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -281,6 +281,43 @@ def _validate_composite_name(composite: mapry.Composite
     return errs
 
 
+def _validate_id_patterns(graph: mapry.Graph
+                          ) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the patterns of the identifiers are defined only once.
+
+    The names of the classes may still be the same when put in lower case
+    (*e.g.*, ``Some_URL`` and ``Some_Url``).
+
+    :param graph: mapry definition of the object graph
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    variable_to_class = dict()  # type: Dict[str, mapry.Class]
+
+    for cls in graph.classes.values():
+        if cls.id_pattern is None:
+            continue
+
+        variable = mapry.cpp.naming.as_variable(identifier=cls.name)
+        if variable in variable_to_class:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ variable identifier {!r} corresponding to "
+                        "the class {!r} conflicts with "
+                        "the class {!r} ({})").format(
+                            variable, cls.name,
+                            variable_to_class[variable].name,
+                            variable_to_class[variable].ref),
+                    ref=cls.ref))
+        else:
+            variable_to_class[variable] = cls
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -380,4 +417,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     # Check the fields of the object graph (including the class registries)
     errs.extend(_validate_graph_fields(graph=schema.graph))
 
+    # Check that the patterns of the identifiers do not clash
+    errs.extend(_validate_id_patterns(graph=schema.graph))
+
     return errs
-- 
2.43.0


From ad430d8f9a4c4024950e4bcd9e47a41f54090f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 31/43] fix: refuse C++ namespaces which are reserved or hide
 libraries

---
 mapry/cpp/validation.py | 48 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 4bde9bc..e7bfe71 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -318,6 +318,49 @@ def _validate_id_patterns(graph: mapry.Graph
     return errs
 
 
+def _validate_namespace(cpp: mapry.Cpp,
+                        ref: str) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the C++ code can live in the namespace.
+
+    Notably, the namespace must not hide the namespaces of the libraries which
+    the generated code uses.
+
+    :param cpp: C++ settings
+    :param ref: reference path in the mapry schema of the C++ settings
+    :return: list of errors, or an empty list if no errors
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    # Namespaces of the libraries used by the generated code
+    libraries = {'Json'}
+    if 'boost::' in cpp.path_as or 'boost::' in cpp.optional_as:
+        libraries.add('boost')
+
+    if cpp.datetime_library == 'date.h':
+        libraries.add('date')
+
+    for i, part in enumerate(cpp.namespace.split('::')):
+        if part in _KEYWORDS or part in _MACROS or part == 'std':
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The part {!r} of the namespace {!r} "
+                        "is reserved in C++").format(part, cpp.namespace),
+                    ref='{}/namespace'.format(ref)))
+
+        if i > 0 and part in libraries:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The part {!r} of the namespace {!r} "
+                        "hides a namespace used by "
+                        "the autogenerated code").format(part, cpp.namespace),
+                    ref='{}/namespace'.format(ref)))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -329,6 +372,11 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
 
     errs = []  # type: List[mapry.validation.SchemaError]
 
+    if schema.cpp is not None:
+        errs.extend(
+            _validate_namespace(
+                cpp=schema.cpp, ref='{}/cpp'.format(schema.graph.ref)))
+
     graph_name = mapry.cpp.naming.as_composite(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
-- 
2.43.0


From 4be6111d3e2b1bfaa7a94f427db67a49d427b6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 32/43] fix: serialize in C++ registries named as the object
 graph

---
 mapry/cpp/generate/jsoncpp_impl.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index d450224..858eb3c 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2714,8 +2714,14 @@ Json::Value serialize_{{ graph.name|as_variable }}(
     {% endfor %}{# /for property_serializations #}
     {% for cls in graph.classes.values() %}
 
+    {% set registry_value = "%s_as_value"|format(cls.plural|as_variable) %}
+    {% if registry_value == value or
+            registry_value == graph.name|as_variable %}
+    {% set registry_value =
+            "%s_registry_as_value"|format(cls.plural|as_variable) %}
+    {% endif %}
     if (!{{ graph.name|as_variable }}.{{ cls.plural|as_variable }}.empty()) {
-        Json::Value {{ cls.plural|as_variable }}_as_value;
+        Json::Value {{ registry_value }};
         for (const auto& kv : {{
                 graph.name|as_variable }}.{{ cls.plural|as_variable }}) {
             const std::string& id = kv.first;
@@ -2740,11 +2746,11 @@ Json::Value serialize_{{ graph.name|as_variable }}(
                 throw std::invalid_argument(msg);
             }
 
-            {{ cls.plural|as_variable }}_as_value[instance->id] = {#
+            {{ registry_value }}[instance->id] = {#
             #}serialize_{{ cls.name|as_variable }}(*instance);
         }
         {{ value }}[{{ cls.plural|json_plural|escaped_str }}] = {{
-            cls.plural|as_variable }}_as_value;
+            registry_value }};
     }
     {% endfor %}{# /for cls #}
 
-- 
2.43.0


From 78012daacbc01c2b0350acce09021b3ad130783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 33/43] fix: compile C++ code of registries named instance

---
 mapry/cpp/generate/jsoncpp_impl.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 858eb3c..c7012dd 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -2089,7 +2089,7 @@ void {{ graph.name|as_variable }}_from(
 
     // Keep the prefix fixed in this buffer so that
     // it is copied as little as possible
-    std::string instance_ref;
+    std::string {{ instance_ref }};
 {% endif %}
 {% for cls in graph.classes.values() %}
 
@@ -2099,20 +2099,20 @@ void {{ graph.name|as_variable }}_from(
 
     // clear() does not shrink the reserved memory,
     // see https://en.cppreference.com/w/cpp/string/basic_string/clear
-    instance_ref.clear();
-    instance_ref += {{ cls.plural|as_variable }}_ref;
-    instance_ref += '/';
+    {{ instance_ref }}.clear();
+    {{ instance_ref }} += {{ cls.plural|as_variable }}_ref;
+    {{ instance_ref }} += '/';
 
     if (value.isMember({{ cls.plural|json_plural|escaped_str }})) {
         const Json::Value& obj = value[{{
             cls.plural|json_plural|escaped_str }}];
 
         for (Json::ValueConstIterator it = obj.begin(); it != obj.end(); ++it) {
-            instance_ref.reserve(
+            {{ instance_ref }}.reserve(
                 {{ cls.plural|as_variable }}_ref.size() + 1 + it.name().size());
-            instance_ref.resize(
+            {{ instance_ref }}.resize(
                 {{ cls.plural|as_variable }}_ref.size() + 1);
-            instance_ref.append(
+            {{ instance_ref }}.append(
                 it.name());
 
             {{ cls.name|as_composite }}* instance(
@@ -2122,7 +2122,7 @@ void {{ graph.name|as_variable }}_from(
                 {% for ref_cls in references[cls] %}
                 target->{{ ref_cls.plural|as_field }},
                 {% endfor %}
-                instance_ref,
+                {{ instance_ref }},
                 instance,
                 errors);
 
@@ -2181,8 +2181,17 @@ def _parse_graph(graph: mapry.Graph, cpp: mapry.Cpp) -> str:
                 auto_id=auto_id,
                 cpp=cpp))
 
+    # The buffer must not be named the same as the reference to a registry.
+    instance_ref = 'instance_ref'
+    if any(mapry.cpp.naming.as_variable(cls.plural) == 'instance'
+           for cls in graph.classes.values()):
+        instance_ref = 'instance_buffer'
+
     text = _PARSE_GRAPH_TPL.render(
-        graph=graph, references=references, property_parsings=property_parsings)
+        graph=graph,
+        references=references,
+        property_parsings=property_parsings,
+        instance_ref=instance_ref)
 
     assert isinstance(text, str)
     return text.rstrip("\n")
-- 
2.43.0


From 1cb7aceb503f2bb36a3d594dabd064b239556786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:21 +0000
Subject: [PATCH 34/43] fix: refuse an empty indention of Python code

---
 mapry/schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mapry/schemas.py b/mapry/schemas.py
index 4e1ea80..4f2805c 100644
--- a/mapry/schemas.py
+++ b/mapry/schemas.py
@@ -148,7 +148,7 @@ GRAPH = {
                     "description":
                     "defines the indention of the generated code. "
                     "Defaults to four spaces.",
-                    "pattern": "^[ \t]*\\Z"
+                    "pattern": "^[ \t]+\\Z"
                 }
             },
             "required": ['module_name', 'path_as', 'timezone_as'],
-- 
2.43.0


From b8a77da3723e14fd7c348b37d219cfa81a3a8c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 35/43] fix: import strings in Go only when used

---
 mapry/go/generate/fromjsonable.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index 2f582aa..6f16987 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -46,7 +46,14 @@ def _imports(graph: mapry.Graph) -> str:
     :param go: Go settings
     :return: generated code
     """
-    import_set = {'strings', 'fmt'}
+    import_set = {'fmt'}
+
+    # The reference paths are joined when something is parsed in a composite.
+    # yapf: disable
+    if (graph.properties or graph.classes
+            or any(embed.properties for embed in graph.embeds.values())):
+        # yapf: enable
+        import_set.add('strings')
 
     if mapry.needs_type(a_type=graph, query=mapry.Integer):
         import_set.add('math')
-- 
2.43.0


From 79813ea5c162a1fcfc53e3f4aa9032c34c0b4328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 36/43] fix: refuse C++ fields named as the types they rely
 upon

---
 mapry/cpp/validation.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index e7bfe71..8b4bf8d 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -30,6 +30,9 @@ _MACROS = {
     'WEOF', 'errno', 'math_errhandling'
 }
 
+# Types without a namespace which the definitions of the fields rely upon
+_FIELD_TYPES = {'int64_t', 'tm'}
+
 
 class _Field:
     """Represent a C++ field of a composite."""
@@ -93,6 +96,15 @@ def _validate_fields(fields: List[_Field]
                         "conflicts with a macro in C++").format(field.name),
                     ref=field.ref))
 
+        if field.name in _FIELD_TYPES:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} "
+                        "conflicts with a type used by "
+                        "the autogenerated code").format(field.name),
+                    ref=field.ref))
+
         if field.name in name_to_fields:
             errs.append(
                 mapry.validation.SchemaError(
@@ -214,6 +226,17 @@ def _validate_graph_fields(graph: mapry.Graph
                             plural_field, cls.name),
                     ref=cls.ref))
 
+        if plural_field in _FIELD_TYPES:
+            errs.append(
+                mapry.validation.SchemaError(
+                    message=(
+                        "The C++ field identifier {!r} corresponding "
+                        "to the registry of the class {!r} in the object "
+                        "graph conflicts with a type used by "
+                        "the autogenerated code").format(
+                            plural_field, cls.name),
+                    ref=cls.ref))
+
         if plural_field in property_field_map:
             errs.append(
                 mapry.validation.SchemaError(
-- 
2.43.0


From 997a8a741bfb51c05fcaee8bae12640ba23f8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 37/43] fix: write non-printable characters in Go and C++
 literals

---
 mapry/cpp/generate/__init__.py     | 35 +++++++++++++++++++++++++++---
 mapry/cpp/generate/jsoncpp_impl.py |  9 ++++----
 mapry/cpp/jinja2_env.py            |  1 +
 mapry/go/generate/__init__.py      | 14 +++++++++---
 4 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/mapry/cpp/generate/__init__.py b/mapry/cpp/generate/__init__.py
index 43e9282..7207bdc 100644
--- a/mapry/cpp/generate/__init__.py
+++ b/mapry/cpp/generate/__init__.py
@@ -174,12 +174,41 @@ def escaped_str(text: str) -> str:
         ('\n', '\\n'),
         ('\v', '\\v'),
         ('\f', '\\f'),
-        ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\r', '\\r')])
     # yapf: enable
 
     result = text
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
 
-    return '"{}"'.format(result)
+    # The non-printable characters would be taken for line breaks when the code
+    # is indented.
+    parts = []  # type: List[str]
+    for c in result:
+        if c.isprintable():
+            parts.append(c)
+        else:
+            parts.extend(
+                '\\{:03o}'.format(byte) for byte in c.encode('utf-8'))
+
+    return '"{}"'.format(''.join(parts))
+
+
+def raw_str(text: str) -> str:
+    r"""
+    Convert the ``text`` into a raw C++ string literal, if possible.
+
+    :param text: to be converted
+    :return: C++ string literal
+
+    >>> raw_str(text='^[a-z]$')
+    'R"v0g0n(^[a-z]$)v0g0n"'
+
+    >>> raw_str(text='\t')
+    '"\\t"'
+
+    """
+    if not text.isprintable() or ')v0g0n"' in text:
+        return escaped_str(text=text)
+
+    return 'R"v0g0n({})v0g0n"'.format(text)
diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index c7012dd..444ea5b 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -202,11 +202,12 @@ def _regex_constants(graph: mapry.Graph) -> str:
                 '''\
             namespace {composite_varname}_re {{
             const std::regex kID(
-                R"v0g0n({regex})v0g0n");
+                {regex});
             }}  // namespace {composite_varname}_re'''.format(
                     composite_varname=mapry.cpp.naming.as_variable(
                         identifier=cls.name),
-                    regex=cls.id_pattern.pattern)))
+                    regex=mapry.cpp.generate.raw_str(
+                        text=cls.id_pattern.pattern))))
 
     return "\n\n".join(blocks)
 
@@ -771,7 +772,7 @@ if (!{{ value }}.isString()) {
     {{ target_expr }} = {{ value }}.asString();
     {% else %}
     const static std::regex regex_{{ uid }}(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|raw_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
@@ -863,7 +864,7 @@ if (!{{ value }}.isString()) {
     {{ set_target }}
     {% else %}
     const static std::regex regex(
-        R"v0g0n({{ a_type.pattern.pattern }})v0g0n");
+        {{ a_type.pattern.pattern|raw_str }});
     const std::string cast_{{ uid }} = {{ value }}.asString();
     bool ok_{{ uid }} = true;
 
diff --git a/mapry/cpp/jinja2_env.py b/mapry/cpp/jinja2_env.py
index 76eea58..833da20 100644
--- a/mapry/cpp/jinja2_env.py
+++ b/mapry/cpp/jinja2_env.py
@@ -23,6 +23,7 @@ ENV.filters.update({
     'strptime_fmt': mapry.cpp.generate.strptime_fmt,
     'strftime_fmt': mapry.cpp.generate.strftime_fmt,
     'escaped_str': mapry.cpp.generate.escaped_str,
+    'raw_str': mapry.cpp.generate.raw_str,
     'json_plural': mapry.naming.json_plural,
     'is_variable': mapry.cpp.expr.is_variable,
     'join_strings': mapry.cpp.expr.append_strings,
diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 23baa1e..8192619 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -117,14 +117,18 @@ def escaped_str(text: str) -> str:
         ('\n', '\\n'),
         ('\v', '\\v'),
         ('\f', '\\f'),
-        ('\r', '\\r'),
-        ('\x1B', '\\e')])
+        ('\r', '\\r')])
     # yapf: enable
 
     result = text
     for src, tgt in mapping.items():
         result = result.replace(src, tgt)
 
+    # Go source code must not contain some of the non-printable characters, and
+    # the others would be taken for line breaks when the code is indented.
+    result = ''.join(
+        c if c.isprintable() else '\\U{:08x}'.format(ord(c)) for c in result)
+
     return '"{}"'.format(result)
 
 
@@ -134,7 +138,8 @@ def ticked_str(text: str) -> str:
     Convert the ``text`` into a backticked Go string literal.
 
     If there are backticks in the text, the generated string literal
-    is split into multiple lines.
+    is split into multiple lines. Texts with non-printable characters can not
+    be backticked and are escaped instead.
 
     :param text: to be converted
     :return: Go string literal
@@ -147,6 +152,9 @@ def ticked_str(text: str) -> str:
         `me`
 
     """
+    if not text.isprintable():
+        return escaped_str(text=text)
+
     tick_parts = text.split('`')
     parts = []  # type: List[str]
 
-- 
2.43.0


From 3d682b4e84be9fa4857ccdcf9e29bd8c4a9b777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 38/43] fix: escape percent signs in Go format strings

---
 mapry/go/generate/__init__.py     | 13 +++++++++++++
 mapry/go/generate/fromjsonable.py |  7 ++++---
 mapry/go/jinja2_env.py            |  1 +
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/mapry/go/generate/__init__.py b/mapry/go/generate/__init__.py
index 8192619..507a4bf 100644
--- a/mapry/go/generate/__init__.py
+++ b/mapry/go/generate/__init__.py
@@ -132,6 +132,19 @@ def escaped_str(text: str) -> str:
     return '"{}"'.format(result)
 
 
+def escaped_fmt(text: str) -> str:
+    """
+    Escape the text so that it can be embedded in a format of ``fmt.Sprintf``.
+
+    :param text: to be escaped
+    :return: text with escaped percent signs
+
+    >>> escaped_fmt(text='^100%$')
+    '^100%%$'
+    """
+    return text.replace('%', '%%')
+
+
 @ensure(lambda result: not result.endswith('\n'))
 def ticked_str(text: str) -> str:
     """
diff --git a/mapry/go/generate/fromjsonable.py b/mapry/go/generate/fromjsonable.py
index 6f16987..b1568af 100644
--- a/mapry/go/generate/fromjsonable.py
+++ b/mapry/go/generate/fromjsonable.py
@@ -699,7 +699,7 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected to match %s, but got: %%s"|
-                    format(a_type.pattern.pattern)|escaped_str }},
+                    format(a_type.pattern.pattern|escaped_fmt)|escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = cast{{ uid }}
@@ -768,7 +768,7 @@ if !ok{{ uid }} {
                 "/"),
             fmt.Sprintf(
                 {{ "expected layout %s, got: %%s"|
-                    format(converted_format)|escaped_str }},
+                    format(converted_format|escaped_fmt)|escaped_str }},
                 cast{{ uid }}))
     } else {
         {{ target_expr }} = target{{ uid }}
@@ -1699,7 +1699,8 @@ func {{ graph.name|ucamel_case }}FromJSONable(
                         {{ cls.plural|camel_case }}Ref,
                         fmt.Sprintf(
                             {{ "expected ID to match %s, but got: %%s"|
-                                format(cls.id_pattern.pattern)|escaped_str }},
+                                format(cls.id_pattern.pattern|escaped_fmt)|
+                                    escaped_str }},
                             id))
                 } else {
                     {{ preallocate_instance|
diff --git a/mapry/go/jinja2_env.py b/mapry/go/jinja2_env.py
index 232aa5a..0fb8551 100644
--- a/mapry/go/jinja2_env.py
+++ b/mapry/go/jinja2_env.py
@@ -17,6 +17,7 @@ ENV.filters.update({
     'camel_case': mapry.naming.camel_case,
     'ucamel_case': mapry.naming.ucamel_case,
     'comment': mapry.go.generate.comment,
+    'escaped_fmt': mapry.go.generate.escaped_fmt,
     'escaped_str': mapry.go.generate.escaped_str,
     'ticked_str': mapry.go.generate.ticked_str,
     'json_plural': mapry.naming.json_plural,
-- 
2.43.0


From 4186d730aaa99a3fb0c4814601383ddedd44bcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:07 +0000
Subject: [PATCH 39/43] fix: refuse bounds of floats which are not finite

---
 mapry/validation.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mapry/validation.py b/mapry/validation.py
index 69f4b29..3442930 100644
--- a/mapry/validation.py
+++ b/mapry/validation.py
@@ -2,6 +2,7 @@
 """Validate the mapry schema."""
 
 import collections
+import math
 import re
 from typing import Any, Dict, List, Mapping, Optional, Set, Tuple
 
@@ -194,6 +195,19 @@ def _validate_integer(mapping: Mapping[str, Any],
     return None
 
 
+def _is_finite(number: Any) -> bool:
+    """
+    Check whether the number can be represented as a finite float.
+
+    :param number: integer or float
+    :return: False if not a number, infinite or too large for a float
+    """
+    try:
+        return math.isfinite(number)
+    except OverflowError:
+        return False
+
+
 def _validate_float(mapping: Mapping[str, Any],
                     ref: str) -> Optional[SchemaError]:
     """
@@ -203,6 +217,12 @@ def _validate_float(mapping: Mapping[str, Any],
     :param ref: reference to the type definition
     :return: error, if any
     """
+    for bound in ('minimum', 'maximum'):
+        if bound in mapping and not _is_finite(mapping[bound]):
+            return SchemaError(
+                message="the bound is not a finite number",
+                ref='{}/{}'.format(ref, bound))
+
     if 'minimum' in mapping and 'maximum' in mapping:
         minimum = mapping['minimum']
         maximum = mapping['maximum']
-- 
2.43.0


From 402e12e53a666d7f7a910efc6e1a54c35d00587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 40/43] fix: refuse bounds beyond 64 bits in Go and C++

---
 mapry/cpp/validation.py | 34 +++++++++++++++++++++++++++++++++-
 mapry/go/validation.py  | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 8b4bf8d..24701d3 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -1,6 +1,6 @@
 """Validate that the C++ code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping, Set)
+    Dict, List, Mapping, MutableMapping, Optional, Set)
 
 import mapry
 import mapry.cpp
@@ -384,6 +384,36 @@ def _validate_namespace(cpp: mapry.Cpp,
     return errs
 
 
+def _validate_bounds(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the bounds of integers and sizes can be represented in C++.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, if any
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        bounds = []  # type: List[Optional[int]]
+        if isinstance(a_type, mapry.Integer):
+            bounds = [a_type.minimum, a_type.maximum]
+        elif isinstance(a_type, mapry.Array):
+            bounds = [a_type.minimum_size, a_type.maximum_size]
+        else:
+            continue
+
+        for bound in bounds:
+            if bound is not None and not -2**63 <= bound < 2**63:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The bound {} can not be represented as "
+                            "a 64-bit integer in C++").format(bound),
+                        ref=ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -400,6 +430,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
             _validate_namespace(
                 cpp=schema.cpp, ref='{}/cpp'.format(schema.graph.ref)))
 
+    errs.extend(_validate_bounds(graph=schema.graph))
+
     graph_name = mapry.cpp.naming.as_composite(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 956a957..2b958d3 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -1,6 +1,6 @@
 """Validate that the Go code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping, Set)
+    Dict, List, Mapping, MutableMapping, Optional, Set)
 
 import mapry
 import mapry.go.timeformat
@@ -324,6 +324,36 @@ def _validate_date_time_formats(graph: mapry.Graph
     return errs
 
 
+def _validate_bounds(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the bounds of integers and sizes can be represented in Go.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, if any
+    """
+    errs = []  # type: List[mapry.validation.SchemaError]
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        bounds = []  # type: List[Optional[int]]
+        if isinstance(a_type, mapry.Integer):
+            bounds = [a_type.minimum, a_type.maximum]
+        elif isinstance(a_type, mapry.Array):
+            bounds = [a_type.minimum_size, a_type.maximum_size]
+        else:
+            continue
+
+        for bound in bounds:
+            if bound is not None and not -2**63 <= bound < 2**63:
+                errs.append(
+                    mapry.validation.SchemaError(
+                        message=(
+                            "The bound {} can not be represented as "
+                            "a 64-bit integer in Go").format(bound),
+                        ref=ref))
+
+    return errs
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Go code for the given mapry schema.
@@ -344,6 +374,8 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         schema.go.package),
                     ref='{}/go/package'.format(schema.graph.ref)))
 
+    errs.extend(_validate_bounds(graph=schema.graph))
+
     graph_name = mapry.naming.ucamel_case(identifier=schema.graph.name)
     if graph_name in _KEYWORDS:
         errs.append(
-- 
2.43.0


From c84609c21b9a928307e4f6687dfedd1b4a6b162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:24 +0000
Subject: [PATCH 41/43] fix: refuse texts which are no literals in Go and C++

---
 mapry/cpp/validation.py | 40 +++++++++++++++++++++++++++++++++++++++-
 mapry/go/validation.py  | 40 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 78 insertions(+), 2 deletions(-)

diff --git a/mapry/cpp/validation.py b/mapry/cpp/validation.py
index 24701d3..863898b 100644
--- a/mapry/cpp/validation.py
+++ b/mapry/cpp/validation.py
@@ -1,6 +1,6 @@
 """Validate that the C++ code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping, Optional, Set)
+    Dict, List, Mapping, MutableMapping, Optional, Set, Tuple)
 
 import mapry
 import mapry.cpp
@@ -414,6 +414,43 @@ def _validate_bounds(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
     return errs
 
 
+def _validate_texts(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the JSON names and patterns can be written as C++ literals.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, if any
+    """
+    texts = []  # type: List[Tuple[str, str]]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+    for composite in composites:
+        texts.extend(
+            (prop.json, prop.ref) for prop in composite.properties.values())
+
+    for cls in graph.classes.values():
+        if cls.id_pattern is not None:
+            texts.append((cls.id_pattern.pattern, cls.ref))
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if (isinstance(a_type, (mapry.String, mapry.Path))
+                and a_type.pattern is not None):
+            texts.append((a_type.pattern.pattern, ref))
+
+    # yapf: disable
+    return [
+        mapry.validation.SchemaError(
+            message=(
+                "The text {!r} can not be written as a C++ literal, since it "
+                "contains NUL characters or surrogates").format(text),
+            ref=ref)
+        for text, ref in texts
+        if any(c == '\x00' or '\ud800' <= c <= '\udfff' for c in text)]
+    # yapf: enable
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the C++ code for the given mapry schema.
@@ -430,6 +467,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
             _validate_namespace(
                 cpp=schema.cpp, ref='{}/cpp'.format(schema.graph.ref)))
 
+    errs.extend(_validate_texts(graph=schema.graph))
     errs.extend(_validate_bounds(graph=schema.graph))
 
     graph_name = mapry.cpp.naming.as_composite(identifier=schema.graph.name)
diff --git a/mapry/go/validation.py b/mapry/go/validation.py
index 2b958d3..85b6a0d 100644
--- a/mapry/go/validation.py
+++ b/mapry/go/validation.py
@@ -1,6 +1,6 @@
 """Validate that the Go code can be generated according to the schema."""
 from typing import (  # pylint: disable=unused-import
-    Dict, List, Mapping, MutableMapping, Optional, Set)
+    Dict, List, Mapping, MutableMapping, Optional, Set, Tuple)
 
 import mapry
 import mapry.go.timeformat
@@ -354,6 +354,43 @@ def _validate_bounds(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
     return errs
 
 
+def _validate_texts(graph: mapry.Graph) -> List[mapry.validation.SchemaError]:
+    """
+    Validate that the JSON names and patterns can be written as Go literals.
+
+    :param graph: mapry definition of an object graph
+    :return: list of errors, if any
+    """
+    texts = []  # type: List[Tuple[str, str]]
+
+    composites = [graph]  # type: List[mapry.Composite]
+    composites.extend(graph.classes.values())
+    composites.extend(graph.embeds.values())
+    for composite in composites:
+        texts.extend(
+            (prop.json, prop.ref) for prop in composite.properties.values())
+
+    for cls in graph.classes.values():
+        if cls.id_pattern is not None:
+            texts.append((cls.id_pattern.pattern, cls.ref))
+
+    for a_type, ref in mapry.iterate_over_types(graph=graph):
+        if (isinstance(a_type, (mapry.String, mapry.Path))
+                and a_type.pattern is not None):
+            texts.append((a_type.pattern.pattern, ref))
+
+    # yapf: disable
+    return [
+        mapry.validation.SchemaError(
+            message=(
+                "The text {!r} can not be written as a Go literal, since it "
+                "contains surrogates").format(text),
+            ref=ref)
+        for text, ref in texts
+        if any('\ud800' <= c <= '\udfff' for c in text)]
+    # yapf: enable
+
+
 def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
     """
     Validate that we can generate the Go code for the given mapry schema.
@@ -374,6 +411,7 @@ def validate_schema(schema: mapry.Schema) -> List[mapry.validation.SchemaError]:
                         schema.go.package),
                     ref='{}/go/package'.format(schema.graph.ref)))
 
+    errs.extend(_validate_texts(graph=schema.graph))
     errs.extend(_validate_bounds(graph=schema.graph))
 
     graph_name = mapry.naming.ucamel_case(identifier=schema.graph.name)
-- 
2.43.0


From 1e70176fb86fb08775d13a999f1af1c2cbc7ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:06 +0000
Subject: [PATCH 42/43] fix: parse optional dates and datetimes with date.h
 into the value

---
 mapry/cpp/generate/jsoncpp_impl.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mapry/cpp/generate/jsoncpp_impl.py b/mapry/cpp/generate/jsoncpp_impl.py
index 444ea5b..8820b07 100644
--- a/mapry/cpp/generate/jsoncpp_impl.py
+++ b/mapry/cpp/generate/jsoncpp_impl.py
@@ -1881,12 +1881,17 @@ def _parse_property(
     needs_emplace = isinstance(
         a_property.type, (mapry.Array, mapry.Map, mapry.Embed))
 
+    # date.h parses directly into the value.
+    if (cpp.datetime_library == 'date.h'
+            and isinstance(a_property.type, (mapry.Date, mapry.Datetime))):
+        needs_emplace = True
+
     parsing_target_expr = property_target_expr
     if a_property.optional:
-        if isinstance(a_property.type, (mapry.Array, mapry.Map)):
-            parsing_target_expr = "*{}".format(property_target_expr)
-        elif isinstance(a_property.type, mapry.Embed):
+        if isinstance(a_property.type, mapry.Embed):
             parsing_target_expr = "(*{})".format(property_target_expr)
+        elif needs_emplace:
+            parsing_target_expr = "*{}".format(property_target_expr)
 
     # yapf: disable
     parsing = _parse_value(
-- 
2.43.0


From da1b134d23f76cc3e9dcd86017f7ef9d65b42665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:56 +0000
Subject: [PATCH 43/43] fix: leave all files as they were if some can not be
 written

---
 mapry/main.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mapry/main.py b/mapry/main.py
index e2fc3ed..80bdcf4 100644
--- a/mapry/main.py
+++ b/mapry/main.py
@@ -5,7 +5,7 @@ import argparse
 import collections
 import pathlib
 import sys
-from typing import Mapping, Optional  # pylint: disable=unused-import
+from typing import List, Mapping, Optional, Tuple  # pylint: disable=unused-import
 
 import icontract
 
@@ -38,7 +38,8 @@ def _write_files(
     """
     Write the files to the output directory.
 
-    Nothing is written if some of the files can not be encoded.
+    Nothing is written if some of the files can not be encoded. If some of
+    the files can not be written, all of them are left as they were.
 
     :param outdir: output directory where generated files should be stored
     :param filename_to_code: code to be written to the individual files
@@ -46,8 +47,18 @@ def _write_files(
     encoded = [(outdir / filename, code.encode('utf-8'))
                for filename, code in filename_to_code.items()]
 
-    for pth, data in encoded:
-        pth.write_bytes(data)
+    previous = []  # type: List[Tuple[pathlib.Path, Optional[bytes]]]
+    try:
+        for pth, data in encoded:
+            previous.append((pth, pth.read_bytes() if pth.exists() else None))
+            pth.write_bytes(data)
+    except OSError:
+        for pth, before in previous:
+            if before is not None:
+                pth.write_bytes(before)
+            elif pth.exists():
+                pth.unlink()
+        raise
 
 
 @icontract.require(lambda outdir: outdir.exists())
-- 
2.43.0

