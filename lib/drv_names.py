"""Runs inside the environment of /repo: transform names.

stdin: a JSON list of [function, name] or ["class", name, plural or null];
stdout: a JSON list of results, each [text] or [null, exception].
"""
import json
import sys
import warnings

warnings.simplefilter('ignore')
import mapry.cpp.naming  # noqa: E402
import mapry.naming  # noqa: E402
import mapry.parse  # noqa: E402
import mapry.py.naming  # noqa: E402


def one(job):
    fn = job[0]
    try:
        if fn == 'class':
            cls = {'name': job[1], 'description': 'defines a class.'}
            if job[2] is not None:
                cls['plural'] = job[2]
            schema = mapry.parse.schema_from_mapping(
                {'name': 'Zq_graph', 'description': 'defines a graph.', 'classes': [cls]}, '#')
            return [schema.graph.classes[job[1]].plural]
        mod = mapry.naming
        if '.' in fn:
            lang, fn = fn.split('.')
            mod = {'py': mapry.py.naming, 'cpp': mapry.cpp.naming}[lang]
        return [getattr(mod, fn)(job[1])]
    except Exception as exc:  # pylint: disable=broad-except
        return [None, '{}: {}'.format(type(exc).__name__, exc)[:200]]


json.dump([one(j) for j in json.load(sys.stdin)], sys.stdout)
