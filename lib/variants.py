"""Variants of schemas which differ only in settings of representation."""
import copy

import common

# descriptions of graphs, classes and embeddables: one line, from a verb to a dot
LINES = ['describes "it".', "describes it's.", 'ends with a quote "quoted".', 'has a back\\slash \\n \\u00e9 \\x.', 'has """ three quotes.',
         'has \'\'\' three.', 'has {{ braces }} and {% percent %} {# hash #}.', 'has %s %d %% $x ${y}.', 'has */ and /* and //.',
         'is unicode \u00e9 \u6f22 \U0001f642.', 'has a carriage\rreturn.', 'has \u2028 and \u2029 separators.', 'has \x0b and \x0c and \x85.',
         'has a\ttab.', 'has `back` and <b>tags</b>.', 'has \u202e bidi and \ufeff marks.', 'has # hash and -- dashes.', 'has &amp; &.',
         'ends in a back\\slash.', 'a.', 'has a \x00 NUL.', 'has ??' + '/ in it.']
# descriptions of properties: any text
TEXTS = ['', 'a\x00b', ' ', '\n', 'two\nlines', 'two\n\nparagraphs\n    indented\n        more', 'ends with a quote"', 'ends with two""', 'ends with three"""',
         '"', '"starts', 'ends with a backslash\\', 'backslash\\\nin the middle', 'two\\\\', '\\', '\\"', '"""\\', '\\"""', '    leading',
         'trailing   ', '\ttab', 'line\r\nends', 'vertical\x0bform\x0c\x1c\x85', '\u2028', 'x\u2029y', '{{ x }}', '{% raw %}', '{#', '%d %s',
         '// x', '/* x', '*/', "'''", '#include "x"', 'a\\\n// b\\\nint x;', 'f(x) = """ + 1', 'package x', '??/', 'has \ufeff mark',
         'é漢\U0001f642', 'long ' * 60, 'x\\\r\nint y;', '\n\nlead', 'end\n\n', '    \n   x', 'a\\ \nb', 'tab\\\t\nc']


def pairs(rng, n, pools):
    """n draws from each of the pools, without repetition as long as possible."""
    res = []
    for pool in pools:
        items = []
        while len(items) < n:
            items += rng.sample(pool, len(pool))
        res.append(items[:n])
    return list(zip(*res))


POOLS = [['  ', '    ', '\t', ' ', '        ', '\t\t', '   ', ' \t'],          # Python indention
         [None, '{}_pkg', 'deep.{}.Mod', 'a.b.c.{}', 'X{}'],                     # Python module
         ['str', 'pathlib.Path'], ['str', 'pytz.timezone'],
         ['  ', '    ', '\t', ' ', '', '   '],                                  # C++ indention
         [None, 'n_{}::b', 'Ns::{}::c_3', 'x{}'],                                # C++ namespace
         ['std::filesystem::path', 'boost::filesystem::path'], ['std::optional', 'boost::optional', 'std::experimental::optional'],
         [None, 'pk_{}', 'P{}', 'p9'],                                           # Go package
         [False, True]]                                                          # unusual descriptions


def describe(s, rng):
    """Change all descriptions."""
    s['desc'] = rng.choice(LINES)
    for c in s['classes'] + s['embeds']:
        c['desc'] = rng.choice(LINES)
    for c in [s] + s['classes'] + s['embeds']:
        for p in c['props']:
            p['desc'] = rng.choice(TEXTS)
    return s


def variant(s, j, draw, rng):
    pind, mod, ppath, pzone, cind, ns, cpath, copt, pkg, odd = draw
    v = copy.deepcopy(s)
    name = v['name'] = '{}_v{}'.format(s['name'], j)
    v['py'] = {'path_as': ppath, 'timezone_as': pzone, 'indention': pind}
    v['cpp'] = {'path_as': cpath, 'optional_as': copt, 'datetime_library': s['cpp']['datetime_library'], 'indention': cind}
    for part, key, val in (('py', 'module_name', mod), ('cpp', 'namespace', ns), ('go', 'package', pkg)):
        if val is not None:
            v[part][key] = val.format(name)
    if odd:
        describe(v, rng)
    return v


def families(schemas, n, tag):
    """Each of the schemas with n variants of it."""
    rng = common.rng('variants:' + tag)
    draws = pairs(rng, n * len(schemas), POOLS)
    res = []
    for i, s in enumerate(schemas):
        res.append([s] + [variant(s, j, draws[i * n + j], rng) for j in range(n)])
    return res
