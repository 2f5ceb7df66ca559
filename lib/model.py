"""Schemas as the specification sees them, and their mapry descriptions.

A type is a dict with the tag 'k' (see spec/MapryValue.tla), exactly as TLC
reads it. ``describe`` writes the description which mapry reads. Patterns are
syntax trees, so the specification never parses pattern texts; date/time
formats are token sequences for the same reason.
"""
import collections

import enc
import names

OD = collections.OrderedDict


# ---------------------------------------------------------------- patterns
def chr_(c):
    return {'k': 'chr', 'c': ord(c)}


def cset(*ranges, neg=False):
    return {'k': 'set', 'neg': neg, 'r': [[ord(r[0]), ord(r[-1])] for r in ranges]}


ANY = {'k': 'any'}
BOL = {'k': 'bol'}
EOL = {'k': 'eol'}


def cat(*es):
    return {'k': 'cat', 'e': list(es)}


def alt(*es):
    return {'k': 'alt', 'e': list(es)}


def rep(e, lo, hi=-1):
    return {'k': 'rep', 'e': e, 'lo': lo, 'hi': hi}


def lit(text):
    return cat(*[chr_(c) for c in text])


def anchored(e):
    return cat(BOL, e, EOL)


_SPECIAL = set('\\^$.|?*+()[]{}')


def re_text(ast):
    """Write the pattern tree as a pattern text."""
    k = ast['k']
    if k == 'chr':
        c = chr(ast['c'])
        return '\\' + c if c in _SPECIAL else c
    if k == 'any':
        return '.'
    if k == 'bol':
        return '^'
    if k == 'eol':
        return '$'
    if k == 'set':
        def one(c):
            c = chr(c)
            return '\\' + c if c in '\\]^-' else c
        return '[' + ('^' if ast['neg'] else '') + ''.join(
            one(a) if a == b else one(a) + '-' + one(b)
            for a, b in ast['r']) + ']'
    if k == 'cat':
        return ''.join(
            '(' + re_text(e) + ')' if e['k'] == 'alt' else re_text(e)
            for e in ast['e'])
    if k == 'alt':
        return '|'.join(re_text(e) for e in ast['e'])
    if k == 'rep':
        inner = re_text(ast['e'])
        if ast['e']['k'] not in ('chr', 'set', 'any'):
            inner = '(' + inner + ')'
        lo, hi = ast['lo'], ast['hi']
        if (lo, hi) == (0, -1):
            return inner + '*'
        if (lo, hi) == (1, -1):
            return inner + '+'
        if (lo, hi) == (0, 1):
            return inner + '?'
        if lo == hi:
            return inner + '{%d}' % lo
        if hi == -1:
            return inner + '{%d,}' % lo
        return inner + '{%d,%d}' % (lo, hi)
    raise NotImplementedError(k)


# ---------------------------------------------------------------- types
def T(k, **kw):
    t = {'k': k}
    t.update(kw)
    return t


BOOL = T('boolean')
INT = T('integer')
FLOAT = T('float')
STR = T('string')
PATH = T('path')
DATE = T('date')
TIME = T('time')
DATETIME = T('datetime')
TZ = T('time_zone')
DUR = T('duration')


def arr(v, **kw):
    return T('array', v=v, **kw)


def mp(v):
    return T('map', v=v)


def ref(name):
    return T('class', name=name)


def emb(name):
    return T('embed', name=name)


def P(name, t, opt=False, json=None):
    return {'name': name, 'json': json or name, 'opt': opt, 't': t}


def C(name, *props, key=None, plural=None, id_re=None):
    c = {'name': name, 'props': list(props),
         'key': key or ((plural or names.plural(name)).lower())}
    if plural:
        c['plural'] = plural
    if id_re:
        c['id_re'] = id_re
    return c


def E(name, *props):
    return {'name': name, 'props': list(props)}


PY_DEFAULT = {'path_as': 'pathlib.Path', 'timezone_as': 'pytz.timezone'}
CPP_DEFAULT = {'path_as': 'std::filesystem::path', 'optional_as': 'std::optional',
               'datetime_library': 'ctime'}


def S(name, props=(), classes=(), embeds=(), py=None, cpp=None, go=None,
      gname='Some_graph', langs=('py', 'go', 'cpp'), **kw):
    """Make a schema; ``name`` identifies it within a run."""
    s = {'name': name, 'gname': gname, 'props': list(props),
         'classes': list(classes), 'embeds': list(embeds),
         'py': dict(PY_DEFAULT, **(py or {})),
         'cpp': dict(CPP_DEFAULT, **(cpp or {})), 'go': dict(go or {}),
         'langs': list(langs)}
    s.update(kw)
    return s


DEFAULT_FORMATS = {'date': ['%Y', '-', '%m', '-', '%d'],
                   'time': ['%H', ':', '%M', ':', '%S'],
                   'datetime': ['%Y', '-', '%m', '-', '%d', 'T', '%H', ':',
                                '%M', ':', '%S', 'Z']}


def num_of(encoded):
    return encoded


def describe_type(t):
    k = t['k']
    d = OD()
    if k in ('class', 'embed'):
        d['type'] = t['name']
        return d
    d['type'] = k
    if k in ('integer', 'float'):
        for a, b in (('min', 'minimum'), ('max', 'maximum')):
            if a in t:
                d[b] = t[a]
        if t.get('xmin'):
            d['exclusive_minimum'] = True
        if t.get('xmax'):
            d['exclusive_maximum'] = True
    elif k in ('string', 'path'):
        if 're' in t:
            d['pattern'] = t.get('re_text') or re_text(t['re'])
    elif k in ('date', 'time', 'datetime'):
        if 'fmt' in t:
            d['format'] = ''.join(t['fmt'])
    elif k == 'array':
        if 'min' in t:
            d['minimum_size'] = t['min']
        if 'max' in t:
            d['maximum_size'] = t['max']
        d['values'] = describe_type(t['v'])
    elif k == 'map':
        d['values'] = describe_type(t['v'])
    return d


def describe_props(props):
    result = OD()
    for p in props:
        d = describe_type(p['t'])
        d['description'] = p.get('desc', 'defines the property.')
        for key in list(d):
            if key not in ('type', 'description'):
                d.move_to_end(key)
        if p['opt']:
            d['optional'] = True
        if p['json'] != p['name']:
            d['json'] = p['json']
        result[p['name']] = d
    return result


def describe(s):
    """Write the mapry description of the schema."""
    d = OD()
    d['name'] = s['gname']
    d['description'] = s.get('desc', 'defines some object graph.')
    nm = s['name']
    if 'cpp' in s['langs']:
        d['cpp'] = OD([('namespace', s['cpp'].get('namespace', nm))] + [
            (k, s['cpp'][k]) for k in ('path_as', 'optional_as', 'datetime_library')])
        if 'indention' in s['cpp']:
            d['cpp']['indention'] = s['cpp']['indention']
    if 'go' in s['langs']:
        d['go'] = OD([('package', s['go'].get('package', nm))])
    if 'py' in s['langs']:
        d['py'] = OD([('module_name', s['py'].get('module_name', nm)),
                      ('path_as', s['py']['path_as']),
                      ('timezone_as', s['py']['timezone_as'])])
        if 'indention' in s['py']:
            d['py']['indention'] = s['py']['indention']
    if s['classes'] or s.get('force_lists'):
        lst = []
        for c in s['classes']:
            cd = OD([('name', c['name'])])
            if 'plural' in c:
                cd['plural'] = c['plural']
            cd['description'] = c.get('desc', 'defines a class.')
            if 'id_re' in c:
                cd['id_pattern'] = c.get('id_text') or re_text(c['id_re'])
            cd['properties'] = describe_props(c['props'])
            lst.append(cd)
        d['classes'] = lst
    if s['embeds'] or s.get('force_lists'):
        lst = []
        for c in s['embeds']:
            cd = OD([('name', c['name']),
                     ('description', c.get('desc', 'defines an embeddable.'))])
            cd['properties'] = describe_props(c['props'])
            lst.append(cd)
        d['embeds'] = lst
    if s['props'] or s.get('force_props'):
        d['properties'] = describe_props(s['props'])
    return d


# ---------------------------------------------------------------- for TLC
def tla_type(t):
    k = t['k']
    d = {'k': k}
    if k in ('integer', 'float'):
        for a in ('min', 'max'):
            if a in t:
                d[a] = enc.number(t[a])
        d['xmin'] = bool(t.get('xmin'))
        d['xmax'] = bool(t.get('xmax'))
    elif k in ('string', 'path'):
        if 're' in t:
            d['re'] = t['re']
    elif k in ('date', 'time', 'datetime'):
        d['fmt'] = [enc.token(x) for x in t.get('fmt', DEFAULT_FORMATS[k])]
    elif k == 'array':
        for a in ('min', 'max'):
            if a in t:
                d[a] = t[a]
        d['v'] = tla_type(t['v'])
    elif k == 'map':
        d['v'] = tla_type(t['v'])
    else:
        d.update({a: b for a, b in t.items() if a == 'name'})
    return d


def tla_props(props):
    return [{'name': p['name'], 'json': p['json'], 'opt': p['opt'],
             't': tla_type(p['t'])} for p in props]


def tla_schema(s):
    """Encode the schema for TLC."""
    return {
        'name': s['name'],
        'graph': {'props': tla_props(s['props'])},
        'corder': [c['name'] for c in s['classes']],
        'classes': {c['name']: dict(
            {'key': c['key'], 'props': tla_props(c['props'])},
            **({'id_re': c['id_re']} if 'id_re' in c else {}))
            for c in s['classes']},
        'embeds': {c['name']: {'props': tla_props(c['props'])}
                   for c in s['embeds']},
        'py': {'path_as': s['py']['path_as'], 'timezone_as': s['py']['timezone_as']},
        'cpp': {'dt': s['cpp']['datetime_library']},
    }


def composite(s, name):
    for c in s['classes'] + s['embeds']:
        if c['name'] == name:
            return c
    raise KeyError(name)
