"""Descriptions of schemas: well-formed ones, and edits which may spoil them.

Nothing here decides whether a description is well-formed; the specification
(spec/MaprySchema.tla) does.
"""
import collections
import copy
import itertools
import json

import names

OD = collections.OrderedDict

GOOD_PATTERNS = ['^a+$', '[a-z]{2,3}', '', '(x|y)*', '\\d+', '^[^/]*\\.txt$']
BAD_PATTERNS = ['(', '[a', '*', 'a{2,1}', '(?P<x', '\\', 'a**', ')', '[z-a]', '(?P<1>a)']
FORMATS = ['%Y-%m-%d', '%H:%M:%S', '%Y-%m-%dT%H:%M:%SZ', '%d. %B %y', '%I:%M %p', '%l %P', '%e %b %A', '%%', 'x', '', '%', '%Q', '%Y %', '%H', '%j', '%z', 'a%',
           '%s', '%Y\n%m', '%-d', '% d', '%1', '%é', '%Yx%y']
PRIMITIVE = ['boolean', 'integer', 'float', 'string', 'path', 'date', 'time', 'datetime', 'time_zone', 'duration', 'array', 'map']
KEYS = {'integer': ['minimum', 'exclusive_minimum', 'maximum', 'exclusive_maximum'], 'string': ['pattern'], 'date': ['format'],
        'array': ['minimum_size', 'maximum_size']}
KEYS.update({'float': KEYS['integer'], 'path': KEYS['string'], 'time': KEYS['date'], 'datetime': KEYS['date']})
NAMES = ['Some_class', 'Other', 'X', 'Url_thing', 'Some_focus', 'Box', 'Day']
BAD_NAMES = ['some', '', '1x', 'A_', 'A-b', 'A b', 'É', 'Aé', 'A\n', '_A', 'A.b', ' A', 'A ', 'aB', 'A__', 'A\n\n', 'A\u0660']
PROPS = ['x', 'some_prop', 'URL', 'a1', 'Zz', 'some__prop', 'q_9']
BAD_PROPS = ['', '_x', 'x_', '1', 'x y', 'x-y', 'é', 'x\n', 'id', 'x.y', 'ids', 'a/b', 'xé', 'x_\n']
DESCRIPTIONS = ['defines x.', 'x.', 'a b\u00e9.', 'x..', 'is a.b.', 'gives "x".', 'x.\n', 'xX.']
BAD_DESCRIPTIONS = ['', 'x', '.', 'X.', 'defines x', ' x.', 'a\nb.', '1.', 'é.', 'x. ', 'x.\n\n', 'x.\r\n', '\nx.', 'a.\nb.']
BLANKS = ['', ' ', '  ', '\t', ' \t ']
BAD_BLANKS = ['x', ' \n', '\n', '\u00a0', '  .', '  \n\n']
NAMESPACES = ['a', 'a::b', 'A1_::b_', 'a::b::c']
BAD_NAMESPACES = ['', 'a:b', 'a::', '::a', '1a', 'a.b', 'a b', 'a:::b', 'a::1', 'a\n', '_a', 'a::b\n', 'é']
MODULES = ['a', 'a.b', 'A_1.b_c', 'a.b.c']
BAD_MODULES = ['', 'a..b', '.a', 'a.', 'a-b', '1a', 'a b', 'a::b', 'a.1', 'a\n', '_a', 'a.b\n', 'aé']
PACKAGES = ['a', 'A_1', 'a_']
BAD_PACKAGES = ['', 'a.b', '1a', '_a', 'a-b', 'a\n', 'é', 'aé']
TEXTS = ['', 'x', '  ', 'defines.', 'é\n', '"', '\\']
WRONG = [None, True, False, 0, 1, -1, 2, 1.0, 0.5, -2.5, '', 'x', 'integer', [], {}, [1], [{}], {'type': 'string'}, 10 ** 20, 'defines x.']
NUMBERS = [0, 1, 2, -1, 5, -5, 9999, 10000, 10 ** 15, -10 ** 4, 10 ** 16 - 1, -1001]
FLOATS = NUMBERS + [0.5, 1.0, -2.25, 1e-7, 1e15, 2.0, 0.1]
HUGE = [float('inf'), -float('inf'), float('nan'), 10 ** 400, -10 ** 400, 1e300, -1e300, 10 ** 300]
KNOWN = {'path_as': ['std::filesystem::path', 'boost::filesystem::path', 'str', 'pathlib.Path'], 'optional_as': ['boost::optional', 'std::optional', 'std::experimental::optional'],
         'datetime_library': ['ctime', 'date.h'], 'timezone_as': ['str', 'pytz.timezone']}
ALL_KEYS = ['name', 'description', 'cpp', 'go', 'py', 'classes', 'embeds', 'properties', 'plural', 'id_pattern', 'type', 'json', 'optional', 'values', 'minimum', 'maximum',
            'exclusive_minimum', 'exclusive_maximum', 'pattern', 'format', 'minimum_size', 'maximum_size', 'namespace', 'module_name', 'package', 'indention', 'path_as',
            'optional_as', 'datetime_library', 'timezone_as', 'junk', 'Description', 'ref', '']


class Maker:
    def __init__(self, rng):
        self.rng = rng

    def type(self, composites, depth=0, top=False):
        rng = self.rng
        k = rng.choice(PRIMITIVE + composites * 2 + (['array', 'map'] if depth < 3 else []))
        if depth >= 3 and k in ('array', 'map'):
            k = 'integer'
        d = OD([('type', k)])
        if top or rng.random() < 0.15:
            d['description'] = rng.choice(TEXTS)
        more = []
        if k in ('integer', 'float'):
            pool = sorted(rng.sample(NUMBERS if k == 'integer' else FLOATS, 2))
            if rng.random() < 0.2:
                pool = [pool[0], pool[0] + rng.choice([0, 1, 2])]
            keep = rng.random()
            if keep < 0.7:
                more.append(('minimum', pool[0]))
            if keep > 0.3:
                more.append(('maximum', pool[1]))
            for x in ('exclusive_minimum', 'exclusive_maximum'):
                if rng.random() < 0.3:
                    more.append((x, rng.random() < 0.6))
        elif k in ('string', 'path'):
            if rng.random() < 0.5:
                more.append(('pattern', rng.choice(GOOD_PATTERNS)))
        elif k in ('date', 'time', 'datetime'):
            if rng.random() < 0.5:
                more.append(('format', {'date': '%d.%m.%Y', 'time': '%H-%M-%S', 'datetime': '%Y %m %d %H %M %S'}[k]))
        elif k in ('array', 'map'):
            more.append(('values', self.type(composites, depth + 1)))
            if k == 'array':
                a, b = sorted(rng.sample([0, 1, 2, 3, 100], 2))
                if rng.random() < 0.5:
                    more.append(('minimum_size', a))
                if rng.random() < 0.5:
                    more.append(('maximum_size', rng.choice([b, b, a])))
        if top:
            if rng.random() < 0.3:
                more.append(('optional', rng.random() < 0.6))
        rng.shuffle(more)
        d.update(more)
        return d

    def properties(self, composites, n):
        rng = self.rng
        res = OD()
        for p in rng.sample(PROPS, n):
            res[p] = self.type(composites, top=True)
            if rng.random() < 0.3:
                res[p]['json'] = rng.choice(['j_' + p, p + ' ', 'é' + p, p])
        return res

    def schema(self):
        rng = self.rng
        pool = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
        ncls = rng.randint(0, len(pool))
        d = OD([('name', 'Graph_{}'.format(rng.choice('xyz'))), ('description', rng.choice(DESCRIPTIONS))])
        more = []
        if rng.random() < 0.4:
            more.append(('cpp', OD([('namespace', rng.choice(NAMESPACES)), ('path_as', rng.choice(KNOWN['path_as'][:2])), ('optional_as', rng.choice(KNOWN['optional_as'])),
                                    ('datetime_library', rng.choice(KNOWN['datetime_library']))] + ([('indention', rng.choice(BLANKS))] if rng.random() < 0.5 else []))))
        if rng.random() < 0.4:
            more.append(('go', OD([('package', rng.choice(PACKAGES))])))
        if rng.random() < 0.4:
            more.append(('py', OD([('module_name', rng.choice(MODULES)), ('path_as', rng.choice(KNOWN['path_as'][2:])), ('timezone_as', rng.choice(KNOWN['timezone_as']))]
                                  + ([('indention', rng.choice(BLANKS[1:]))] if rng.random() < 0.5 else []))))
        classes, embeds = [], []
        for i, n in enumerate(pool):
            c = [('name', n), ('description', rng.choice(DESCRIPTIONS))]
            if i < ncls:
                if rng.random() < 0.3:
                    c.append(('plural', rng.choice(['Many_', 'Zz', 'Set_of_']) + n))
                if rng.random() < 0.3:
                    c.append(('id_pattern', rng.choice(GOOD_PATTERNS)))
            if rng.random() < 0.8:
                c.append(('properties', self.properties(pool, rng.randint(0, 3))))
            rng.shuffle(c)
            (classes if i < ncls else embeds).append(OD(c))
        if classes or rng.random() < 0.2:
            more.append(('classes', classes))
        if embeds or rng.random() < 0.2:
            more.append(('embeds', embeds))
        if rng.random() < 0.8:
            more.append(('properties', self.properties(pool, rng.randint(0, 3))))
        rng.shuffle(more)
        d.update(more)
        return d

    # ---------------------------------------------------------------- edits
    def nodes(self, x, path=()):
        yield path, x
        if isinstance(x, dict):
            for k, v in x.items():
                yield from self.nodes(v, path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                yield from self.nodes(v, path + (i,))

    def alternative(self, path, x):
        """Another value for the place."""
        rng = self.rng
        key = path[-1] if path else ''
        pools = {'name': NAMES + BAD_NAMES + ['Graph_x'], 'plural': NAMES + BAD_NAMES + ['Many_x', 'BOXES', 'Days', 'Some_prop'],
                 'description': DESCRIPTIONS + BAD_DESCRIPTIONS, 'type': PRIMITIVE + NAMES + ['Graph_x', 'int', '', '1', 'Integer', 'x_', ' integer', 'integer\n'],
                 'pattern': GOOD_PATTERNS + BAD_PATTERNS, 'id_pattern': GOOD_PATTERNS + BAD_PATTERNS, 'format': FORMATS,
                 'minimum': FLOATS + HUGE, 'maximum': FLOATS + HUGE, 'minimum_size': [0, 1, 2, 3, -1, 100, 1.0, 101, 0.5], 'maximum_size': [0, 1, 2, 3, -1, 100, 1.0],
                 'exclusive_minimum': [True, False, 0, 1], 'exclusive_maximum': [True, False, 0, 1], 'optional': [True, False, 0, 'true'],
                 'json': PROPS + ['j_x', 'boxes', 'days', 'some_foci', 'others', '', 'é', 'a b', 'id'], 'namespace': NAMESPACES + BAD_NAMESPACES,
                 'module_name': MODULES + BAD_MODULES, 'package': PACKAGES + BAD_PACKAGES, 'indention': BLANKS + BAD_BLANKS,
                 'values': [{'type': 'integer'}, {'type': 'Box'}, {'type': 'nope'}, {}, {'type': 'array'}, {'type': 'map', 'values': {'type': 'date', 'format': '%H'}}]}
        pools.update({k: v + ['', v[0] + 'x', v[0] + '\n'] for k, v in KNOWN.items()})
        if key in pools and rng.random() < 0.8:
            return copy.deepcopy(rng.choice(pools[key]))
        return copy.deepcopy(rng.choice(WRONG))

    def edit(self, doc):
        """Change a little of the description, in place; return what."""
        rng = self.rng
        nodes = list(self.nodes(doc))
        # all kinds of places alike
        byname = collections.defaultdict(list)
        for path, x in nodes[1:]:
            kind = path[-1] if isinstance(path[-1], str) else '{}[]'.format(path[-2])
            if len(path) > 1 and path[-2] == 'properties':
                kind = 'property'
            byname[kind].append((path, x))
        if not byname:
            return 'nothing'
        path, x = rng.choice(byname[rng.choice(sorted(byname))])
        at = doc
        for p in path[:-1]:
            at = at[p]
        key = path[-1]
        if not isinstance(at, dict) and isinstance(key, str):
            return 'nothing'
        op = rng.choice(['put', 'put', 'put', 'put', 'del', 'rename', 'add', 'move', 'twice', 'name'])
        if op == 'put':
            at[key] = self.alternative(path, x)
        elif op == 'del':
            del at[key]
        elif isinstance(at, list):
            new = copy.deepcopy(x)
            if isinstance(new, dict) and rng.random() < 0.7:
                if 'name' in new and rng.random() < 0.7:
                    new['name'] = rng.choice(NAMES + BAD_NAMES + ['Boxes', 'BOX', 'DAY', 'Graph_x'])
                if rng.random() < 0.3:
                    new['plural'] = rng.choice(['Boxes', 'BOXES', 'Days', 'Others', 'Some_classes'])
            at.insert(rng.randint(0, len(at)), new)
            op = 'twice'
        elif op == 'rename' or op == 'name':
            inside = len(path) > 1 and path[-2] == 'properties'
            if inside:
                new = rng.choice(PROPS + BAD_PROPS + ['boxes', 'days', 'some_foci', 'some_classes', 'j_x'])
            else:
                new = rng.choice(ALL_KEYS)
            items = [(new if k == key else k, v) for k, v in at.items()]
            at.clear()
            at.update(items)
        elif op == 'add':
            target = x if isinstance(x, dict) else at
            k = rng.choice(ALL_KEYS)
            if target is not at and path[-1] == 'properties':
                k = rng.choice(PROPS + BAD_PROPS)
                target[k] = OD([('type', rng.choice(PRIMITIVE[:10] + NAMES)), ('description', 'x')])
            else:
                target[k] = self.alternative((k,), None)
        elif op == 'move':
            items = list(at.items())
            rng.shuffle(items)
            at.clear()
            at.update(items)
        elif op == 'twice':
            at[key + 'x' if isinstance(key, str) else key] = copy.deepcopy(x)
        return '{} {}'.format(op, '/'.join(str(p) if not isinstance(p, int) else '#' for p in path[-2:]))

    def collide(self, d):
        """Let two entities of the description share a name, in place."""
        rng = self.rng
        if not all(isinstance(x, dict) and isinstance(x.get('name'), str) for x in [d] + d.get('classes', []) + d.get('embeds', [])):
            return 'nothing'
        classes, comps = d.get('classes', []), d.get('classes', []) + d.get('embeds', [])
        types = [x for path, x in self.nodes(d) if isinstance(x, dict) and 'type' in x and path[-1:] != ('properties',)]
        op = rng.choice(['graph property', 'graph property', 'type graph', 'composite', 'plural', 'json', 'json', 'elsewhere'])
        case = rng.choice([str, str, str, str.upper, str.capitalize])

        def key(c):
            return (c.get('plural') or names.plural(c['name'])).lower()
        if op == 'graph property' and classes:
            props = d.setdefault('properties', OD())
            k = case(key(rng.choice(classes)))
            if rng.random() < 0.5:
                props[k] = OD([('type', 'integer'), ('description', 'x')])
                if rng.random() < 0.4:
                    props[k]['json'] = 'jj'
            elif props:
                rng.choice(list(props.values()))['json'] = k
        elif op == 'type graph' and types:
            rng.choice(types)['type'] = d['name']
        elif op == 'composite' and comps:
            rng.choice(comps)['name'] = case(rng.choice([d] + comps)['name'])
        elif op == 'plural' and classes:
            rng.choice(classes)['plural'] = rng.choice([key(rng.choice(classes)).capitalize(), names.plural(rng.choice(comps)['name']), names.plural(rng.choice(NAMES)).upper()])
        elif op in ('json', 'elsewhere'):
            with_props = [c for c in [d] + comps if len(c.get('properties', {})) > 1]
            if not with_props:
                return 'nothing'
            c = rng.choice(with_props)
            a, b = rng.sample(list(c['properties']), 2)
            if op == 'elsewhere':
                b = rng.choice([n for o in with_props for n in o['properties']])
            c['properties'][a]['json'] = c['properties'].get(b, {}).get('json', b)
            if rng.random() < 0.3:
                c['properties'][a]['json'] = b
        return 'collision ' + op

    def tame(self, x, key=None):
        """Replace patterns of which it is not known whether they are patterns."""
        if isinstance(x, dict):
            return OD((k, self.tame(v, k)) for k, v in x.items())
        if isinstance(x, list):
            return [self.tame(v) for v in x]
        if key in ('pattern', 'id_pattern') and isinstance(x, str) and x not in GOOD_PATTERNS + BAD_PATTERNS:
            return self.rng.choice(GOOD_PATTERNS + BAD_PATTERNS)
        return x


def types_with(rng):
    """All types with all keys: definitions of properties."""
    res = []
    for k in PRIMITIVE + ['Box', 'Day', 'Nope']:
        base = OD([('type', k)])
        if k in ('array', 'map'):
            base['values'] = OD([('type', 'integer')])
        res.append(base)
        for key in ALL_KEYS:
            if key in ('type', 'description'):
                continue
            for v in (WRONG if key in ALL_KEYS[11:22] else ['x', 1]):
                if key == 'pattern' and v not in GOOD_PATTERNS and isinstance(v, str):
                    v = '('
                d = OD(base)
                d[key] = v
                res.append(d)
    for k in ('integer', 'float'):
        bounds = [None, 0, 1, 2, -1, -2, 9999, 10000] + ([0.5, 1.0] if k == 'float' else [])
        for a in bounds:
            for b in bounds:
                for xa in (None, True, False):
                    for xb in (None, True, False):
                        d = OD([('type', k)])
                        for n, v in (('minimum', a), ('maximum', b), ('exclusive_minimum', xa), ('exclusive_maximum', xb)):
                            if v is not None:
                                d[n] = v
                        res.append(d)
    for k, v, n in itertools.product(('integer', 'float'), HUGE, ('minimum', 'maximum')):
        res.append(OD([('type', k), (n, v)]))
    for a in (None, 0, 1, 2, 3, -1):
        for b in (None, 0, 1, 2, 3, -1):
            d = OD([('type', 'array'), ('values', OD([('type', 'Box')]))])
            for n, v in (('minimum_size', a), ('maximum_size', b)):
                if v is not None:
                    d[n] = v
            res.append(d)
    for k in ('date', 'time', 'datetime'):
        res += [OD([('type', k), ('format', f)]) for f in FORMATS]
    for k in ('string', 'path'):
        res += [OD([('type', k), ('pattern', f)]) for f in GOOD_PATTERNS + BAD_PATTERNS]
    return res


def packed(rng, defs):
    """Descriptions which hold the definitions as properties or within."""
    docs = []
    defs = list(defs)
    rng.shuffle(defs)
    for i in range(0, len(defs), 12):
        homes = [OD(), OD(), OD()]
        for j, t in enumerate(defs[i:i + 12]):
            t = copy.deepcopy(t)
            how = rng.randrange(4)
            if how == 0:
                t = OD([('type', 'array'), ('values', t)])
            elif how == 1:
                t = OD([('type', 'map'), ('values', OD([('type', rng.choice(['array', 'map'])), ('values', t)]))])
            t['description'] = 'x'
            t.move_to_end('description', last=False)
            if 'type' in t:
                t.move_to_end('type', last=False)
            homes[j % 3]['p{}'.format(j)] = t
        docs.append(OD([('name', 'Graph_x'), ('description', 'defines x.'),
                        ('classes', [OD([('name', 'Box'), ('description', 'defines x.'), ('properties', homes[0])])]),
                        ('embeds', [OD([('name', 'Day'), ('description', 'defines x.'), ('properties', homes[1])])]), ('properties', homes[2])]))
    return docs


def text(doc):
    return json.dumps(doc, ensure_ascii=False)
