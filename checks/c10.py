"""C10: accepted schemas yield compilable code, clashing names are refused."""
import itertools
import json
import keyword
import re

import common
import deser
import enc
import gen
import model
import names
import run as runmod
import tlc
from model import BOOL, C, DATE, DATETIME, DUR, E, FLOAT, INT, P, PATH, S, STR, T, TIME, TZ, arr, emb, mp, ref

LANGS = ('py', 'go', 'cpp')

# Names to try; what is reserved is decided by spec/MapryIdents.tla.
CPP_WORDS = '''alignas alignof and and_eq asm atomic_cancel atomic_commit atomic_noexcept auto bitand bitor bool break case catch char
char8_t char16_t char32_t class compl concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype
default delete do double dynamic_cast else enum explicit export extern false float for friend goto if import inline int long module mutable
namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed
sizeof static static_assert static_cast struct switch synchronized template this thread_local throw true try typedef typeid typename union
unsigned using virtual void volatile wchar_t while xor xor_eq errno math_errhandling'''.split()
GO_WORDS = '''break default func interface select case defer go map struct chan else goto package switch const fallthrough if range type
continue for import return var'''.split()
PY_WORDS = sorted(keyword.kwlist)
# local names, standard names and names of libraries
USED = '''self cls value errors ref target id graph cast ok kv it std json collections typing datetime pathlib re math pytz str none string
stdin stdout assert isnan major minor nil make len append panic error init main fmt strings regexp time big strconv instance registry_value
instance_value key i result list dict set print exec builtins date boost experimental parse jsoncpp kid target_1 value_1 final override null
eof windows int8_t int64_t size_t log y0 j1 index remove tm values cap add full empty float32 iota any rune byte min max clear sys decimal
match soft_case property classmethod object super filter input abs round sorted format memoryview bytes complex optional map_value variant
pair move make_unique size_type first second insert begin end count optional_value warnings enum_ instances'''.split()
TYPES = '''Error Errors New_errors NewErrors Json String Map Optional Any List Dict None True False Kv It Std Value Ref Instance Target Exception
Test T Main Parse Jsoncpp Typing Re Date NULL EOF INFINITY NAN BUFSIZ EDOM ERANGE EILSEQ WEOF Self Type Id Key Registry Object Int64 Datetime
Time Boost Math Len Repr Errno Value_ref Boolean Rune X1 Print ID JSON Mapping Collections Callable Int64_t Some_graphFromJSONable Graph Generic
Some_graph_toJSONable'''.split()

ALWAYS = ['id', 'self', 'collections', 'int64_t', 'tm', 'errno', 'json', 'error']
PROPS = ['a', 'A', 'aB', 'a_b', 'a_B', 'A_b', 'aB_c', 'ab_c', 'id', 'ID', 'Id', 'i_d', 'iD', 'self', 'Self', 'collections', 'x1', 'X1', 'x_1', 'class', 'Class',
         'none', 'int', 'items', 'errors', 'abs', 'AB_s', 'people', 'things', 'async']
COMPS = ['Ab', 'AB', 'A_b', 'A_B', 'Aa', 'Some_url', 'Some_URL', 'SomeUrl', 'SomeURL', 'Error', 'New_errors', 'NewErrors', 'Errors', 'Json', 'JSON', 'None', 'Class',
         'Item', 'Items', 'Collection', 'Id', 'Self', 'Some_graph', 'SomeGraph', 'Ab_toJSONable', 'A_bFromJSONable', 'ItemToJSONable', 'Instance', 'Person',
         'Persons', 'Union', 'Thing', 'X1', 'X_1', 'Value', 'Test']
PLURALS = ['Items', 'A_bs', 'Abs', 'AB_s', 'A_b_S', 'Ids', 'ID', 'Self', 'Class', 'Collections', 'Instance', 'Persons', 'People', 'Things', 'X1', 'X_1', 'AbC',
           'Ab_c', 'A_bC', 'Async', 'Int', 'Errno', 'Values']

MODULES = ['a.b', 'class.x', 'x.class', 'typing', 're', 'x.typing', 'x.re', 'None', 'async', 'collections.x', 'a.None', 'pathlib', 'pytz.x', 'datetime', 'typingx',
           'parse', 'x.parse.tojsonable', 'fromjsonable', 'Caps.Some_x', 'x.match', 'a1.b_2']
NAMESPACES = ['a::b', 'class', 'x::class', 'std', 'x::std', 'std::x', 'x::Json', 'Json', 'Json::x', 'x::boost', 'boost::x', 'x::date', 'a::a', 'parse', 'jsoncpp',
              'a::parse::jsoncpp', 're', 'Some_graph', 'Person', 'SomeGraph', 'x::int', 'NULL::a', 'errno', 'concept', 'x::union', 'persons', 'x1::y_2']
PACKAGES = ['type', 'func', 'init', 'fmt', 'documentation', 'Caps', 'string', 'map', 'errors', 'go', 'x1', 'strings', 'time', 'test', 'range', 'SomeGraph']


def cap(word):
    return word[:1].upper() + word[1:]


def codes(text):
    return [ord(c) for c in text]


# ------------------------------------------------------------------ items
def props_of(s, ps):
    idx = {e['name']: i + 1 for i, e in enumerate(s['embeds'])}
    return [{'n': codes(p['name']), 'opt': p['opt'], 'emb': idx[p['t']['name']] if p['t']['k'] == 'embed' else 0} for p in ps]


def written(s):
    """Bounds and texts which the generated code has to write down."""
    bounds, texts = [], []

    def walk(t, place):
        for key in {'integer': ('min', 'max'), 'array': ('min', 'max')}.get(t['k'], ()):
            if t.get(key) is not None:
                n = enc.number(int(t[key]))
                bounds.append({'neg': n['neg'], 'i': n['i'], 'o': place})
        if t.get('re'):
            texts.append({'c': codes(model.re_text(t['re'])), 'o': place})
        if 'v' in t:
            walk(t['v'], place + '/values')
    for ref, c in [('#', s)] + [('#/classes/{}'.format(i), c) for i, c in enumerate(s['classes'])] + [('#/embeds/{}'.format(i), e) for i, e in enumerate(s['embeds'])]:
        if c.get('id_re'):
            texts.append({'c': codes(model.re_text(c['id_re'])), 'o': ref})
        for p in c['props']:
            texts.append({'c': codes(p['json']), 'o': '{}/{}'.format(ref, p['name'])})
            walk(p['t'], '{}/{}'.format(ref, p['name']))
    return bounds, texts


def abstract(s, lang):
    bounds, texts = written(s)
    libs = ['Json'] + (['boost'] if 'boost' in s['cpp']['path_as'] + s['cpp']['optional_as'] else []) + (['date'] if s['cpp']['datetime_library'] == 'date.h' else [])
    text = {'py': s['py'].get('module_name', s['name']), 'cpp': s['cpp'].get('namespace', s['name']), 'go': s['go'].get('package', s['name'])}[lang]
    return {'lang': lang, 'graph': {'n': codes(s['gname']), 'props': props_of(s, s['props'])},
            'classes': [{'n': codes(c['name']), 'plural': codes(c.get('plural') or names.plural(c['name'])), 'idre': 'id_re' in c, 'props': props_of(s, c['props'])}
                        for c in s['classes']],
            'embeds': [{'n': codes(e['name']), 'props': props_of(s, e['props'])} for e in s['embeds']],
            'bounds': bounds, 'texts': texts, 'parts': re.split(r'\.|::', text), 'libs': libs,
            'place': {'py': '#/py/module_name', 'cpp': '#/cpp/namespace', 'go': '#/go/package'}[lang]}


# ------------------------------------------------------------------ schemas
def word_batches():
    """All words at once, in every place; the owner of each is to be named."""
    res = []
    for lang, words in (('py', PY_WORDS), ('go', GO_WORDS), ('cpp', CPP_WORDS)):
        words = list(dict.fromkeys(w for w in words))
        some = [P(w, INT) for w in words]
        lows = list(dict.fromkeys(cap(w.lower()) for w in words))
        res.append(S('wg' + lang, some, langs=[lang]))
        res.append(S('wc' + lang, [P('zz', INT)], [C('Cls', *some)], langs=[lang]))
        res.append(S('we' + lang, [P('zz', INT)], [], [E('Emb', *some)], langs=[lang]))
        res.append(S('wr' + lang, [P('zz', INT)], [C('Cls_{}'.format(i), P('x', INT), plural=w) for i, w in enumerate(lows)], langs=[lang]))
        comps = list(dict.fromkeys(lows + [cap(w) for w in words] + TYPES))
        res.append(S('wk' + lang, [P('zz', INT)], [C(w, P('x', INT), plural='Reg_{}'.format(i)) for i, w in enumerate(comps)], langs=[lang]))
        res.append(S('wm' + lang, [P('zz', INT)], [], [E(w, P('x', INT)) for w in comps], langs=[lang]))
        for i, w in enumerate(comps):
            res.append(S('wn{}{}'.format(lang, i), [P('zz', INT)], gname=w, langs=[lang]))
    return res


def single_words(rng):
    """One word in one place."""
    res = []
    words = list(dict.fromkeys(PY_WORDS + GO_WORDS + CPP_WORDS + USED))
    words = [w for w in words if w[-1] != '_']
    pairs = [(w, h) for w in words for h in 'gcek']
    for w, h in pairs if common.THOROUGH else [(w, h) for w, h in pairs if w in ALWAYS] + rng.sample(pairs, 140):
        p = P(w, INT)
        n = 's{}_{}'.format(h, w)
        res.append({'g': lambda: S(n, [P('zz', STR, opt=True), p]), 'c': lambda: S(n, [P('zz', INT)], [C('Cls', P('yy', INT), p)]),
                    'e': lambda: S(n, [P('zz', emb('Emb'))], [], [E('Emb', p)]), 'k': lambda: S(n, [P('zz', INT)], [C('Cls', P('yy', INT), plural=cap(w))])}[h]())
    types = [(w, h) for w in dict.fromkeys(TYPES + [cap(w) for w in words]) for h in 'gce']
    for w, h in types if common.THOROUGH else [(cap(w), h) for w in ALWAYS + ['NewErrors', 'Errors'] for h in 'gce'] + rng.sample(types, 80):
        n = 't{}_{}'.format(h, w)
        res.append({'g': lambda: S(n, [P('zz', INT)], [C('Cls', P('x', INT))], gname=w), 'c': lambda: S(n, [P('zz', mp(ref(w)))], [C(w, P('o', ref(w), opt=True))]),
                    'e': lambda: S(n, [P('zz', arr(emb(w)))], [], [E(w, P('x', INT))])}[h]())
    return res


def settings_schemas(rng):
    res = []
    person = [C('Person', P('x', INT), id_re=gen.AB)]
    for i, m in enumerate(MODULES):
        res.append(S('m{}'.format(i), [P('p', ref('Person'), opt=True), P('t', TIME)], person, py={'module_name': m}, langs=['py']))
    for i, m in enumerate(NAMESPACES):
        for j, st in enumerate(gen.SETTINGS + [dict(cpp={'path_as': 'std::filesystem::path', 'optional_as': 'boost::optional'})]):
            res.append(S('n{}_{}'.format(i, j), [P('p', ref('Person'), opt=True), P('q', PATH, opt=True)], person, cpp=dict(st['cpp'], namespace=m), langs=['cpp']))
        res.append(S('n{}_d'.format(i), [P('p', ref('Person'), opt=True), P('q', DATE), P('r', DATETIME, opt=True), P('z', TZ)], person, cpp={'datetime_library': 'date.h', 'namespace': m}, langs=['cpp']))
    for i, m in enumerate(PACKAGES):
        res.append(S('k{}'.format(i), [P('p', ref('Person'), opt=True), P('t', TIME)], person, go={'package': m}, langs=['go']))
    return res


NASTY = ['\x1b', '\ufeff', '`', '"', "'", '\\', '%s', '%d%%', '{', '}', '{x}', '{{', '}}', '\n', '\r', '\t', '\u2028', '\u2029', '\x7f', '\x80', 'é', '漢', '😀', '??/',
         '??=', '/*', '*/', '//', '#', '$', '${x}', '\\n', '\\u0041', '\x01', '\x0b', '\x0c', '\x1c', '\x1f7', '~1', 'a b', ' ', '\x85', '\xa0', "\'\'\'", '"""', '\\"',
         "\\'", '{{ x }}', '{% x %}', '{#', ')v0g0n"', '$(x)', '%', '\ue000', '\u200b', '\\', '\\\\', '\a\b', '    x', '\n    x', '"+"', '`+`', '/']


def literal_schemas():
    """JSON names and patterns full of what languages treat specially."""
    names_ = list(dict.fromkeys(NASTY))
    one = [P('p{}'.format(i), INT, json=w, opt=i % 2 == 0) for i, w in enumerate(names_)]
    two = [P('p{}'.format(i), [STR, arr(INT), mp(BOOL), ref('Cls'), DUR][i % 5], json='k' + w + 'k', opt=i % 3 == 0) for i, w in enumerate(names_)]
    pats = [P('p{}'.format(i), T(['string', 'path'][w.isalpha() and i % 2], re=gen.anchored(model.cat(model.lit(w), model.rep(model.cset('az'), 0))), ex=[w, w + 'a']), opt=i % 2 == 0)
            for i, w in enumerate(names_)]
    ids = [C('Cls_{}'.format(i), P('x', INT), id_re=gen.anchored(model.alt(model.lit(w), model.rep(model.cset('ab'), 1)))) for i, w in enumerate(names_)]
    return [S('lits', two, [C('Cls', *one)], [E('Emb', *one)]), S('pats', pats, [C('Cls', *pats)]), S('ids', [P('x', INT)], ids),
            S('nuls', [P('p', INT, json='a\0b')], [C('Cls', P('q', T('string', re=gen.anchored(model.lit('a\0b')), ex=['a\0b'])))], langs=['py', 'go'])]


def unwritable():
    """Texts and bounds which not every language can write down."""
    res = []
    for w in ('\0', 'a\0b', '\ud800', 'x\udfff'):
        pat = gen.anchored(model.lit(w))
        res += [[P('p', INT, json=w)], [P('p', T('string', re=pat))], [P('p', mp(arr(T('path', re=pat))), opt=True)]]
    for b in (2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 10 ** 19, -10 ** 40, 2 ** 64, 9223372036854775000, 9223372036854770000 * 10, 1.0e19):
        for key in ('min', 'max'):
            if isinstance(b, int):
                res += [[P('p', T('integer', **{key: b}))], [P('p', arr(T('integer', **{key: b})), opt=True)]]
            if b >= 2 ** 63 or (b > 0 and key == 'max'):
                res.append([P('p', mp(arr(INT, **{key: int(b)})))])
    some = [S('u{}'.format(i), ps) for i, ps in enumerate(res)]
    some += [S('uc{}'.format(i), [P('x', INT)], [C('Ok'), C('Cls', *ps)]) for i, ps in enumerate(res)]
    some += [S('ue{}'.format(i), [P('x', INT)], [], [E('Emb', *ps)]) for i, ps in enumerate(res)]
    return some + [S('ui{}'.format(i), [P('x', INT)], [C('Ok'), C('Cls', P('y', INT), id_re=gen.anchored(model.lit(w)))]) for i, w in enumerate(('\0', '\ud800'))]


def random_clashing(rng, n):
    """Schemas with names which are alike."""
    res = []
    while len(res) < n:
        few = rng.random() < 0.5
        pool = rng.sample(COMPS, rng.randint(1, 5))
        ncls = rng.randint(0, len(pool))
        cls, embs = pool[:ncls], pool[ncls:]

        def typ():
            k = rng.random()
            if embs and k < 0.4:
                t = emb(rng.choice(embs))
                return rng.choice([t, t, arr(t), mp(t)])
            if cls and k < 0.6:
                return rng.choice([ref, lambda c: arr(ref(c))])(rng.choice(cls))
            return rng.choice([INT, STR, arr(STR), mp(BOOL)])

        def props(k):
            ns = rng.sample(PROPS, k) if few else ['p{}'.format(i) for i in range(k - 1)] + ([rng.choice(PROPS)] if k else [])
            return [P(x, typ(), opt=rng.random() < 0.4, json='j{}'.format(i)) for i, x in enumerate(ns)]
        plurals = rng.sample(PLURALS, len(cls))
        clss = []
        for c, p in zip(cls, plurals):
            kw = {'plural': p} if rng.random() < 0.6 else {}
            clss.append(C(c, *props(rng.randint(0, 3)), id_re=gen.AB if rng.random() < 0.3 else None, **kw))
        s = S('r{}'.format(len(res)), props(rng.randint(0, 4)), clss, [E(e, *props(rng.randint(0, 3))) for e in embs],
              gname=rng.choice(['Some_graph', 'SomeGraph', 'Graph', 'Persons', 'Items', rng.choice(COMPS)]))
        res.append(s)
    return res


def holding(rng):
    """Embeddables which hold each other, directly or over others."""
    wraps = {'-': None, 'm': lambda e: (emb(e), False), 'o': lambda e: (emb(e), True), 'a': lambda e: (arr(emb(e)), False)}
    res = []

    def one(size, kinds, where):
        es = [E('Emb{}'.format(chr(97 + i)), P('x{}'.format(i), INT)) for i in range(size)]
        for (i, j), k in kinds.items():
            if k != '-':
                t, opt = wraps[k]('Emb{}'.format(chr(97 + j)))
                es[i]['props'].append(P('to{}'.format(j), t, opt=opt))
        rng.shuffle(es)
        user = [P('u', emb('Emba'), opt=True)]
        res.append(S('h{}'.format(len(res)), user if where else [P('x', INT)], [] if where else [C('Cls', *user)], es))
    # rings of mandatory ones, a link of them weaker
    for size in (1, 2, 3, 4):
        for k in 'moa-':
            kinds = {(i, (i + 1) % size): 'm' for i in range(size)}
            kinds[(size - 1, 0)] = k
            one(size, kinds, size % 2)
    # any
    for n in range(400 if common.THOROUGH else 60):
        size = rng.choice((2, 3, 3, 4))
        one(size, {(i, j): rng.choice('---mmmoa') for i in range(size) for j in range(size) if rng.random() < .7}, n % 2)
    return res


ALIKE = [('AB_s', 'Ab_s'), ('ab_c', 'aB_c'), ('aBc', 'a_bc'), ('abC', 'ab_c'), ('A_b', 'a_b'), ('aB', 'a_b'), ('Some_url', 'Some_URL'), ('SomeUrl', 'Some_url'),
         ('X1', 'X_1'), ('x1', 'x_1'), ('ID_s', 'Id_s'), ('HTTPs', 'HTTP_s'), ('Ab', 'AB'), ('abc', 'abC'), ('a1b', 'a1_b'), ('a1B', 'a1_b'), ('someURL_x', 'some_url_x'),
         ('URL_abc', 'Url_abc'), ('URL', 'Url'), ('a_B', 'aB'), ('a_BC', 'a_bc'), ('abs', 'aBs'), ('One_TwoThree', 'One_Two_three'), ('oneTWO', 'one_two'), ('x', 'X'),
         ('id', 'ID'), ('I_d', 'ID'), ('self', 'Self'), ('Ab_C', 'AbC'), ('AbC_d', 'Ab_cD'), ('A1', 'a1'), ('ABs', 'Abs'), ('Bcs_d', 'BCs_d')]


def alike(rng):
    """Two names which are alike, wherever two can meet."""
    res = []

    def typed(w):
        return w[:1].upper() + w[1:]
    for a, b in ALIKE + [(b, a) for a, b in ALIKE]:
        low, high = [P(a, INT), P(b, STR, opt=True)], [typed(a), typed(b)]
        some = [lambda n: S(n, [P('x', INT)] + low), lambda n: S(n, [], [C('Cls', *low)]), lambda n: S(n, [P('x', INT)], [C('Dls')], [E('Emb', *low)]),
                lambda n: S(n, [P(a, INT)], [C('Cls', P('x', INT), plural=typed(b))]),
                lambda n: S(n, [], [C('Cls', P('x', INT), plural=typed(a)), C('Dls', plural=typed(b))]),
                lambda n: S(n, [], [C('Als'), C('Cls', P('x', INT), plural=typed(a), id_re=gen.AB), C('Bls'), C('Dls', plural=typed(b))]),
                lambda n: S(n, [], [C(high[0], plural='Some'), C(high[1], plural='More')]),
                lambda n: S(n, [], [C(high[0], plural='Some', id_re=gen.AB), C('Cls', id_re=gen.AB), C(high[1], plural='More', id_re=gen.AB)]),
                lambda n: S(n, [P('e', emb(high[1]))], [C(high[0], plural='Some')], [E(high[1], P('x', INT))]),
                lambda n: S(n, [], [], [E(high[0], P('x', INT)), E(high[1], P('y', arr(emb(high[0]))))]),
                lambda n: S(n, [P('x', INT)], [C(high[1], plural='Some')], gname=high[0]),
                lambda n: S(n, [P('x', INT)], [], [E(high[1], P('x', INT))], gname=high[0])]
        for i, make in enumerate(some):
            s = make('al{}'.format(len(res)))
            if len({c['name'] for c in s['classes'] + s['embeds']} | {s['gname']}) == 1 + len(s['classes']) + len(s['embeds']):
                res.append(s)
    return res


def clash_schemas(rng):
    res = word_batches() + holding(rng) + alike(rng) + single_words(rng) + settings_schemas(rng) + unwritable() + random_clashing(rng, 3000 if common.THOROUGH else 330)
    # only schemas which are well-formed (C09 decides that)
    proc = common.sh([common.PY, str(common.VERIF / 'lib' / 'drv_schema.py'), str(common.NCPU)],
                     inp=json.dumps([[True, json.dumps(model.describe(s)), None] for s in res]), cwd=common.scratch())
    if proc.returncode != 0:
        return [], proc.stderr
    return [s for s, g in zip(res, json.loads(proc.stdout)) if g['parsed'] == 'schema'], ''


def places(path, text):
    """Places named by the messages, or None."""
    lines = text.splitlines()
    if not lines or not lines[0].startswith('Schema failed to validate'):
        return None
    res = []
    for line in lines[1:]:
        if line.startswith(path + '#'):
            m = re.match(r'(#[^:\s]*):? ', line[len(path):] + ' ')
            res.append(m.group(1).rstrip(':') if m else '?')
    return res


def refusals(ctx, rng):
    """What the tool does with clashing names; return the accepted schemas."""
    schemas, err = clash_schemas(rng)
    if not schemas:
        ctx.violation('no schema can be validated', {'stderr': err[-3000:]})
        return []
    root = common.scratch() / 'clash'
    root.mkdir()
    jobs, meta = [], []
    for i, s in enumerate(schemas):
        pth = root / '{}.json'.format(i)
        pth.write_text(json.dumps(model.describe(s)))
        for lang in s['langs']:
            out = root / 'out-{}-{}'.format(i, lang)
            jobs.append([str(i), lang, str(pth), str(out)])
            meta.append((i, lang, str(pth), out))
    items, raw = [], []
    for (i, lang, pth, out), (_, _, code, text) in zip(meta, runmod.generate(jobs)):
        got = {'refused': code != 0, 'places': [], 'files': 0, 'crash': ''}
        if code != 0:
            got['files'] = sum(1 for p in out.rglob('*') if p.is_file()) if out.exists() else 0
            ps = places(pth, text)
            if code != 1 or ps is None:
                got['crash'] = '{}: {}'.format(code, text[:300])
            else:
                got['places'] = sorted(set(ps))
        items.append({'s': abstract(schemas[i], lang), 'got': got})
        raw.append((i, lang, code, text))
    common.log('{} generations of {} schemas'.format(len(items), len(schemas)))
    ctx.count('generations_judged', len(items))
    ctx.traces += len(items)
    for x in range(0, len(items), max(1, len(items) // 5)):
        ctx.sample({'schema': model.describe(schemas[raw[x][0]]), 'lang': raw[x][1], 'places': items[x]['got']['places'][:10]}, limit=5)
    bad = {}
    for k, why in tlc.judge('MapryIdentified', items, 'c10', ctx=ctx):
        i, lang, code, text = raw[k - 1]
        bad.setdefault((i, lang), why)
        ctx.violation('{} ({}, schema {})'.format(items[k - 1]['got']['crash'] if why == 'crash' else why, lang, schemas[i]['name']),
                      {'schema': model.describe(schemas[i]), 'lang': lang, 'exit': code, 'stderr': text[:3000]}, group=(why.split(' at ')[0], lang))
    good = []
    for i, s in enumerate(schemas):
        langs = [lang for (j, lang, code, _) in raw_of(raw, i) if code == 0 and (i, lang) not in bad]
        refused = [lang for (j, lang, code, _) in raw_of(raw, i) if code != 0]
        ctx.count('schemas_accepted', len(langs))
        ctx.count('schemas_refused', len(refused))
        ctx.keys.add((s['name'][:2], tuple(langs), tuple(refused)))
        if langs:
            good.append(dict(s, langs=langs))
    return good


def raw_of(raw, i, _cache={}):
    if _cache.get('id') is not raw:
        _cache.clear()
        _cache['id'] = raw
        by = _cache['by'] = {}
        for r in raw:
            by.setdefault(r[0], []).append(r)
    return _cache['by'].get(i, [])


# ------------------------------------------------------------------ programs
def finite(s):
    """Can every embeddable be written down?"""
    done = set()
    while True:
        more = {e['name'] for e in s['embeds'] if all(p['opt'] or p['t']['k'] != 'embed' or p['t']['name'] in done for p in e['props'])}
        if more == done:
            return len(done) == len(s['embeds'])
        done = more


def harmless_words(lang):
    """Schemas full of words which need not be refused."""
    bad = {'py': set(PY_WORDS) | {'self', 'collections', 'id'}, 'cpp': set(CPP_WORDS) | {'id', 'int64_t', 'tm'}, 'go': {'id'}}[lang]
    words = [w for w in dict.fromkeys(USED + PY_WORDS + GO_WORDS + CPP_WORDS) if w[-1] != '_' and w.lower() not in {x.lower() for x in bad}]
    seen, uniq = set(), []
    for w in words:
        key = names.ucamel(w).lower()
        if key not in seen:
            seen.add(key)
            uniq.append(w)
    types = [INT, STR, arr(STR), mp(FLOAT), DATE, ref('Cls'), emb('Emb'), TZ, DUR, PATH, TIME, arr(arr(BOOL))]
    some = [P(w, types[i % len(types)], opt=i % 3 == 0) for i, w in enumerate(uniq)]
    res = []
    for i in range(0, len(some), 60):
        part = some[i:i + 60]
        less = [p for p in part if p['t']['k'] != 'embed']
        res.append(S('harmless_{}{}'.format(lang, i), part, [C('Cls', *part[::-1])], [E('Emb', *less)], langs=[lang]))
    return res


SWEEP = [('bo', BOOL), ('i', INT), ('im', T('integer', min=-3)), ('ix', T('integer', min=1, xmin=True, max=9)), ('f', FLOAT), ('fm', T('float', max=2.5)), ('s', STR),
         ('sr', T('string', re=gen.AB)), ('p', PATH), ('pr', T('path', re=gen.AB)), ('d', DATE), ('t', TIME), ('dt', DATETIME),
         ('dtf', T('datetime', fmt=['%Y', '-', '%m', '-', '%d', ' ', '%H'])), ('z', TZ), ('du', DUR), ('c', ref('Cls')), ('e', emb('Emb'))]
CONTAINERS = [('', lambda t: t), ('a', arr), ('ab', lambda t: arr(t, min=1, max=3)), ('m', mp), ('aa', lambda t: arr(arr(t, max=2))),
              ('ma', lambda t: mp(arr(t))), ('am', lambda t: arr(mp(t), min=1))]
CPPS = [{'path_as': p, 'optional_as': o} for p in ('std::filesystem::path', 'boost::filesystem::path') for o in ('std::optional', 'boost::optional')]
CPPS += [{'path_as': 'std::filesystem::path', 'optional_as': 'std::experimental::optional'}, dict(gen.SETTINGS[4]['cpp']), dict(gen.SETTINGS[5]['cpp'])]
PYS = [{'path_as': p, 'timezone_as': z} for p in ('str', 'pathlib.Path') for z in ('str', 'pytz.timezone')]


def sweep(rng):
    """One property only: each type in each container in each composite."""
    res = []
    for (tn, t), (cn, c), h, o in itertools.product(SWEEP, CONTAINERS, 'gce', (False, True)):
        p = P('prop', c(t), opt=o)
        cl, em, gp = [], [], []
        if tn == 'c' or h == 'c':
            cl.append(C('Cls'))
        if tn == 'e':
            em.append(E('Emb'))
        if h == 'g':
            gp = [p]
        elif h == 'c':
            cl[0]['props'] = [p]
        else:
            em.append(E('Holder', p))
        res.append(S('x{}_{}_{}{}'.format(tn, cn, h, int(o)), gp, cl, em, py=rng.choice(PYS), cpp=rng.choice(CPPS)))
    rng.shuffle(res)
    if not common.THOROUGH:
        # every type in every composite, and the rest at random
        seen, some, rest = set(), [], []
        for s in res:
            key = (s['name'].split('_')[0], s['name'][-2])
            (some if key not in seen else rest).append(s)
            seen.add(key)
        res = some + rest[:60]
    return res + [S('x_none'), S('x_class', [], [C('Cls')]), S('x_idre', [], [C('Cls', id_re=gen.AB)]), S('x_embed', [], [], [E('Emb')])]


def mixtures(rng, n):
    """A few properties of different types here and there: what a file imports depends on all of them."""
    res = []
    for i in range(n):
        ncls, nemb = rng.choice([(0, 0), (1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (0, 3), (1, 1), (2, 2), (1, 3)])
        cs = [C(x, id_re=rng.choice([None, None, gen.AB])) for x in rng.sample(['Zed', 'Mid', 'Abe', 'Cls'], ncls)]
        es = [E(x) for x in rng.sample(['Yon', 'Box', 'Kit', 'Emb'], nemb)]
        for place in [None] + cs + es:
            known = [x['name'] for x in es[:es.index(place)]] if place in es else [x['name'] for x in es]
            k = rng.choice([0, 0, 1, 1, 2] if place is not None or ncls + nemb else [1, 2, 3])
            ps = []
            for j in range(k):
                t = rng.choice(SWEEP)[1]
                if t['k'] == 'class':
                    t = ref(rng.choice(cs)['name']) if cs else INT
                elif t['k'] == 'embed':
                    t = emb(rng.choice(known)) if known else FLOAT
                ps.append(P('p{}'.format(j), rng.choice(CONTAINERS)[1](t), opt=rng.random() < .4))
            if place is None:
                gp = ps
            else:
                place['props'] = ps
        res.append(S('mx{}'.format(i), gp, cs, es, py=rng.choice(PYS), cpp=rng.choice(CPPS), langs=LANGS if i % 6 == 0 else ('py', 'go')))
    # patterns of identifiers on some of the classes
    for i, mask in enumerate(itertools.product((None, gen.AB), repeat=3)):
        for k in (2, 3):
            cs = [C(x, P('x', BOOL), id_re=m) for x, m in zip(['Zed', 'Abe', 'Mid'][:k], mask)]
            res.append(S('mxi{}_{}'.format(i, k), [], cs, langs=LANGS if i % 3 == 0 else ('py', 'go')))
    return res


def strings(s):
    """Does the types header have to include <string> in the eyes of mapry?"""
    def has(t):
        return t['k'] in ('string', 'time_zone') or ('v' in t and has(t['v']))
    comps = [s['props']] + [c['props'] for c in s['classes']] + [e['props'] for e in s['embeds']]
    return bool(s['classes']) or any(has(p['t']) for ps in comps for p in ps)


def stand_alone(ctx, bench, rng):
    """Every header and source file compiles by itself."""
    todo = []
    for n in bench.names('cpp'):
        d = bench.outdir(n, 'cpp')
        todo += [(n, d / f) for f in ('types.h', 'jsoncpp.cpp')]
    some = bench.names('cpp')[:1]
    todo += [(n, bench.outdir(n, 'cpp') / f) for n in some for f in ('parse.h', 'parse.cpp', 'jsoncpp.h')]
    # files which include the same and are alike need not be compiled twice
    seen, uniq = {}, []
    for n, f in todo:
        inc = re.findall(r'#include (\S+)', f.read_text())
        used = sorted(set(re.findall(r'\b(?:std|boost|Json|date)::\w+(?:::\w+)?|\bstr[a-z]+\(|\bis[a-z]+\(|\bu?int\d+_t\b|\b[A-Z_]{4,}\b', f.read_text())))
        key = (f.name, tuple(i for i in inc if str(n) not in i), tuple(used))
        if key not in seen:
            seen[key] = n
            uniq.append((n, f))
    if not common.THOROUGH and len(uniq) > 90:
        uniq = uniq[-3:] + rng.sample(uniq[:-3], 87)

    def alone(f, *flags):
        proc = common.sh(['g++', '-std=c++17', '-fsyntax-only', '-w', '-I', str(runmod.LIB / 'cpp'), '-I', str(runmod.OPTIONAL), *runmod.Bench.DATE, *flags, '-x', 'c++', str(f)], cwd=common.scratch())
        return proc.returncode, proc.stderr

    def one(item):
        n, f = item
        return (n, f) + alone(f)
    unstrung = []
    for n, f, code, err in runmod._pmap(one, uniq):
        if code != 0 and f.name == 'types.h' and alone(f, '-include', 'string')[0] == 0 and not strings(bench.schemas[n]):
            unstrung.append(n)
        elif code != 0:
            ctx.violation('{} of the schema {} does not compile by itself: {}'.format(f.name, n, runmod._first_errors(err)[:500]),
                          {'schema': model.describe(bench.schemas[n]), 'lang': 'cpp', 'why': err[:3000]}, group=('alone', f.name))
    if 'F-types-string' not in ctx.known_seen:
        ctx.finding('F-types-string', bool(unstrung), 'types.h of a schema with maps, but neither strings nor classes, does not compile by itself', {'schemas': unstrung})
    ctx.count('cpp_files_alone', len(uniq))
    common.log('{} files by themselves'.format(len(uniq)))


def go_tests(ctx, bench):
    """The generated Go tests compile as well."""
    pkgs = bench.names('go')
    if not pkgs:
        return
    proc = common.sh(['go', 'vet', '-unreachable'] + pkgs, environ=bench.go_env(), cwd=bench.root, timeout=700)
    if proc.returncode != 0:
        n = re.search(r'# (\w+)', proc.stderr)
        n = n.group(1) if n else None
        ctx.violation('generated Go code does not pass go vet: {}'.format(proc.stderr[:500]),
                      {'schema': model.describe(bench.schemas[n]) if n in bench.schemas else None, 'lang': 'go', 'why': proc.stderr[:3000]}, group='vet')
    ctx.count('go_packages_with_tests', len(pkgs))
    common.log('go vet')


def py_modules(ctx, bench):
    """Every generated module can be imported by itself."""
    code = ('import sys, json, subprocess, importlib\n'
            'bad = []\n'
            'for m in json.load(sys.stdin):\n'
            '    for k in list(sys.modules):\n'
            '        if k.split(".")[0] == m.split(".")[0]: del sys.modules[k]\n'
            '    try: importlib.import_module(m)\n'
            '    except BaseException as e: bad.append([m, type(e).__name__ + ": " + str(e)[:300]])\n'
            'print(json.dumps(bad))\n')
    mods = []
    for n in bench.names('py'):
        base = bench.schemas[n]['py'].get('module_name', n)
        mods += [(n, base), (n, base + '.parse'), (n, base + '.fromjsonable'), (n, base + '.tojsonable')]
    proc = common.sh([common.PY, '-c', code], inp=json.dumps([m for _, m in mods]), cwd=bench.root / 'py', environ=common.env(PYTHONPATH=str(bench.root / 'py')))
    if proc.returncode != 0:
        raise runmod.NoAnswer(proc.stderr[-2000:])
    of = {m: n for n, m in mods}
    for m, why in json.loads(proc.stdout):
        ctx.violation('the module {} cannot be imported: {}'.format(m, why), {'schema': model.describe(bench.schemas[of[m]]), 'lang': 'py', 'why': why}, group='import')
    ctx.count('python_modules_imported', len(mods))


def model_check(ctx):
    d = 5 if common.THOROUGH else 4
    e = 4 if common.THOROUGH else 3
    code, out = tlc.run('MapryIdentsRun', {'Ids': '{"a", "b", "d"}', 'ReservedIds': '{"d"}', 'MaxDecls': str(d), 'Embeds': '1..{}'.format(e),
                                           'Remember': '"first"'}, invariants=['Named', 'Found'], tag='c10-model')
    ctx.tlc(out)
    if code != 0:
        raise tlc.TlcError(out[-3000:])
    # remembering only the last owner must not do
    code, out = tlc.run('MapryIdentsRun', {'Ids': '{"a", "b"}', 'ReservedIds': '{}', 'MaxDecls': '3', 'Embeds': '1..1', 'Remember': '"last"'},
                        invariants=['Named'], tag='c10-vacuity')
    if code == 0 or 'Named is violated' not in out:
        raise tlc.TlcError('MapryIdentsRun does not tell a wrong walk:\n' + out[-2000:])
    common.log('model checked')


def run(ctx):
    rng = common.rng('c10')
    model_check(ctx)
    good = refusals(ctx, rng)
    # accepted schemas compile and do what their names promise
    few = [s for s in good if s['name'][0] in 'mk']
    rest = [s for s in good if s['name'][0] not in 'mk']
    rng.shuffle(rest)
    rest = rest if common.THOROUGH else rest[:90]
    seen, chosen = set(), []
    for s in few + rest + [s for lang in LANGS for s in harmless_words(lang)]:
        # Go packages are folders
        if s['name'].lower() not in seen and finite(s):
            seen.add(s['name'].lower())
            chosen.append(s)
    ex = deser.Explorer(ctx, chosen, 'c10names')
    runs = [(lang, cap, False) for lang, cap in (('py', 50), ('go', 1), ('cpp', 50))]
    # those at the limits of numbers only have to compile
    ex.schemas = [s for s in ex.schemas if s['name'][0] != 'u']
    ex.conforming(2, runs)
    ex.judge({'accepted', 'rejected', 'wrong value', 'written differently', 'neither graph nor errors', 'disagree'})
    go_tests(ctx, ex.bench)
    py_modules(ctx, ex.bench)
    stand_alone(ctx, ex.bench, rng)
    ex = deser.Explorer(ctx, literal_schemas(), 'c10literals')
    ex.conforming(6, runs)
    for s in ex.schemas:
        for one in ({}, {'p': None}, {'p': '!'}):
            def props(ps):
                return {p['json']: one['p'] for p in ps} if one else {}
            ex.add(s, props(s['props']), runs, 'nothing right')
            doc = props(s['props'])
            for c in s['classes']:
                doc[c['key']] = {'a': props(c['props'])}
            ex.add(s, doc, runs, 'nothing right in classes')
    ex.judge({'accepted', 'rejected', 'wrong value', 'written differently', 'neither graph nor errors', 'disagree'})
    go_tests(ctx, ex.bench)
    ex = deser.Explorer(ctx, sweep(rng) + mixtures(rng, 600 if common.THOROUGH else 150), 'c10sweep')
    ex.conforming(1, runs)
    ex.judge({'rejected', 'wrong value', 'written differently', 'disagree'})
    go_tests(ctx, ex.bench)
    py_modules(ctx, ex.bench)
    stand_alone(ctx, ex.bench, rng)
