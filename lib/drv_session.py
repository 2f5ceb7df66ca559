"""Runs inside the environment of /repo: replay one process of a session.

stdin: {"texts": {variant: text of the description}, "steps": [...], "dir": scratch}
stdout: the list of what happened in the steps.
"""
import collections
import contextlib
import gc
import hashlib
import io
import json
import pathlib
import sys
import warnings

warnings.simplefilter('ignore')
import mapry.main  # noqa: E402
import mapry.parse  # noqa: E402
import drv_model  # noqa: E402


def sha(data):
    return hashlib.sha1(data).hexdigest()[:12]


def model(schema):
    return sha(json.dumps(drv_model.dump(schema)).encode())


def parts(schema, lang):
    """The generator functions, each as it is called by itself."""
    graph = schema.graph
    if lang == 'py':
        gen, conf = mapry.py.generate, schema.py
        return [('__init__.py', lambda: gen.types.generate(graph=graph, py=conf)), ('parse.py', lambda: gen.parse.generate(graph=graph, py=conf)),
                ('fromjsonable.py', lambda: gen.fromjsonable.generate(graph=graph, py=conf)),
                ('tojsonable.py', lambda: gen.tojsonable.generate(graph=graph, py=conf))]
    if lang == 'go':
        gen, conf = mapry.go.generate, schema.go
        return [('types.go', lambda: gen.types.generate(graph=graph, go=conf)), ('parse.go', lambda: gen.parse.generate(go=conf)),
                ('from_jsonable.go', lambda: gen.fromjsonable.generate(graph=graph, go=conf)),
                ('from_jsonable_test.go', lambda: gen.fromjsonable_test.generate(graph=graph, go=conf)),
                ('to_jsonable.go', lambda: gen.tojsonable.generate(graph=graph, go=conf)),
                ('to_jsonable_test.go', lambda: gen.tojsonable_test.generate(graph=graph, go=conf))]
    gen, conf = mapry.cpp.generate, schema.cpp
    return [('types.h', lambda: gen.types_header.generate(graph=graph, cpp=conf)), ('parse.h', lambda: gen.parse_header.generate(cpp=conf)),
            ('parse.cpp', lambda: gen.parse_impl.generate(cpp=conf, parse_header_path='parse.h')),
            ('jsoncpp.h', lambda: gen.jsoncpp_header.generate(graph=graph, cpp=conf, types_header_path='types.h', parse_header_path='parse.h')),
            ('jsoncpp.cpp', lambda: gen.jsoncpp_impl.generate(graph=graph, cpp=conf, types_header_path='types.h', parse_header_path='parse.h',
                                                              jsoncpp_header_path='jsoncpp.h'))]


def generate(schema, text, op, out):
    """Return whether it succeeded and the files."""
    lang, how = op['lang'], op['how']
    if how in ('cli', 'main'):
        if how == 'main':
            out.mkdir()
            code = getattr(mapry.main, 'generate_' + lang)(schema=schema, outdir=out)
        else:
            path = out.parent / (out.name + '.json')
            path.write_text(text, encoding='utf-8')
            sys.argv = ['mapry-to', lang, '--schema', str(path), '--outdir', str(out)]
            code = mapry.main.run(prog='mapry-to')
        if code != 0:
            return False, {}
        return True, {p.name: sha(p.read_bytes()) for p in out.iterdir()}
    if getattr(schema, lang) is None or getattr(mapry, lang).validation.validate_schema(schema=schema):
        return False, {}
    fns = parts(schema, lang)
    return True, {name: sha(fn().encode('utf-8')) for name, fn in (fns if how == 'parts' else fns[::-1])}


PARTS = ['go', 'graph', 'cpp', 'py']


def load(text, left, want):
    """Read the schema, if possible so that a part of it is where there was one of another schema."""
    tried = []
    for _ in range(12 if left else 1):
        tried.append(mapry.parse.schema_from_mapping(json.loads(text, object_pairs_hook=collections.OrderedDict), '#'))
        if (want, id(getattr(tried[-1], want))) in left:
            break
    return tried[-1]


def main():
    inp = json.load(sys.stdin)
    out = pathlib.Path(inp['dir'])
    slots, texts, res, left = {}, {}, [], set()
    for j, op in enumerate(inp['steps']):
        st = {'op': op}
        stdout, stderr = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr):
            if op['op'] == 'load':
                st.update(ok=False, model='')
                try:
                    slots[op['slot']] = load(inp['texts'][op['v']], left, PARTS[j % 4])
                    texts[op['slot']] = inp['texts'][op['v']]
                    st.update(ok=True, model=model(slots[op['slot']]))
                except Exception as exc:  # pylint: disable=broad-except
                    st['err'] = repr(exc)[:300]
            elif op['op'] == 'forget':
                left |= {(part, id(getattr(slots[op['slot']], part))) for part in PARTS}
                del slots[op['slot']]
                gc.collect()
            elif op['op'] == 'gen':
                st.update(ok=False, files={}, err='')
                try:
                    st['ok'], st['files'] = generate(slots[op['slot']], texts[op['slot']], op, out / 'o{}'.format(j))
                except Exception as exc:  # pylint: disable=broad-except
                    st['err'] = repr(exc)[:300]
                st['model'] = model(slots[op['slot']])
        if not st.get('ok', True):
            st['err'] = (st.get('err', '') + stderr.getvalue())[:400]
        res.append(st)
    json.dump(res, sys.stdout)


if __name__ == '__main__':
    main()
