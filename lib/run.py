"""Build generated programs and run them on documents.

``Bench`` takes schemas (lib/model.py), lets the mapry of /repo generate code
for every language, builds it, runs jobs and turns what the programs printed
into the observations which spec/MapryTrace.tla reads.
"""
import concurrent.futures
import json
import os
import pathlib
import re
import subprocess

import common
import enc
import model
import names

LIB = pathlib.Path(__file__).resolve().parent
# the library of Howard Hinnant comes with the tests of mapry
DATE = common.REPO / 'test_dependencies' / 'cpp' / 'date-2.4.1'
OPTIONAL = common.REPO / 'test_dependencies' / 'cpp' / 'optional' / 'include'
GO_DRIVER = (LIB / 'go' / 'driver.go.txt')


class NoAnswer(Exception):
    """The machinery itself failed."""


def generate(jobs):
    """Run mapry on [id, lang, schema path, outdir]; return their results."""
    if not jobs:
        return []
    proc = common.sh([common.PY, str(LIB / 'drv_gen.py'), str(common.NCPU)],
                     inp=json.dumps(jobs), cwd=common.scratch())
    if proc.returncode != 0:
        # mapry cannot even be imported
        return [[j[0], j[1], 'ImportError', proc.stderr[-2000:]] for j in jobs]
    return json.loads(proc.stdout)


def _pmap(fn, items, n=None):
    with concurrent.futures.ThreadPoolExecutor(n or common.NCPU) as ex:
        return list(ex.map(fn, items))


class Bench:
    def __init__(self, schemas, tag, langs=('py', 'go', 'cpp')):
        self.tag = tag
        self.schemas = {s['name']: s for s in schemas}
        assert len(self.schemas) == len(schemas)
        self.langs = langs
        self.root = common.scratch() / 'bench-{}'.format(tag)
        self.root.mkdir()
        self.refused = {}      # (schema, lang) -> (code, stderr)
        self.broken = {}       # (schema, lang) -> compiler output
        self.cpp_bins = {}     # schema -> binary
        self.go_bin = None
        self._generate()
        tasks = []
        if 'go' in langs:
            tasks.append(self._build_go)
        if 'cpp' in langs:
            tasks.append(self._build_cpp)
        for t in tasks:
            t()

    # ------------------------------------------------------------ generation
    def ok(self, name, lang):
        return (lang in self.schemas[name]['langs'] and lang in self.langs
                and (name, lang) not in self.refused
                and (name, lang) not in self.broken)

    def names(self, lang):
        return [n for n in self.schemas if self.ok(n, lang)]

    def outdir(self, name, lang):
        s = self.schemas[name]
        if lang == 'py':
            return self.root / 'py' / pathlib.Path(
                *s['py'].get('module_name', name).split('.'))
        if lang == 'go':
            return self.root / 'go' / 'src' / name
        return self.root / 'cpp' / name

    def _generate(self):
        jobs = []
        (self.root / 'schemas').mkdir()
        for name, s in self.schemas.items():
            pth = self.root / 'schemas' / (name + '.json')
            text = json.dumps(model.describe(s), ensure_ascii=False)
            if any('\ud800' <= c <= '\udfff' for c in text):
                text = json.dumps(model.describe(s))
            pth.write_text(text,
                           encoding='utf-8')
            for lang in self.langs:
                if lang in s['langs']:
                    out = self.outdir(name, lang)
                    jobs.append([name, lang, str(pth), str(out)])
                    if lang == 'py':
                        # packages on the way
                        d = out.parent
                        while d != self.root / 'py' and self.root in d.parents:
                            d.mkdir(parents=True, exist_ok=True)
                            (d / '__init__.py').touch()
                            d = d.parent
        for name, lang, code, err in generate(jobs):
            if code != 0:
                self.refused[(name, lang)] = (code, err)

    # ------------------------------------------------------------ Go
    def go_env(self):
        return common.env(GOPATH=str(self.root / 'go'))

    def _go_main(self, good):
        lines = ['package main', '', 'import (']
        lines += ['\t{} "{}"'.format('p' + str(i), n) for i, n in enumerate(good)]
        lines += [')', '', 'func init() {']
        for i, n in enumerate(good):
            s = self.schemas[n]
            g = names.ucamel(s['gname'])
            regs = [names.ucamel(c.get('plural') or s_plural(c)) for c in s['classes']]
            save = 'return p{i}.{g}ToJSONable(g.(*p{i}.{g}))'.format(i=i, g=g)
            lines.append(
                '\trunners["{n}"] = runner{{load: func(v interface{{}}, ref string, '
                'cap uint64) ([]ErrT, interface{{}}) {{\n'
                '\t\terrs := p{i}.NewErrors(cap)\n\t\tg := &p{i}.{g}{{}}\n'
                '\t\tp{i}.{g}FromJSONable(v, ref, g, errs)\n\t\tres := []ErrT{{}}\n'
                '\t\tfor _, e := range errs.Values() {{ res = append(res, ErrT{{e.Ref, e.Message}}) }}\n'
                '\t\treturn res, g\n\t}}, save: func(g interface{{}}) (map[string]interface{{}}, error) '
                '{{ {save} }}, regs: []string{{{regs}}}, make: func() interface{{}} {{ return &p{i}.{g}{{}} }}}}'.format(
                    n=n, i=i, g=g, save=save,
                    regs=', '.join('"{}"'.format(r) for r in regs)))
        lines.append('}')
        return '\n'.join(lines) + '\n'

    def _build_go(self):
        good = self.names('go')
        if not good:
            return
        d = self.root / 'go' / 'src' / 'drv'
        d.mkdir(parents=True)
        (d / 'driver.go').write_text(GO_DRIVER.read_text())
        for attempt in range(3):
            (d / 'main.go').write_text(self._go_main(good))
            proc = common.sh(['go', 'build', '-gcflags=-e', '-o',
                              str(self.root / 'godrv'), 'drv'],
                             environ=self.go_env(), cwd=self.root)
            if proc.returncode == 0:
                self.go_bin = self.root / 'godrv'
                return
            # which packages do not compile?
            text = proc.stderr + proc.stdout
            bad = {}
            cur = None
            for line in text.splitlines():
                m = re.match(r'# (\S+)', line)
                if m:
                    cur = m.group(1)
                elif cur:
                    m2 = re.match(r'(?:\S*/)?src/(\w+)/\w+\.go:', line)
                    key = m2.group(1) if m2 else cur
                    if cur == 'drv':
                        m3 = re.search(r'\bp(\d+)\.', line)
                        key = good[int(m3.group(1))] if m3 else None
                    if key in self.schemas:
                        bad.setdefault(key, []).append(line)
                else:
                    m2 = re.match(r'(?:\S*/)?src/(\w+)/\w+\.go:', line)
                    if m2 and m2.group(1) in self.schemas:
                        bad.setdefault(m2.group(1), []).append(line)
            if not bad:
                # package-wise fallback
                for n in good:
                    p = common.sh(['go', 'build', n], environ=self.go_env(),
                                  cwd=self.root)
                    if p.returncode != 0:
                        bad[n] = (p.stderr + p.stdout).splitlines()
            if not bad:
                raise NoAnswer('go build failed:\n' + text[-3000:])
            for n, msgs in bad.items():
                self.broken[(n, 'go')] = '\n'.join(msgs[:5])
            good = self.names('go')
            if not good:
                return
        raise NoAnswer('go build keeps failing:\n' + text[-3000:])

    def run_go(self, jobs, nproc=4):
        """jobs: [schema, text, ref, cap, ordered]; returns raw outcomes."""
        if not jobs:
            return []
        if self.go_bin is None:
            return [{'noload': 'not compiled'}] * len(jobs)

        def shard(k):
            part = jobs[k::nproc]
            if not part:
                return []
            jp = self.root / 'gojobs{}.json'.format(k)
            op = self.root / 'goout{}.json'.format(k)
            jp.write_text('\n'.join(json.dumps(
                {'S': j[0], 'D': j[1], 'R': j[2], 'C': j[3]} if isinstance(j[1], str) else
                {'S': j[0], 'H': j[1], 'R': j[2]}) for j in part))
            proc = common.sh([str(self.go_bin), str(jp), str(op)],
                             environ=self.go_env(), timeout=600)
            if proc.returncode != 0:
                raise NoAnswer('go driver failed: ' + proc.stderr[-2000:])
            return [json.loads(l) for l in op.read_text().split("\n") if l]
        res = [None] * len(jobs)
        for k, part in enumerate(_pmap(shard, range(nproc))):
            res[k::nproc] = part
        return res

    # ------------------------------------------------------------ C++
    CXX = ['g++', '-std=c++17', '-O0', '-w', '-ftrivial-auto-var-init=zero',
           '-fno-var-tracking', '-g0']

    DATE = ['-DUSE_OS_TZDB=1', '-DONLY_C_LOCALE=1', '-DHAS_REMOTE_API=0', '-I', str(DATE / 'include')]

    def _cpp_ns(self, s):
        return s['cpp'].get('namespace', s['name'])

    def _cpp_src(self, n):
        s = self.schemas[n]
        ns = self._cpp_ns(s)
        g = names.ucamel(s['gname'])
        path_is = s['cpp']['path_as']
        out = ['#include "{}/types.h"'.format(self.outdir(n, 'cpp')),
               '#include "{}/parse.cpp"'.format(self.outdir(n, 'cpp')),
               '#include "{}/jsoncpp.cpp"'.format(self.outdir(n, 'cpp')),
               'namespace d_{} {{'.format(n), 'using namespace drv;']
        counter = [0]

        def value(t, expr, ind):
            counter[0] += 1
            i = counter[0]
            k = t['k']
            if k == 'path':
                return 'dump_path(({}).string(), o);'.format(expr)
            if k == 'array':
                return ('o += "["; {{ bool f{i} = true; for (const auto& x{i} : {e}) '
                        '{{ if (!f{i}) o += ","; f{i} = false; {b} }} }} o += "]";').format(
                            i=i, e=expr, b=value(
                                t['v'], ('bool(x{})' if t['v']['k'] == 'boolean' else 'x{}').format(i), ind))
            if k == 'map':
                return ('o += "{{\\"m\\":["; {{ bool f{i} = true; for (const auto& x{i} : {e}) '
                        '{{ if (!f{i}) o += ","; f{i} = false; o += "["; quote(x{i}.first, o); '
                        'o += ","; {b} o += "]"; }} }} o += "]}}";').format(
                            i=i, e=expr, b=value(t['v'], 'x{}.second'.format(i), ind))
            if k == 'class':
                return 'dump_ref(c, {}, o);'.format(expr)
            if k == 'embed':
                return 'dump_{}(c, {}, o);'.format(t['name'], expr)
            if k == 'time_zone':
                return 'dump(c, {}, o);'.format(expr)
            return 'dump(c, {}, o);'.format(expr)

        def props(c, obj):
            body = ['bool first = true;']
            for p in c['props']:
                f = '{}.{}'.format(obj, names.lower(p['name']))
                inner = ('if (!first) o += ","; first = false; o += "[\\"{}\\",";'.format(p['name'])
                         + value(p['t'], '(*{})'.format(f) if p['opt'] else f, 0)
                         + ' o += "]";')
                body.append(('if ({}) {{ {} }}'.format(f, inner)) if p['opt']
                            else '{{ {} }}'.format(inner))
            return '\n  '.join(body)

        for e in s['embeds']:
            out.append('void dump_{0}(const Ctx& c, const {1}::{2}& v, std::string& o);'.format(
                e['name'], ns, names.ucamel(e['name'])))
        for e in s['embeds']:
            out.append('void dump_{0}(const Ctx& c, const {1}::{2}& v, std::string& o) {{\n'
                       '  o += "{{\\"e\\":[";\n  {3}\n  o += "]}}"; }}'.format(
                           e['name'], ns, names.ucamel(e['name']), props(e, 'v')))
        for e in s['classes']:
            out.append('void props_{0}(const Ctx& c, const {1}::{2}& v, std::string& o) {{\n'
                       '  {3}\n }}'.format(
                           e['name'], ns, names.ucamel(e['name']), props(e, 'v')))
        out.append('std::string graph(const {}::{}& g) {{'.format(ns, g))
        out.append('  Ctx c; std::string o = "{\\"m\\":[";')
        for cl in s['classes']:
            reg = names.lower(cl.get('plural') or s_plural(cl))
            out.append('  for (const auto& p : g.{0}) c.ptrs[p.second.get()] = {{"{1}", p.first}};'.format(
                reg, cl['name']))
        out.append('  {' + props(s, 'g') + '}')
        out.append('  o += "],\\"regs\\":[";')
        for j, cl in enumerate(s['classes']):
            reg = names.lower(cl.get('plural') or s_plural(cl))
            out.append(
                '  {comma} o += "[\\"{n}\\",["; {{ bool f = true; for (const auto& p : g.{reg}) {{ '
                'if (!f) o += ","; f = false; o += "["; quote(p.first, o); o += ","; '
                'quote(p.second->id, o); o += ",["; props_{n}(c, *p.second, o); o += "]]"; }} }} '
                'o += "]]";'.format(comma='o += ",";' if j else '', n=cl['name'], reg=reg))
        out.append('  return o + "]}"; }')
        out.append('''Run run(const Json::Value& doc, const std::string& ref, size_t cap) {{
  Run r; {ns}::{g} t; {ns}::parse::Errors errs(cap);
  {ns}::jsoncpp::{low}_from(doc, ref, &t, &errs);
  for (const auto& e : errs.get()) r.errs.push_back(Err{{e.ref, e.message}});
  if (r.errs.empty()) {{
    r.graph = graph(t);
    Json::Value ser = {ns}::jsoncpp::serialize_{low}(t);
    ser.write(r.ser);
    if (graph(t) != r.graph) r.notes.push_back("graph changed by writing");
    {ns}::{g} t2; {ns}::parse::Errors errs2(1);
    if (!ser.isNull()) {{
    {ns}::jsoncpp::{low}_from(Json::Value::parse(r.ser), ref, &t2, &errs2);
    if (!errs2.get().empty()) {{ bool em = r.ser.find("null") != std::string::npos; if (!em) r.notes.push_back("written JSON rejected"); }}
    else if (graph(t2) != r.graph) r.notes.push_back("graph differs after a round trip");
    }}
  }}
  return r; }}
static Reg reg("{n}", run);
}}'''.format(ns=ns, g=g, low=names.lower(s['gname']), n=n))
        if s.get('hist'):
            out.append(self._cpp_hist(s, ns, g))
        return '\n'.join(out)

    def _cpp_hist(self, s, ns, g):
        """A client which changes graphs (see spec/MapryHistory.tla)."""
        out = ['namespace {} {{ using drv::build;'.format(ns)]
        for c in s['classes']:
            out.append('inline void build(drv::Heap& h, const Json::Value& v, {0}** o) '
                       '{{ *o = static_cast<{0}*>(h.obj[v["h"].asInt()]); }}'.format(names.ucamel(c['name'])))
        for e in s['embeds']:
            out.append('inline void build(drv::Heap& h, const Json::Value& v, {}* o);'.format(names.ucamel(e['name'])))

        def sets(c, obj):
            res = []
            for p in c['props']:
                f = '{}{}'.format(obj, names.lower(p['name']))
                if p['opt']:
                    res.append('if (prop == "{}") {{ if (clear) {f}.reset(); else {{ '
                               'std::decay_t<decltype(*{f})> x{{}}; build(h, v, &x); {f} = x; }} }}'.format(p['name'], f=f))
                else:
                    res.append('if (prop == "{}") build(h, v, &{});'.format(p['name'], f))
            return '\n  '.join(res)
        for c in s['classes'] + s['embeds'] + [dict(s, name='')]:
            cls = names.ucamel(c['name']) if c['name'] else g
            out.append('inline void set_prop(drv::Heap& h, {0}* o, const std::string& prop, bool clear, '
                       'const Json::Value& v) {{\n  {1}\n}}'.format(cls, sets(c, 'o->')))
        for e in s['embeds']:
            out.append('inline void build(drv::Heap& h, const Json::Value& v, {0}* o) {{ *o = {0}(); const Json::Value& m = v["e"]; '
                       'for (unsigned i = 0; i < m.size(); ++i) set_prop(h, o, m[i][0].asString(), false, m[i][1]); }}'.format(
                           names.ucamel(e['name'])))
        out.append('}')
        out.append('namespace d_{} {{'.format(s['name']))
        cases = {k: [] for k in ('decl', 'add', 'set', 'remove', 'readd', 'rename', 'rekey', 'at', 'reset')}
        for c in s['classes']:
            d = {'C': ns + '::' + names.ucamel(c['name']), 'n': c['name'],
                 'reg': names.lower(c.get('plural') or s_plural(c))}
            cases['decl'].append('std::map<int, std::unique_ptr<{C}>> own_{n};'.format(**d))
            cases['add'].append('if (cls == "{n}") {{ std::unique_ptr<{C}> p(new {C}()); p->id = id; h.obj[hd] = p.get(); '
                                'gr->{reg}[id] = std::move(p); }}'.format(**d))
            cases['set'].append('if (hd != 0 && cls == "{n}") {ns}::set_prop(h, static_cast<{C}*>(h.obj[hd]), prop, clear, op["value"]);'.format(ns=ns, **d))
            cases['remove'].append('if (cls == "{n}") {{ own_{n}[hd] = std::move(gr->{reg}[key]); gr->{reg}.erase(key); }}'.format(**d))
            cases['readd'].append('if (cls == "{n}") gr->{reg}[key] = std::move(own_{n}[hd]);'.format(**d))
            cases['rename'].append('if (cls == "{n}") static_cast<{C}*>(h.obj[hd])->id = id;'.format(**d))
            cases['rekey'].append('if (cls == "{n}") {{ auto x = std::move(gr->{reg}[old]); gr->{reg}.erase(old); gr->{reg}[key] = std::move(x); }}'.format(**d))
            cases['at'].append('if (at[i][0].asString() == "{n}") h.obj[at[i][2].asInt()] = gr->{reg}[at[i][1].asString()].get();'.format(**d))
        out.append('''std::string hist(const Json::Value& ops, const std::string& ref) {
  using G = NS::GG;
  drv::Heap h; std::unique_ptr<G> gr(new G()); std::string text, o = "["; bool first = true;
  @decl@
  for (unsigned n = 0; n < ops.size(); ++n) {
    const Json::Value& op = ops[n];
    std::string kind = op["op"].asString(), cls = op["cls"].asString(), id = op["id"].asString(), key = op["key"].asString(),
      old = op["old"].asString(), prop = op["prop"].asString();
    int hd = op["h"].asInt(); bool clear = kind == "clear";
    if (kind == "add") { @add@ }
    if (kind == "set" || clear) { if (hd == 0) NS::set_prop(h, gr.get(), prop, clear, op["value"]); @set@ }
    if (kind == "remove") { @remove@ }
    if (kind == "readd") { @readd@ }
    if (kind == "rename") { @rename@ }
    if (kind == "rekey") { @rekey@ }
    if (kind == "save") {
      std::string before = graph(*gr), q;
      q += "{\\"errs\\":[]";
      try {
        Json::Value ser = NS::jsoncpp::serialize_LOW(*gr);
        text.clear(); ser.write(text);
        q += ",\\"graph\\":" + before + ",\\"ser\\":" + text;
      } catch (const std::invalid_argument& e) { q += ",\\"refusal\\":"; drv::quote(e.what(), q); }
      q += graph(*gr) == before ? ",\\"notes\\":[]}" : ",\\"notes\\":[\\"graph changed by writing\\"]}";
      o += (first ? "" : ",") + q; first = false;
    }
    if (kind == "load") {
      NS::parse::Errors errs(5); std::unique_ptr<G> g2(new G());
      Json::Value doc = Json::Value::parse(text);
      // an empty object is written as null (a known deviation)
      drv::no_nulls(doc);
      NS::jsoncpp::LOW_from(doc, ref, g2.get(), &errs);
      std::string q = "{\\"notes\\":[],\\"errs\\":[";
      bool f = true;
      for (const auto& e : errs.get()) { if (!f) q += ","; f = false; q += "["; drv::quote(e.ref, q); q += ","; drv::quote(e.message, q); q += "]"; }
      q += "]";
      if (!errs.get().empty()) { o += (first ? "" : ",") + q + "}]"; return o; }
      gr = std::move(g2); h.obj.clear();
      const Json::Value& at = op["at"];
      for (unsigned i = 0; i < at.size(); ++i) { @at@ }
      o += (first ? "" : ",") + q + ",\\"graph\\":" + graph(*gr) + "}"; first = false;
    }
  }
  return o + "]";
}
static drv::HistReg hreg("NAME", hist);
}''')
        text = '\n'.join(out)
        for k, lines in cases.items():
            text = text.replace('@{}@'.format(k), '\n    '.join(lines))
        return text.replace('NS::', ns + '::').replace('GG;', g + ';').replace(
            'LOW', names.lower(s['gname'])).replace('"NAME"', '"' + s['name'] + '"')

    def _build_cpp(self, per=None):
        good = self.names('cpp')
        if not good:
            return
        d = self.root / 'cppdrv'
        d.mkdir(exist_ok=True)
        n = min(common.NCPU, len(good))
        # balance by size of the generated code
        sized = sorted(good, key=lambda x: -(self.outdir(x, 'cpp') / 'jsoncpp.cpp').stat().st_size)
        groups = [[] for _ in range(n)]
        loads = [0] * n
        date = [x for x in sized if self.schemas[x]['cpp']['datetime_library'] == 'date.h']
        # the large headers of date.h are kept to a few programs
        few = list(range(max(1, min(n - 1, n * len(date) // max(1, len(sized)) + 1)))) if date else []
        for x in sized:
            k = min(few if x in date else range(n), key=lambda k: loads[k])
            groups[k].append(x)
            loads[k] += (self.outdir(x, 'cpp') / 'jsoncpp.cpp').stat().st_size

        if date:
            # the library of the time zones
            proc = common.sh(self.CXX + self.DATE + ['-c', '-o', str(d / 'tz.o'), str(DATE / 'src' / 'tz.cpp')], timeout=300)
            if proc.returncode != 0:
                raise NoAnswer('date.h: ' + proc.stderr[-2000:])

        def compile_group(arg):
            k, group = arg
            src = d / 'g{}.cpp'.format(k)
            src.write_text('#include "driver.h"\n' + '\n'.join(
                self._cpp_src(x) for x in group) +
                '\nint main(int c, char** v) { return drv::drive(c, v); }\n')
            exe = d / 'g{}'.format(k)
            dates = [str(d / 'tz.o')] + self.DATE + ['-DMAPRY_DATE'] if any(x in date for x in group) else []
            proc = common.sh(self.CXX + dates + ['-I', str(LIB / 'cpp'), '-I', str(OPTIONAL), '-o', str(exe), str(src)]
                             + self._cpp_libs(group), cwd=d, timeout=800)
            return exe, proc.returncode, proc.stderr

        again = []
        for (k, group), (exe, code, err) in zip(
                enumerate(groups), _pmap(compile_group, list(enumerate(groups)))):
            if code == 0:
                for x in group:
                    self.cpp_bins[x] = exe
            elif len(group) == 1:
                self.broken[(group[0], 'cpp')] = _first_errors(err)
            else:
                again += [[x] for x in group]
        if again:
            base = 100
            for i, (exe, code, err) in enumerate(_pmap(
                    compile_group, [(base + i, g) for i, g in enumerate(again)])):
                if code == 0:
                    self.cpp_bins[again[i][0]] = exe
                else:
                    self.broken[(again[i][0], 'cpp')] = _first_errors(err)

    def _cpp_libs(self, group):
        libs = []
        if any('boost' in self.schemas[x]['cpp']['path_as'] for x in group):
            libs += ['-lboost_filesystem', '-lboost_system']
        return libs

    def run_cpp(self, jobs):
        res = [None] * len(jobs)
        by_exe = {}
        for i, j in enumerate(jobs):
            exe = self.cpp_bins.get(j[0])
            if exe is None:
                res[i] = {'noload': 'not compiled'}
            else:
                by_exe.setdefault(exe, []).append(i)

        def go(item):
            exe, idx = item
            jp = pathlib.Path(str(exe) + '.jobs')
            op = pathlib.Path(str(exe) + '.out')
            if op.exists():
                op.unlink()
            jp.write_text('\n'.join(json.dumps(
                {'S': jobs[i][0], 'D': jobs[i][1], 'R': jobs[i][2], 'C': jobs[i][3]}
                if isinstance(jobs[i][1], str) else {'S': jobs[i][0], 'H': jobs[i][1], 'R': jobs[i][2]},
                ensure_ascii=False) for i in idx) + '\n', encoding='utf-8')
            done = 0
            for _ in range(len(idx) + 1):
                # memory is limited: runaway allocations end the program only
                proc = common.sh(['bash', '-c', 'ulimit -v 4000000; exec "$@"', 'x',
                                  str(exe), str(jp), str(op), str(done)], timeout=700)
                lines = [l for l in op.read_text(encoding='utf-8', errors='replace').split('\n') if l]
                if proc.returncode == 0:
                    break
                with op.open('a') as f:
                    f.write(json.dumps({'crash': 'ended with {}'.format(proc.returncode)}) + '\n')
                done = len(lines) + 1
                if done >= len(idx):
                    break
            lines = [l for l in op.read_text(encoding='utf-8', errors='replace').split('\n') if l]
            if len(lines) != len(idx):
                raise NoAnswer('C++ driver: {} of {} answers'.format(len(lines), len(idx)))
            return list(zip(idx, [json.loads(l) for l in lines]))
        for part in _pmap(go, list(by_exe.items())):
            for i, r in part:
                res[i] = r
        return res

    # ------------------------------------------------------------ Python
    def run_py(self, jobs, nproc=8, driver='drv_py.py'):
        if not jobs:
            return []
        desc = {}
        for n in {j[0] for j in jobs}:
            s = self.schemas[n]

            def comp(c):
                return {'name': c['name'], 'py': names.ucamel(c['name']), 'snake': names.lower(c['name']),
                        'attr': names.lower(c.get('plural') or s_plural(c)) if 'key' in c else '',
                        'props': [[p['name'], names.lower(p['name'])] for p in c['props']]}
            desc[n] = {'module': s['py'].get('module_name', n),
                       'graph_snake': names.lower(s['gname']), 'gpy': names.ucamel(s['gname']),
                       'classes': [comp(c) for c in s['classes']],
                       'embeds': [comp(c) for c in s['embeds']],
                       'props': [[p['name'], names.lower(p['name'])] for p in s['props']]}
        nproc = min(nproc, max(1, len(jobs) // 5))

        def shard(k):
            part = jobs[k::nproc]
            jp = self.root / 'pyjobs{}.json'.format(k)
            op = self.root / 'pyout{}.json'.format(k)
            common.dump(jp, {'root': str(self.root / 'py'), 'schemas': desc, 'jobs': part})
            proc = common.sh([common.PY, str(LIB / driver), str(jp), str(op)],
                             cwd=self.root, timeout=700)
            if proc.returncode != 0:
                raise NoAnswer('python driver failed: ' + proc.stderr[-2000:])
            return json.loads(op.read_text(encoding='utf-8'))
        res = [None] * len(jobs)
        for k, part in enumerate(_pmap(shard, range(nproc))):
            res[k::nproc] = part
        return res

    def run(self, lang, jobs):
        return {'py': self.run_py, 'go': self.run_go, 'cpp': self.run_cpp}[lang](jobs)


def s_plural(c):
    """Plural used for the simple class names of the generated schemas."""
    return names.plural(c['name'])


def _first_errors(text):
    lines = [l for l in text.splitlines() if 'error' in l]
    return '\n'.join(lines[:6]) or text[-500:]
