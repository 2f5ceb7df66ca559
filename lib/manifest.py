"""Write MANIFEST.json from the table of claimed checks."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent

TECH = 'TLA+ specification checked with TLC; '
CLAIMS = {
    'C01': (TECH + 'TLC judges traces recorded from generated Python, Go and C++ programs against it',
            'Every recorded outcome is decided by the clauses of spec/MapryTrace.tla; exploration over generated '
            'schemas and systematically mutated documents, not all inputs. Trusts TLC, the recorders and a '
            'stand-in for jsoncpp.'),
    'C02': (TECH + 'TLC resolves every recorded reference of generated programs on reference-only schemas',
            'Exploration of reference topologies, identifiers and registries in all three languages; object identity is '
            'observed by the recorders. Not all inputs.'),
    'C03': (TECH + 'TLC compares every recorded in-memory value with the document it was read from',
            'Values are decoded by the specification from the JSON text itself. Exploration, not all inputs.'),
    'C04': (TECH + 'TLC explores all histories of a small client, simulated histories are replayed on generated code',
            'MapryHistory is checked exhaustively on a small universe and simulated for each schema; every written or read '
            'graph is compared by TLC. Trusts TLC, the replaying drivers and a stand-in for jsoncpp.'),
    'C05': (TECH + 'TLC model checks the machine of one deserialization (MapryDeser), computes all violations of documents with several mutations and compares the recorded reports',
            'Exploration over capacities, references and combined mutations. Go is judged with a capacity of one where '
            'composites occur (known finding).'),
    'C06': (TECH + 'TLC compares the recorded outcomes of the three languages on documents in their common range',
            'Every document a language wrote is fed to the other two. Exploration, not all inputs.'),
    'C07': (TECH + 'TLC parses every duration text with the grammar of spec/MapryDuration.tla and compares the recorded durations',
            'Short texts over the alphabet, token sequences, curated edges and random texts, in all three languages; durations '
            'of a client are written and read. Two crashes/acceptances are known findings.'),
    'C08': (TECH + 'TLC decides for every format whether it may be accepted and, with a model of how Go reads layouts, translated',
            'Formats enumerated over tokens and sampled; the model of Go layouts is compared with the scanner of the Go library; values of '
            'accepted formats are executed in all three languages. Five defects are known findings.'),
    'C13': (TECH + 'TLC compares every recorded transformation of a name with the definitions of spec/MapryNames.tla',
            'The definitions are model checked on all names over a small alphabet up to a length; recorded names are enumerated over '
            'words and sampled; the generated programs of schemas with such names are executed.'),
    'C09': (TECH + 'TLC decides for every recorded description whether and where it is ill-formed',
            'Descriptions are enumerated over types, keys and values, and edited at random; trusts lists of valid and invalid patterns.'),
    'C10': (TECH + 'TLC derives the declarations of every schema in each language, which conflict, and compares what was refused and compiled',
            'The walk over declarations is model checked; names are enumerated over words of the languages and sampled over alike names; accepted '
            'schemas are compiled (g++, go vet, import) and executed. Trusts the compilers installed here; macros of platforms are out of scope.'),
    'C11': (TECH + 'TLC derives the object model from every description and compares the recorded one',
            'Descriptions as for C09, restricted to accepted ones.'),
    'C12': (TECH + 'TLC computes the least fixpoint on every type graph and compares the recorded answers; the search is model checked',
            'All graphs of three composites, larger ones sampled; the design of the search is checked for all graphs of three types.'),
    'C15': (TECH + 'histories simulated by TLC from spec/MapryCli.tla are replayed on the tool and judged step by step',
            'The state machine is explored exhaustively on a small universe; replayed histories mix schemas, directories, files of the '
            'user, locales and ways to start the tool. An output directory in which a file cannot be written is out of scope.'),
    'C14': (TECH + 'histories of generations simulated by TLC are replayed in one process, and TLC compares the behaviour of variants',
            'The memory of the generator is model checked to be invisible; replayed sessions mix schemas, processes, hash seeds and '
            'directories; variants of the settings are compared in all three languages.'),
    'C17': (TECH + 'TLC derives evolved schemas and compares the programs generated before and after each step',
            'The design is checked on small schemas; evolved schemas and documents are generated, in all three languages. Not all schemas.'),
    'C16': (TECH + 'TLC compares the kinds and orders of recorded mappings with the specification',
            'Documents whose mappings are ordered, unordered or mixed, over generated schemas; embeddables are written unordered '
            '(known finding).'),
}
PENDING = 'the check is not built yet'


def main():
    props = [json.loads(l) for l in (HERE / 'properties.jsonl').read_text().splitlines() if l.strip()]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMS:
            checks.append({
                'property': i,
                'quick_cmd': 'python3 check.py {} --tier quick'.format(i),
                'thorough_cmd': 'python3 check.py {} --tier thorough'.format(i),
                'evidence_file': 'evidence/{}.json'.format(i),
                'technique': CLAIMS[i][0], 'level': 'model_checking', 'level_note': CLAIMS[i][1]})
        else:
            na.append({'property': i, 'reason': PENDING})
    (HERE / 'MANIFEST.json').write_text(json.dumps({
        'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
        'notes': 'No hooks: the programs are observed through their public interface.'}, indent=1) + '\n')


if __name__ == '__main__':
    main()
