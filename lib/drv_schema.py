"""Runs inside the environment of /repo: validate and parse descriptions.

stdin: a JSON list of [ordered, text of the description, file or null];
stdout: a JSON list of {crash, refs, parsed, file}.
"""
import collections
import json
import multiprocessing
import pathlib
import sys
import warnings

warnings.simplefilter('ignore')
import mapry.parse  # noqa: E402
import mapry.validation  # noqa: E402


def outcome(fn):
    try:
        return 'schema' if isinstance(fn(), mapry.Schema) else 'no schema'
    except mapry.validation.SchemaError:
        return 'refused'
    except Exception as exc:  # pylint: disable=broad-except
        return type(exc).__name__


def one(job):
    ordered, text, file = job
    hook = collections.OrderedDict if ordered else dict
    res = {'crash': '', 'refs': [], 'parsed': '', 'file': ''}
    try:
        errs = mapry.validation.validate(json.loads(text, object_pairs_hook=hook), '#')
        res['refs'] = [e.ref for e in errs]
        res['messages'] = [str(e)[:200] for e in errs]
    except Exception as exc:  # pylint: disable=broad-except
        res['crash'] = type(exc).__name__
        res['messages'] = [str(exc)[:300]]
    res['parsed'] = outcome(lambda: mapry.parse.schema_from_mapping(json.loads(text, object_pairs_hook=hook), '#'))
    if file is not None:
        pth = pathlib.Path(file)
        pth.write_text(text, encoding='utf-8')
        res['file'] = outcome(lambda: mapry.parse.schema_from_json_file(pth))
    return res


def main():
    jobs = json.load(sys.stdin)
    with multiprocessing.Pool(int(sys.argv[1])) as pool:
        json.dump(pool.map(one, jobs, chunksize=8), sys.stdout)


if __name__ == '__main__':
    main()
