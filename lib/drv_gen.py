"""Runs inside the environment of /repo: generate code for many schemas.

stdin: a JSON list of [id, language, schema path, output directory];
stdout: a JSON list of [id, language, exit code or exception name, stderr].
"""
import contextlib
import io
import json
import multiprocessing
import sys
import warnings

warnings.simplefilter('ignore')
import mapry.main  # noqa: E402


def one(job):
    ident, lang, schema, outdir = job
    out, err = io.StringIO(), io.StringIO()
    sys.argv = ['mapry-to', lang, '--schema', schema, '--outdir', outdir]
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            code = mapry.main.run(prog='mapry-to')
        except SystemExit as exc:
            code = exc.code
        except BaseException as exc:  # pylint: disable=broad-except
            code = type(exc).__name__
            err.write(str(exc))
    return [ident, lang, code, err.getvalue()[-200000:]]


def main():
    jobs = json.load(sys.stdin)
    with multiprocessing.Pool(int(sys.argv[1])) as pool:
        json.dump(pool.map(one, jobs, chunksize=2), sys.stdout)


if __name__ == '__main__':
    main()
