#!/usr/bin/env python3
"""Run the check of a property: check.py <property> [--tier quick|thorough]."""
import argparse
import importlib
import os
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent
sys.dont_write_bytecode = True
sys.path.insert(0, str(HERE / 'lib'))
sys.path.insert(0, str(HERE / 'checks'))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('--tier', choices=['quick', 'thorough'])
    args = parser.parse_args()
    if args.tier:
        os.environ['VERIF_TIER'] = args.tier
    (HERE / 'evidence').mkdir(exist_ok=True)
    import harness
    ctx = harness.Ctx(args.property)
    importlib.import_module(args.property.lower()).run(ctx)
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
