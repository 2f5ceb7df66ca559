"""C03: deserialized values equal the JSON values they were read from."""
import common
import deser
import gen

CLAUSES = {'wrong value', 'neither graph nor errors'}


def run(ctx):
    n, docs, per = (40, 4, 60) if common.THOROUGH else (8, 2, 35)
    ex = deser.Explorer(ctx, gen.systematic() + gen.grids() + gen.random_schemas(n, 'b'), 'c03')
    runs = [('py', 100, False), ('go', 1, False), ('cpp', 100, False)]
    ordered = [('py', 100, True), ('go', 1, False), ('cpp', 100, False)]
    ex.conforming(40 if common.THOROUGH else 16, lambda rng: rng.choice([runs, ordered]))
    # unknown keys, dropped optional properties, unusual values
    ex.single(per, docs, runs, only=lambda m: not m[0].startswith(('registry :=', 'instance :=', 'graph :=')))
    ex.grid(runs, 1 if common.THOROUGH else .4)
    ex.judge(CLAUSES)
