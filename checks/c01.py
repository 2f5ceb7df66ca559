"""C01: deserialization accepts exactly the JSON that conforms."""
import common
import deser
import gen
import probes

CLAUSES = {'accepted', 'rejected'}


def run(ctx):
    n, docs, per = (40, 4, 60) if common.THOROUGH else (8, 2, 55)
    ex = deser.Explorer(ctx, gen.systematic() + gen.grids() + gen.random_schemas(n, 'a'), 'c01')
    runs = [('py', 100, False), ('go', 1, False), ('cpp', 100, False)]
    ex.conforming(3, runs)
    ex.single(per, docs, runs)
    ex.grid(runs)
    ex.judge(CLAUSES)
    probes.run(ctx)
