from .. import core
from . import common
from .common import boot  # noqa

CHECKS = {"value", "hang"}


def make(seed, i, tier):
    r = core.rng_for(seed, "C01", i)
    h = common.History(r, heavy=0.03)
    h.seedobjects()
    n = r.randint(10, 22) if tier == "quick" else r.randint(12, 36)
    while h.n < n:
        x = r.random()
        if x < 0.08 and h.mutate_arg():
            continue
        if x < 0.11:
            h.ops.append({"op": "gc"}); continue
        if x < 0.15 and (h.g.parts or h.g.mats):
            h.ops.append({"op": "move", "on": r.choice(h.g.parts + h.g.mats), "dev": "cpu"}); continue
        if x < 0.19 and h.calls:
            h.ops.append({"op": "drop", "of": r.choice(h.calls)[1]}); continue
        h.put(h.next_call(), keep=r.random() < 0.4)
    return {"ops": h.ops, "hang": True}


def simulate(plan):
    return common.simulate(plan, CHECKS, rg=False)


def shrink(plan, kinds, budget):
    return common.shrink_ops(plan, kinds, budget, simulate)
