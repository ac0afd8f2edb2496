import copy
from .. import core, gen
from . import common
from .common import boot  # noqa

CHECKS = {"value", "grad", "alias", "hang"}


def make(seed, i, tier):
    r = core.rng_for(seed, "C04", i)
    h = common.History(r, heavy=0.04)
    h.g.leaf_mode = r.random() < 0.3
    h.seedobjects()
    if r.random() < 0.35:      # every function in turn
        h.focus = gen.UNIFORM[i % len(gen.UNIFORM)]
    n = r.randint(9, 18) if tier == "quick" else r.randint(12, 30)
    live = []
    while h.n < n:
        x = r.random()
        if live and x < 0.40:
            j, c = live.pop(r.randrange(len(live)))
            h.ops.append({"op": "scrib", "of": j, "how": r.choice(["nan", "zero", "scale", "rg", "clear", "nan", "scale"]), "hold": r.random() < 0.7})
            y = r.random()
            if y < 0.45:
                c2 = copy.deepcopy(c)
            elif y < 0.8:
                c2 = h.g.variant(c)
            else:
                c2 = h.next_call()
            k = h.put(c2, keep=True)
            live.append((k, c2))
            continue
        y = r.random()
        c = h.next_call() if y < 0.6 or h.focus else h.g.uniform() if y < 0.92 else h.g.call_helper()
        if r.random() < 0.2 and h.g.mats:
            m = {"v": r.choice(h.g.mats)}
            w = r.choice(gen.wls(r))
            c = gen.M(m, "get_epsilon", r.choice([w, gen.T(w), gen.T([w]), {"L": [w, w]}]))
            if r.random() < 0.15:
                c["mode"] = r.choice(["inference", "no_grad"])
        if r.random() < 0.02 and h.g.tg:
            c = h.g.gpm(auto=0.4)
        k = h.put(c, keep=True)
        live.append((k, c))
    return {"ops": h.ops, "hang": True}


def simulate(plan):
    return common.simulate(plan, CHECKS)


def shrink(plan, kinds, budget):
    return common.shrink_ops(plan, kinds, budget, simulate)
