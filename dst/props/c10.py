import copy
from .. import core, gen
from . import common
from .common import boot  # noqa

CHECKS = {"value", "grad", "ambient", "hang"}


def change(r):
    d = {}
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(["seed", "clock", "cwd", "filters", "np_err", "env", "argv", "locale", "recursion", "np_print", "torch_print", "stderr", "gc", "seed", "clock", "threads", "pace", "pace"])
        d[k] = {"seed": lambda: r.randrange(2 ** 31), "clock": lambda: r.choice([-1e6, -1.0, 0.0, 3600.0, 1e5, 1e9]),
                "pace": lambda: r.choice([0.0, 0.001, 1.0, 60.0, 1e4]),
                "cwd": lambda: r.choice([0, 1]), "filters": lambda: r.choice(["ignore", "always", "once", "default", "module"]),
                "np_err": lambda: r.choice(["ignore", "warn"]), "env": lambda: str(r.random()), "argv": lambda: str(r.random()),
                "locale": lambda: r.choice(["C", "C.UTF-8", "POSIX"]), "recursion": lambda: r.choice([900, 1000, 3000]),
                "np_print": lambda: r.choice([2, 8]), "torch_print": lambda: r.choice([2, 8]), "stderr": lambda: 1,
                "gc": lambda: r.choice([0, 1]), "threads": lambda: r.choice([1, 2, 3, 5])}[k]()
    return d


def make(seed, i, tier):
    r = core.rng_for(seed, "C10", i)
    h = common.History(r, heavy=0.12)
    h.g.leaf_mode = r.random() < 0.3
    h.seedobjects()
    h.ops.insert(0, {"op": "amb", "set": {"threads": r.choice([1, 2, 3, 3])}})
    n = r.randint(7, 14) if tier == "quick" else r.randint(10, 24)
    from .c02 import shared
    while h.n < n:
        if r.random() < 0.5:
            h.ops.append({"op": "amb", "set": change(r)})
        c = h.g.call_tg() if h.g.tg and r.random() < 0.15 else h.next_call()
        if "repr_of" in core.canon(c) or "particle_state" in core.canon(c):
            # texts show tensors: they follow the print options, which belong to the reader
            h.put(gen.FN("x.repr_quiet", {"v": r.choice(h.g.parts + h.g.mats)} if r.random() < 0.5 else h.g.a_part()))
            continue
        kw = {}
        if r.random() < 0.15:
            kw["thread"] = True
        j = h.put(c, keep=True, **kw)
        if r.random() < 0.4:
            h.ops.append({"op": "amb", "set": change(r)})
            h.put(copy.deepcopy(c), **({"thread": True} if r.random() < 0.2 else {}))
        if c.get("mode", "grad") == "grad" and r.random() < 0.3:
            h.ops.append({"op": "bwd", "of": j, "retain": shared(h, c)})
    if r.random() < 0.12:     # the whole history again in a process with other string hashes
        plan_seed = r.choice([11, 4242])
    else:
        plan_seed = None
    return {"ops": h.ops, "hashseed": plan_seed, "world": True, "ambient": True, "modeless": True, "hang": True}


def simulate(plan):
    return common.simulate(plan, CHECKS)


def shrink(plan, kinds, budget):
    p = common.shrink_ops(plan, kinds, budget, simulate)
    if p and p.get("hashseed") is not None:
        q = dict(p, hashseed=None)
        if any(v["kind"] in kinds for v in simulate(q)["violations"]):
            p = q
    return p
