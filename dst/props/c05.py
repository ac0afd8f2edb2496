import copy
from .. import core, gen
from . import common
from .common import boot  # noqa

CHECKS = {"value", "grad", "input", "ambient", "hang"}


def make(seed, i, tier):
    r = core.rng_for(seed, "C05", i)
    h = common.History(r, heavy=0.05)
    h.g.leaf_mode = r.random() < 0.5
    h.seedobjects()
    if not h.g.mats and r.random() < 0.7:
        h.g.add_mat()
    # constructors interrupted too
    for o in h.ops:
        if o["op"] == "def" and "fn" in o["spec"] and r.random() < 0.3:
            f = common.pick_fault(h, o["spec"])
            if f:
                o["fault"] = f
    n = r.randint(6, 12) if tier == "quick" else r.randint(10, 24)
    from .c02 import shared
    nf = nh = 0
    while h.n < n:
        if r.random() < 0.08 and h.g.parts:
            on = r.choice(h.g.parts + h.g.mats)
            legs = []
            for d in [r.choice(["cuda:0", "cuda:1"]) for _ in range(r.choice([1, 1, 2]))] + ["cpu"]:
                leg = {"dev": d}
                x = r.random()
                if x < 0.45:
                    f = common.pick_fault(h, gen.M({"v": on}, "set_device", "cpu"))
                    if f:
                        leg["fault"] = f
                elif x < 0.75:
                    leg["oom"] = r.randint(1, 8)
                if len(legs) == 0 and r.random() < 0.15:
                    leg["other"] = r.choice(["cpu", "cuda:0"])
                legs.append(leg)
            h.ops.append({"op": "trip", "on": on, "legs": legs})
            nf += 1
            continue
        if r.random() < 0.1 and h.g.parts:
            on = r.choice(h.g.parts + h.g.mats)
            f = common.pick_fault(h, gen.M({"v": on}, "set_device", "cpu"))
            h.ops.append({"op": "move", "on": on, "dev": "cpu", **({"fault": f} if f else {})})
            continue
        der = r.random() < 0.15
        heavy = not der and nh < 2 and r.random() < 0.06
        nh += heavy
        c = h.g.call_special_der() if der else h.g.gpm() if heavy else h.next_call()
        if heavy or r.random() < (0.2 if der else 0.65):
            f = common.pick_fault(h, c)
            if f:
                h.put(c, fault=f); nf += 1
                if heavy or r.random() < 0.15:     # what is left of the objects involved
                    for q in h.g.parts:
                        if '{"v":"%s"}' % q in core.canon(c):
                            h.put(gen.FN("x.particle_state", {"v": q}))
                            if heavy or r.random() < 0.4:
                                h.put(gen.M({"v": q}, r.choice(["get_material_permittivities", "get_cross_sections"]), h.g.k0()))
                if heavy and r.random() < 0.5:
                    continue
                y = r.random()
                if y < 0.15:
                    f2 = common.pick_fault(h, c)
                    if f2:
                        h.put(copy.deepcopy(c), fault=f2)
                if y < 0.75:
                    c = copy.deepcopy(c)
                else:
                    c = h.g.variant(c)
        j = h.put(c, keep=True)
        # (what a particle stores is a leaf at first, and no longer one after a round trip to a device)
        if c.get("mode", "grad") == "grad" and c.get("fn") != "x.particle_state" and (der or r.random() < 0.4):
            for _ in range(r.choice([1, 2]) if der else int(r.random() < 0.5)):
                f = common.pick_fault(h, c, bwd=True)
                if f:
                    h.ops.append({"op": "bwd", "of": j, "fault": f, "retain": True})
            h.ops.append({"op": "bwd", "of": j, "retain": shared(h, c)})
    return {"ops": h.ops, "snap": True, "ambient": True, "hang": True}


def simulate(plan):
    a = common.simulate(plan, CHECKS)
    if not a["violations"]:
        a["trivial"] = not any(a["faults"].values())
    return a


def shrink(plan, kinds, budget):
    return common.shrink_ops(plan, kinds, budget, simulate)
