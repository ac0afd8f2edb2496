import copy
from .. import core, gen
from . import common
from .common import boot  # noqa

CHECKS = {"leak", "hang"}


def scan(h):
    """one spectrum asked again and again: in other forms and modes, in between moves to the same place under other names"""
    r = h.r; g = h.g
    m = {"v": r.choice(g.mats)}
    n = r.choice([3, 24, 60])
    a = r.choice([420.0, 500.0]); st = r.choice([0.5, 1.0, 2.25])
    w = [a + st * j for j in range(n)]
    p = g.add_particle({"fn": "Particle", "a": [], "k": {"r_core": 60.0, "mat_core": m}}) if r.random() < 0.4 else None
    for _ in range(r.choice([3, 4, 6])):
        if r.random() < 0.6:
            h.ops.append({"op": "move", "on": p["v"] if p and r.random() < 0.5 else m["v"], "dev": r.choice(["cpu", "cpu:0", "cpu", "torch:cpu", "torch:cpu:0"])})
        f = r.choice([{"L": w}, gen.NP(w, "float32"), gen.NP(w), gen.T(w, "float32"), gen.T(w), gen.T(w, "float32", rg=True), gen.T(w, rg=True)])
        if p and r.random() < 0.3:
            c = gen.M(p, "get_material_permittivities", gen.T([2 * 3.141592653589793 / x for x in w]))
        elif n < 25 and r.random() < 0.3:
            for x in w:
                h.put(gen.M(m, "get_epsilon", r.choice([x, gen.T(x), gen.T([x], "float32")])))
            continue
        else:
            c = gen.M(m, "get_epsilon", f)
        if r.random() < 0.2:
            c["mode"] = r.choice(["no_grad", "inference"])
        h.put(c)


ROWS = {"nk": ["0.4 1.5 0.0", "0.5 1.6 0.1", "0.7 1.8 0.2"], "short": ["0.4 1.5", "0.5 1.6 0.1"], "word": ["0.4 1.5 0.0", "0.5 x 0.1"], "none": [],
        "order": ["0.5 1.5 0.0", "0.4 1.6 0.1"], "nan": ["0.4 nan 0.0", "0.5 1.6 0.1"]}


def own_file(h):
    """a data file of the caller's, often unusable, evaluated at once at wavelengths that belong to the caller"""
    r = h.r; g = h.g
    w = gen.wls(r, r.choice([1, 3]))
    t = g.add_tensor(gen.T(w, "float32", rg=r.random() < 0.3))
    k = r.choice(sorted(ROWS) + ["broken", "formula", "empty"])
    text = ("DATA:\n  - type: tabulated nk\n    data: |\n" + "".join("        %s\n" % x for x in ROWS[k]) if k in ROWS else
            "DATA: [" if k == "broken" else "DATA:\n  - type: formula 7\n    coefficients: 1 2 3\n" if k == "formula" else "")
    return gen.FN("x.yaml_mat", r.choice(["a", "b"]), text, init_lookup_wavelengths=t)


def make(seed, i, tier):
    r = core.rng_for(seed, "C12", i)
    h = common.History(r, heavy=0.05)
    h.g.leaf_mode = r.random() < 0.7
    h.seedobjects()
    if not h.g.mats:
        h.g.add_mat()
    n = r.randint(8, 18) if tier == "quick" else r.randint(12, 30)
    from .c02 import shared, opt_loop
    if r.random() < 0.3:
        opt_loop(h)
    if h.g.tg and r.random() < 0.12:
        h.queue += h.g.struct_calls()
    if r.random() < 0.08:
        scan(h); n += h.n
    while h.n < n:
        c = h.next_call()
        if r.random() < 0.2:
            w = gen.wls(r, 1)
            t = gen.T(r.choice([w, w[0]]), rg=r.random() < 0.6)
            c = gen.M({"v": r.choice(h.g.mats)}, "get_epsilon", h.g.add_tensor(t))
        elif r.random() < 0.05:
            c = own_file(h)
        kw = {}
        if r.random() < 0.15:
            f = common.pick_fault(h, c)
            if f:
                kw["fault"] = f
        j = h.put(c, keep=True, **kw)
        if c.get("mode", "grad") == "grad" and r.random() < 0.4:
            h.ops.append({"op": "bwd", "of": j, "retain": shared(h, c), "acc": r.random() < 0.5})
        if r.random() < 0.3:
            h.ops.append({"op": "drop", "of": j})
    return {"ops": h.ops, "track": True, "rounds": 4, "hang": True}


def simulate(plan):
    return common.simulate(plan, CHECKS)


def shrink(plan, kinds, budget):
    return common.shrink_ops(plan, kinds, budget, simulate)
