from .. import core, gen
from . import common
from .common import boot  # noqa

CHECKS = {"input", "hang"}


def zeros(h):
    """special values: exact zeros, empty and broadcast-shaped arguments"""
    r = h.r; g = h.g
    z = r.choice([gen.CT([0.0], [0.0]), gen.CT([0.0, 1.0, 0.0], [0.0, 0.2, 0.0]), gen.T([0.0, 2.0]),
                  gen.CT([float("nan"), 1.0], [0.0, 0.2]), gen.CT([float("inf"), 0.0], [0.0, 0.0]), gen.T([float("nan"), 2.0])])
    z = dict(T=dict(z["T"]))
    if r.random() < 0.7:
        z["T"]["rg"] = True
    z = g.add_tensor(z)
    x = r.random()
    if x < 0.4:
        return gen.FN("special." + r.choice(["sph_jn", "sph_yn", "sph_jn_der", "sph_yn_der", "sph_h1n", "sph_h1n_der", "psi", "chi", "xi"]), r.choice([1, 2, 3]), z)
    if x < 0.6:
        return gen.FN("special." + r.choice(["sph_jn_torch", "sph_yn_torch", "psi_torch", "D1n_torch", "sph_jn_torch_via_rec"]), r.choice([1, 2, 3]), z)
    if x < 0.7:
        return gen.FN("special.pi_tau", 3, g.add_tensor(gen.T(r.choice([[0.0, 1.0, -1.0], [1.0000001, -1.5]]), rg=r.random() < 0.5)))
    if x < 0.8:
        return gen.FN("helper.transform_xyz_to_spherical", g.add_tensor(gen.T([0.0, 0.0, 1.0])), g.add_tensor(gen.T([0.0, 0.0, 0.0])), g.add_tensor(gen.T([0.0, -1.0, 0.0])))
    p = g.a_part()
    if x < 0.9:
        return gen.M(p, "get_angular_scattering", g.k0(1), g.add_tensor(gen.T([0.0, 3.141592653589793, 1.5707963267948966], rg=True)))
    return gen.M(p, "get_nearfields", g.k0(1), g.add_tensor(gen.T([[0.0, 0.0, 0.0], [0.0, 0.0, 60.0], [100.0, 0.0, 0.0]])), n_max=2)


def containers(h):
    """lists and dictionaries as arguments"""
    r = h.r; g = h.g
    m = {"v": r.choice(g.mats)} if g.mats else g.add_mat()
    x = r.random()
    if x < 0.3:
        return gen.M(m, "get_epsilon", r.choice([{"L": gen.wls(r, 2)}, gen.NP(gen.wls(r, 3)), gen.NP(gen.wls(r, 2), "float32"), gen.NP([500, 600], "int64")]))
    if x < 0.4 and g.tg:
        return gen.FN("helper.tg.setup_plane_waves_configs", r.choice([1, 2]), {"L": g.planes()})
    if x < 0.5:
        return gen.FN("helper.detach_tensor", r.choice([{"tu": [gen.T([1.0], rg=True), gen.T([3.0])]}, gen.T([1.0], rg=True)]))
    p = g.a_part()
    L = g.nlayers(p)
    if x < 0.8:
        return gen.M(p, "get_cross_sections", r.choice([{"L": [0.01, 0.012]}, gen.NP([0.012, 0.01]), gen.NP([0.01], "float32"), gen.T([0.01, 0.011], "float32")]), **g.solver_kw(L))
    return gen.M(p, "get_angular_scattering", gen.T([0.012]), g.theta(), **g.solver_kw(L))


def make(seed, i, tier):
    r = core.rng_for(seed, "C03", i)
    h = common.History(r, heavy=0.02)
    h.g.leaf_mode = r.random() < 0.8
    h.g.named_mode = True
    h.seedobjects()
    n = r.randint(6, 12) if tier == "quick" else r.randint(8, 20)
    live = []
    from ..hist import profile
    from .c02 import shared
    while h.n < n:
        x = r.random()
        if h.g.tg and 0.95 < x < 0.965:
            h.queue += h.g.struct_calls()
        if h.g.tg and 0.93 < x < 0.95:
            h.queue.append(h.g.call_tg() if r.random() < 0.6 else h.g.gpm())
        c = h.queue.pop(0) if h.queue else zeros(h) if x < 0.3 else containers(h) if x < 0.45 else h.g.call_special_der() if x < 0.5 else h.next_call()
        kw = {}
        if r.random() < 0.2:
            f = common.pick_fault(h, c)
            if f:
                kw["fault"] = f
        j = h.put(c, keep=not kw, **kw)
        if not kw and c.get("mode", "grad") == "grad" and r.random() < 0.75:
            y = r.random()
            o = {"op": "bwd", "of": j, "retain": shared(h, c) or r.random() < 0.2, **({"acc": True} if y < 0.3 else {"direct": True} if y < 0.65 else {})}
            if r.random() < 0.15:
                f = common.pick_fault(h, c, bwd=True)
                if f:
                    o["fault"] = f
            h.ops.append(o)
    return {"ops": h.ops, "watch": True, "snap": True, "hang": True}


def simulate(plan):
    return common.simulate(plan, CHECKS)


def shrink(plan, kinds, budget):
    return common.shrink_ops(plan, kinds, budget, simulate)
