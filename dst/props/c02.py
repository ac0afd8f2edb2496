import copy
from .. import core, gen
from . import common
from .common import boot  # noqa

CHECKS = {"grad", "hang"}


def leafy(h, p):
    """does the particle hold an index leaf (its square is computed once, in the constructor)?"""
    leaves = {o["id"] for o in h.ops if o["op"] == "def" and "T" in o["spec"]}
    for o in h.ops:
        if o.get("id") == p:
            k = o["spec"].get("k", {})
            return any(x in core.canon([k.get(n) for n in ("mat_core", "mat_shell", "mat_env", "mat_layers")]) for x in leaves)
    return False


def shared(h, call):
    from ..hist import refs
    rs = refs(call)
    # a structure carries the graph of its own construction
    return any(leafy(h, p) or p.startswith("s") for p in rs)


def opt_loop(h):
    """optimisation loop: update the leaf, rebuild the particle, evaluate, differentiate"""
    r = h.r; g = h.g
    if not g.mats:
        g.add_mat()
    L = r.choice([1, 2])
    rr = g.radii(L)
    leaf = g.add_tensor(gen.T(rr, "float64", rg=True))
    mats = [{"v": r.choice(g.mats)} if r.random() < 0.7 else r.choice([1.5, 2.5]) for _ in range(L)]
    w = gen.T([2 * 3.141592653589793 / x for x in gen.wls(r, 1)], "float64")
    kleaf = r.random() < 0.5
    if kleaf:
        w = g.add_tensor(dict(T=dict(w["T"], rg=True)))
    what = r.choice(["get_cross_sections", "get_mie_coefficients", "eps"])
    kw = {"backend": r.choice(["pena", "torch"])}
    first = None
    for step in range(r.choice([2, 3])):
        if step:
            d = [x + 0.5 * step for x in rr]
            h.ops.append({"op": "mut", "id": leaf["v"], "spec": dict(gen.T(d, "float64", rg=True, id=leaf["v"]))})
            if kleaf and r.random() < 0.5:
                h.ops.append({"op": "mut", "id": w["v"], "spec": gen.T([x * (1 + 1e-3 * step) for x in first_d(h, w)], "float64", rg=True, id=w["v"])})
        p = g.add_particle({"fn": "Particle", "a": [], "k": {"r_layers": leaf, "mat_layers": {"L": mats}}})
        g.parts.pop()
        c = gen.M(p, "get_material_permittivities", w) if what == "eps" else gen.M(p, what, w, **kw)
        i = h.put(c, keep=True); h.calls.pop()
        if r.random() < 0.3:
            h.put(dict(c, mode="no_grad")); h.calls.pop()
        h.ops.append({"op": "bwd", "of": i, "acc": r.random() < 0.5})


def first_d(h, w):
    return [o for o in h.ops if o.get("id") == w["v"]][0]["spec"]["T"]["d"]


def make(seed, i, tier):
    r = core.rng_for(seed, "C02", i)
    h = common.History(r, heavy=0.01)
    h.g.leaf_mode = True
    h.seedobjects()
    if not h.g.mats:
        h.g.add_mat()
    n = r.randint(6, 14) if tier == "quick" else r.randint(8, 22)
    live = []
    if r.random() < 0.4:
        opt_loop(h)
    while h.n < n:
        x = r.random()
        if live and x < 0.38:
            j, sh = r.choice(live)
            keep = r.random() < 0.35
            y = r.random()
            h.ops.append({"op": "bwd", "of": j, "retain": keep or sh, **({"acc": True} if y < 0.3 else {"direct": True} if y < 0.6 else {})})
            if keep and y >= 0.3 and r.random() < 0.7:      # again, with the same incoming gradients
                h.ops.append({"op": "bwd", "of": j, "retain": True, **({"direct": True} if y < 0.6 else {})})
            if not keep:
                live = [q for q in live if q[0] != j]
            continue
        if x < 0.43 and h.mutate_arg():
            continue
        if x < 0.45:
            opt_loop(h); continue
        if x < 0.47:
            h.ops.append({"op": "gc"}); continue
        if x < 0.49 and live:
            h.ops.append({"op": "drop", "of": live.pop(r.randrange(len(live)))[0]}); continue
        if x < 0.55 and h.queue:
            c = h.queue.pop(0)
        elif x < 0.60 and h.g.mats:
            # the same material at the same wavelength: leaf, plain, no_grad, other leaf
            w = gen.wls(r, r.choice([1, 1, 2])) if not h.calls or r.random() < 0.4 else getattr(h, "w", gen.wls(r, 1))
            h.w = w
            dt = r.choice(["float32", "float64"])
            sc = len(w) == 1 and r.random() < 0.5
            t = gen.T(w[0] if sc else w, dt, rg=r.random() < 0.7)
            if t["T"].get("rg"):
                t = h.g.add_tensor(t)
            c = gen.M({"v": r.choice(h.g.mats)}, "get_epsilon", t)
        elif x < 0.66:
            h.queue = h.g.modes() if not h.queue else h.queue
            c = h.queue.pop(0)
        elif x < 0.72:
            # the differentiable special functions themselves
            c = h.g.call_special() if r.random() < 0.4 else h.g.call_special_der()
        elif x < 0.77:
            # angles or probe points as leaves
            p = h.g.a_part(); L = h.g.nlayers(p)
            if r.random() < 0.6:
                t = h.g.add_tensor(gen.T(r.choice([[0.3, 2.2], [0.1, 1.2, 2.0], [0.7]]), r.choice(["float64", "float32"]), rg=True))
                c = gen.M(p, "get_angular_scattering", h.g.k0(), t, **h.g.solver_kw(L))
            else:
                t = h.g.add_tensor(gen.T([[0.0, 20.0, 150.0], [120.0, 10.0, -30.0]], "float64", rg=True))
                c = gen.M(p, "get_nearfields", h.g.k0(1), t, n_max=r.choice([2, 3]))
        else:
            c = h.next_call()
        if r.random() < 0.07:
            c = dict(c, mode=r.choice(["no_grad", "inference"]))
        j = h.put(c, keep=True)
        if c.get("mode", "grad") == "grad":
            live.append((j, shared(h, c)))
            if r.random() < 0.12:     # the very same call again: two results, two graphs
                live.append((h.put(copy.deepcopy(c), keep=True), shared(h, c)))
            if r.random() < 0.25:     # the same call with other leaves of the same shapes, before any backward pass
                c2 = h.g.sibling(c)
                j2 = h.put(c2, keep=True)
                if c2.get("mode", "grad") == "grad":
                    live.append((j2, shared(h, c2)))
    r.shuffle(live)
    for j, sh in live:
        h.ops.append({"op": "bwd", "of": j, "retain": sh, **({"direct": True} if r.random() < 0.25 else {})})
    return {"ops": h.ops, "hang": True}


def simulate(plan):
    return common.simulate(plan, CHECKS)


def shrink(plan, kinds, budget):
    return common.shrink_ops(plan, kinds, budget, simulate)
