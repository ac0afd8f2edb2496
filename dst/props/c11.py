"""torchgdm simulations: the autodiff patch at arbitrary moments of a history."""
from .. import core
from . import common
from .common import boot  # noqa

PR = [[130.0, 0.0, 0.0], [0.0, 130.0, 0.0], [0.0, 0.0, 130.0], [-130.0, 0.0, 0.0], [0.0, -90.0, -95.0], [80.0, 80.0, -70.0]]
SLOTS = [[-300.0, 0, 0], [300.0, 0, 20.0], [0, 330.0, 0], [0, -330.0, -15.0], [0, 0, 420.0], [10.0, 0, -430.0]]
TOL = 2e-4


# ------------------------------------------------------------------ plans
def make(seed, i, tier):
    r = core.rng_for("C11", seed, i)
    ops = []
    n = {"p": 0, "s": 0, "m": 0}

    def new(k):
        n[k] += 1
        return "%s%d" % (k, n[k])
    wls = r.choice([[600.0], [600.0], [550.0, 700.0], [620.0, 640.0]])
    n_env = r.choice([1.0, 1.0, 1.0, 1.33])
    slots = list(range(len(SLOTS))); r.shuffle(slots)
    leaf = {}; kinds = {}; sims = {}; comp = {}
    gpms = 0

    def particle():
        i = new("p")
        o = {"op": "part", "id": i, "r_c": r.choice([40.0, 55.0, 60.0]), "eps_c": r.choice([12.25, 6.0, "Si", [9.0, 0.3]]),
             "r_s": r.choice([None, 75.0, 80.0]), "eps_s": 4.0, "leaf": r.choice([[], ["r_c"], ["r_c"], ["r_c", "r_s"], ["eps_c"], ["r_s", "eps_c"]])}
        if o["r_s"] is None:
            o["leaf"] = [x for x in o["leaf"] if x != "r_s"]
        if isinstance(o["eps_c"], str):
            o["leaf"] = [x for x in o["leaf"] if x != "eps_c"]
        leaf[i] = bool(o["leaf"])
        ops.append(o)
        return i

    where = {}

    def struct(like=None):
        nonlocal gpms
        if len(kinds) >= 9:
            return None
        p = r.choice(list(leaf)) if leaf and r.random() < 0.6 else particle()
        k = r.choice(["eff", "eff", "gpm", "gpm", "dict", "disc"]) if gpms < 2 else r.choice(["eff", "eff", "disc"])
        k = like or k
        if k in ("gpm", "dict"):
            gpms += 1
        i = new("s")
        o = {"op": k, "id": i, "part": p, "slot": r.choice(slots)}
        where[i] = {o["slot"]}
        if k == "disc":
            o["cells"] = r.choice([1, 1, 2, 3, 8])
        if k == "dict":
            o["slot2"] = r.choice([x for x in slots if x != o["slot"]])
            where[i].add(o["slot2"])
        kinds[i] = (k, leaf[p] and k != "disc")
        ops.append(o)
        return i

    def combine():
        c = [s for s, (k, _) in kinds.items() if k == "gpm"]
        if not c:
            return
        r.shuffle(c)
        c = apart(c)
        i = new("s")
        ops.append({"op": "comb", "id": i, "of": c[:r.choice([1, 2, 2])], "env": r.random() < 0.6})
        where[i] = set().union(*[where[s] for s in ops[-1]["of"]])
        kinds[i] = ("comb", any(kinds[x][1] for x in ops[-1]["of"])); comp[i] = ops[-1]["of"]

    def apart(c):
        """those that do not share a position with an earlier one"""
        out, used = [], set()
        for s in c:
            if not where[s] & used:
                out.append(s); used |= where[s]
        return out

    def sim(take=None):
        if take is None and n_env == 1.0 and r.random() < 0.1:
            i = new("m")
            ops.append({"op": "sim2d", "id": i, "lin": r.choice(["d", "f"])})
            sims[i] = False
            return
        if take is None:
            c = list(kinds); r.shuffle(c)
            take = []; used = set()
            for s in c[:r.choice([1, 2, 2, 3, 4])]:
                parts = set(comp.get(s, [s]))
                if parts & used:
                    continue
                used |= parts; take.append(s)
        take = apart(take)
        # torchgdm itself cannot merge two grad-carrying structures of one type: keep such sims for the full solver
        # (lin "d"/"sub" with two of them only when no combination is involved: torchgdm fails with and without the patch)
        typ = [("gpm" if kinds[s][0] in ("gpm", "dict", "comb") else kinds[s][0], kinds[s][1]) for s in take]
        lin = r.choice(["d", "d", "d", "f", "sub", "fsub"])
        if any(a[0] == b[0] and (a[1] or b[1]) for x, a in enumerate(typ) for b in typ[x + 1:]):
            lin = "f" if any(s in comp for s in take) else r.choice(["f", "f", "f", "d"])
        if not take:
            return
        i = new("m")
        ops.append({"op": "sim", "id": i, "of": take, "lin": lin, "copy": r.random() < 0.4, "waves": r.choice([1, 2, 2, 3]),
                    "sub": r.random() < (0.8 if lin == "sub" else 0.1)})
        sims[i] = any(kinds[s][1] for s in take)

    def twin():
        """a simulation like an earlier one, of equally many structures of the same kinds: only positions or particles differ"""
        old = [o for o in ops if o["op"] == "sim"]
        if not old:
            return
        take = list(r.choice(old)["of"])
        for j in range(len(take)):
            if r.random() < 0.3:
                continue
            k = kinds[take[j]][0]
            if k == "comb":
                continue
            other = [s for s in kinds if kinds[s][0] == k and s not in take and not any(where[s] & where[t] for q, t in enumerate(take) if q != j)]
            if not other and k in ("eff", "gpm") and (k == "eff" or gpms < 3):
                s = struct(k)
                if s and not any(where[s] & where[t] for q, t in enumerate(take) if q != j):
                    other = [s]
            if other:
                take[j] = r.choice(other)
        n0 = len(sims)
        sim(take)
        return len(sims) > n0

    size = {"eff": 1, "gpm": 3, "dict": 6}

    def mimic():
        """a simulation of other kinds of structures, with equally many positions as an earlier one"""
        old = [o for o in ops if o["op"] == "sim" and not any(s in comp for s in o["of"])]
        if not old:
            return
        cells = {o["id"]: o["cells"] for o in ops if o["op"] == "disc"}
        nn = lambda s: cells.get(s) or size[kinds[s][0]]
        a = r.choice(old)["of"]
        want = sum(map(nn, a))
        cand = [s for s in kinds if s not in comp]
        for _ in range(20):
            r.shuffle(cand)
            take = []
            for s in apart(cand):
                if sum(map(nn, take)) + nn(s) <= want:
                    take.append(s)
            if sum(map(nn, take)) == want and sorted(kinds[s][0] for s in take) != sorted(kinds[s][0] for s in a):
                break
        else:
            s = struct("disc")
            if s is None:
                return
            if want not in (1, 2, 3, 8):
                return
            ops[-1]["cells"] = want
            take = [s]
        n0 = len(sims)
        sim(take)
        return len(sims) > n0

    def patch():
        x = r.random()
        o = {"op": "patch", "how": "plain"}
        if x < 0.15:
            o = {"op": "patch", "how": "thread"}
        elif x < 0.35:
            o = {"op": "patch", "how": "line", "k": r.randint(1, 14)}
        ops.append(o)

    ran = []
    struct()
    for _ in range(r.choice([5, 8, 11, 14])):
        x = r.random()
        if x < 0.2:
            struct()
        elif x < 0.28:
            combine()
        elif x < 0.38 or not sims:
            sim()
        elif x < 0.47:
            if twin() if r.random() < 0.6 else mimic():
                pair = list(sims)
                for m in ([pair[-1]] + ([r.choice(pair)] if r.random() < 0.5 else [])):
                    ops.append({"op": "run", "id": m, "batch": 32, "missing": False, "patch_at": None})
                    ops.append({"op": "obs", "id": m, "what": r.choice(["cs", "nf", "inside"]), "grad": sims[m] and r.random() < 0.5, "patch_between": False})
        elif x < 0.6:
            patch()
        else:
            m = r.choice(list(sims))
            done = [o for o in ops if o["op"] == "sim" and any(q["op"] == "run" and q["id"] == o["id"] for q in ops)]
            if done and r.random() < 0.3:      # the same simulation again, after something about it changed
                o = r.choice(done); m = o["id"]
                if r.random() < 0.6 or any(s in comp for s in o["of"]):
                    w = r.sample(range(4), o["waves"])
                    ops.append({"op": "illum", "id": m, "waves": w})
                else:
                    ops.append({"op": "shift", "id": m, "j": r.randrange(len(o["of"])), "by": [r.choice([-20.0, 0.0, 35.0]), 12.5, r.choice([0.0, 30.0])]})
            ops.append({"op": "run", "id": m, "batch": r.choice([32, 32, 1, 2]), "missing": r.random() < 0.15,
                        "patch_at": r.choice([None] * 3 + [r.randint(1, 400)])})
            if r.random() < 0.25:
                patch()
            for _ in range(r.choice([1, 1, 2])):
                ops.append({"op": "obs", "id": m, "what": r.choice(["cs", "cs", "nf", "nf", "ff", "green", "inside"]), "grad": sims[m] and r.random() < 0.7,
                            "patch_between": r.random() < 0.2})
    if not any(o["op"] == "patch" for o in ops):
        ops.insert(r.randint(0, len(ops)), {"op": "patch", "how": "plain"})
    return {"wls": wls, "n_env": n_env, "ops": ops}


def without_patch(plan, expand):
    ops = []
    comp = {o["id"]: o["of"] for o in plan["ops"] if o["op"] == "comb"}
    for j, o in enumerate(plan["ops"]):
        o = dict(o, at=j)
        if o["op"] == "patch":
            continue
        if o["op"] == "run":
            o["patch_at"] = None
        if o["op"] == "obs":
            o["patch_between"] = False
        if expand and o["op"] == "sim" and any(s in comp for s in o["of"]):
            # the combination as torchgdm itself would treat it: separate structures, plain solver
            o["of"] = [t for s in o["of"] for t in comp.get(s, [s])]
            o["lin"] = "fsub" if o["lin"] == "sub" else "f"
        ops.append(o)
    return dict(plan, ops=ops)


# ------------------------------------------------------------------ execution
def execute(plan):
    import sys, threading, warnings, copy
    import torch
    warnings.simplefilter("ignore")
    from .. import lang, hist
    import pymiediff as pmd, torchgdm as tg
    from pymiediff.helper import tg as T
    from torchgdm.struct.struct3d import StructDiscretizedCubic3D, cube, cuboid
    from torch.utils._python_dispatch import TorchDispatchMode
    wl = torch.tensor(plan["wls"])
    n_env = plan["n_env"]
    env = tg.env.freespace_3d.EnvHomogeneous3D(env_material=n_env ** 2)
    waves = [tg.env.freespace_3d.PlaneWave(e0p=1, e0s=0, inc_angle=0), tg.env.freespace_3d.PlaneWave(e0p=0.3, e0s=1, inc_angle=0.7),
             tg.env.freespace_3d.PlaneWave(e0p=1, e0s=1j, inc_angle=2.0), tg.env.freespace_3d.PlaneWave(e0p=0, e0s=1, inc_angle=0.9)]
    P, S, M, L, ran = {}, {}, {}, {}, set()
    out = []
    st = {"patches": 0, "patches_mid_run": 0, "patches_interrupted": 0, "runs": 0, "observations": 0, "gradients": 0}
    TOUCH = {}

    def image(o, depth=0, seen=None):
        """bit image of the tensors of a structure or particle"""
        seen = set() if seen is None else seen
        if isinstance(o, torch.Tensor):
            return (str(o.dtype), tuple(o.shape), o.requires_grad, o.detach().clone().numpy().tobytes())
        if id(o) in seen or depth > 5:
            return None
        seen.add(id(o))
        if isinstance(o, dict):
            return [(str(k), image(v, depth + 1, seen)) for k, v in o.items()]
        if isinstance(o, (list, tuple)):
            return [image(v, depth + 1, seen) for v in o]
        if hasattr(o, "__dict__") and type(o).__module__.split(".")[0] in ("torchgdm", "pymiediff"):
            # (a material's own memo of permittivities may grow)
            return [(k, image(v, depth + 1, seen)) for k, v in sorted(vars(o).items()) if "lookup" not in k and "cache" not in k]
        return repr(o) if isinstance(o, (int, float, str, bool, type(None))) else None

    def everything():
        return {k: image(v) for d in (P, S) for k, v in d.items()}

    def unchanged(before, j, what):
        after = everything()
        for k in before:
            if k in after and before[k] != after[k]:
                out.append((j, "alter", "%s altered %s" % (what, k)))

    def patch(how, k=None):
        st["patches"] += 1
        if how == "thread":
            t = threading.Thread(target=T.patch_torchgdm_autodiff); t.start(); t.join()
        elif how == "line":
            st["patches_interrupted"] += 1
            left = [k]

            def local(frame, event, arg):
                if event == "line":
                    left[0] -= 1
                    if left[0] == 0:
                        sys.settrace(None)
                        raise KeyboardInterrupt("injected in the patch")
                return local
            sys.settrace(lambda f, e, a: local if f.f_code is T.patch_torchgdm_autodiff.__code__ else None)
            try:
                T.patch_torchgdm_autodiff()
            except KeyboardInterrupt:
                pass
            finally:
                sys.settrace(None)
        else:
            T.patch_torchgdm_autodiff()

    class PatchAt(TorchDispatchMode):
        def __init__(self, k):
            super().__init__(); self.k = k; self.n = 0

        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            self.n += 1
            if self.n == self.k:
                st["patches_mid_run"] += 1
                patch("plain")
            return core.through(func, args, kwargs)

    def attempt(f):
        try:
            return ("ok", f())
        except Exception as e:
            return ("exc", type(e).__name__, str(e)[:200])

    original = methods()

    def replaced():
        now = methods()
        return {q for q in now if now[q] is not original.get(q)}

    def part(o):
        d = {}; lv = {}
        for k in ("r_c", "r_s", "eps_c"):
            v = o[k]
            if v is None or isinstance(v, str):
                d[k] = v
                continue
            t = torch.tensor(complex(*v) if isinstance(v, list) else v, requires_grad=k in o["leaf"])
            if k in o["leaf"]:
                lv[k] = t
            d[k] = t
        m = d["eps_c"] if isinstance(d["eps_c"], str) else pmd.materials.MatConstant(d["eps_c"])
        if isinstance(m, str):
            m = pmd.materials.MatDatabase(m)
        kw = dict(r_core=d["r_c"], mat_core=m, mat_env=n_env)
        if d["r_s"] is not None:
            kw.update(r_shell=d["r_s"], mat_shell=pmd.materials.MatConstant(o["eps_s"]))
        p = pmd.Particle(**kw)
        P[o["id"]] = p; L[o["id"]] = lv

    def build(o):
        k = o["op"]
        if k == "disc":
            n = o.get("cells", 8)
            s = StructDiscretizedCubic3D(cube(l=2) if n == 8 else cuboid(n, 1, 1), step=20.0, materials=tg.materials.MatConstant(eps=6.0))
            return s.translate(torch.tensor(SLOTS[o["slot"]]))
        p = P[o["part"]]; r0 = SLOTS[o["slot"]]
        if k == "eff":
            return T.StructAutodiffMieEffPola3D(p, wl, verbose=False, r0=r0)
        kw = dict(r_gpm=3, r_probe=torch.tensor(PR), n_src_pw_angles=1, n_max=2, verbose=False, progress_bar=False)
        if k == "gpm":
            return T.StructAutodiffMieGPM3D(p, wl, r0=r0, **kw)
        d = T.extract_GPM_sphere_miediff(p, wl, **kw)
        return tg.struct3d.StructGPM3D(torch.tensor([SLOTS[o["slot"]], SLOTS[o["slot2"]]]), [d, d])

    def observe(m, what):
        sim = M[m]
        w = float(wl[-1])
        r = torch.tensor([[0.0, 50.0, 700.0], [30.0, -800.0, 20.0]])
        if m in two_d:
            w = 600.0
            r = torch.tensor([[0.0, 0.0, 300.0], [100.0, 0.0, 200.0]])
        if what == "cs" and m not in two_d:
            c = sim.get_spectra_crosssections(progress_bar=False)
            return torch.cat([c["ecs"].flatten(), c["scs"].flatten()]).real
        if what == "inside":
            f = sim.fields_inside[w]
            return torch.cat([f.efield.flatten(), f.hfield.flatten()]).abs()
        if what == "ff":
            return sim.get_farfield(w, r_probe=r * 100, progress_bar=False)["sca"].efield.abs().flatten()
        if what == "green" and m not in two_d:
            g = sim.get_green(r_probe=r, r_source=r * 1.1, wavelength=w, progress_bar=False)
            return torch.cat([x.abs().flatten() for x in (g.values() if isinstance(g, dict) else [g]) if torch.is_tensor(x)])
        n = sim.get_nearfield(w, r_probe=r, progress_bar=False)
        return torch.cat([n["tot"].efield.flatten(), n["sca"].hfield.flatten()]).abs()

    two_d = set()
    for j0, o in enumerate(plan["ops"]):
        j = o.get("at", j0); k = o["op"]
        if k == "patch":
            b = everything()
            x = attempt(lambda: patch(o["how"], o.get("k")))
            if x[0] == "exc":
                out.append((j, "patch", "%s: %s" % x[1:]))
            unchanged(b, j, "the patch")
            if x[0] == "ok" and o["how"] != "line" and plan.get("full") is not None:
                miss = [q for q in plan["full"] if q not in replaced()]
                if miss:
                    out.append((j, "patch", "an activation that completed left torchgdm as it was: " + ", ".join(miss[:4])))
        elif k == "part":
            x = attempt(lambda: part(o))
            if x[0] == "exc":
                out.append((j, "build", x))
        elif k in ("eff", "gpm", "dict", "disc"):
            if o["part"] not in P:
                continue
            b = everything()
            x = attempt(lambda: build(o))
            unchanged(b, j, "building " + k)
            if x[0] == "ok":
                S[o["id"]] = x[1]
            out.append((j, "build", "ok" if x[0] == "ok" else x))
        elif k == "comb":
            if any(s not in S for s in o["of"]):
                continue
            b = everything()
            x = attempt(lambda: T.combine_gpm_structures_autodiff([S[s] for s in o["of"]], **({"environment": env} if o["env"] else {})))
            unchanged(b, j, "combining")
            if x[0] == "ok":
                S[o["id"]] = x[1]
            else:
                out.append((j, "comb", "%s: %s" % x[1:]))
        elif k in ("sim", "sim2d"):
            lin = {"d": "default", "f": tg.linearsystem.LinearSystemFullInverse, "sub": tg.linearsystem.LinearSystemFullMemEffSubstrate,
                   "fsub": tg.linearsystem.LinearSystemFullInverseSubstrate}[o["lin"]]
            kw = {} if o["lin"] == "d" else {"linearsystem": lin()}

            def mk():
                if k == "sim2d":
                    from torchgdm.struct.struct2d import StructDiscretizedSquare2D, square
                    s = StructDiscretizedSquare2D(square(l=3), step=20.0, materials=tg.materials.MatConstant(eps=6.0))
                    return tg.simulation.Simulation(structures=[s], environment=tg.env.freespace_2d.EnvHomogeneous2D(env_material=1.0),
                                                    illumination_fields=[tg.env.freespace_2d.PlaneWave(e0p=1, e0s=0.4, inc_angle=0.3)], wavelengths=[600.0], **kw)
                e = tg.env.EnvQuasistaticSubstrate3D(env_material=n_env ** 2, substrate_material=3.0, interface_z=-560.0) if o["sub"] else env
                return tg.simulation.Simulation(structures=[S[s] for s in o["of"]], environment=e, illumination_fields=waves[:o["waves"]],
                                                wavelengths=wl, copy_structures=o["copy"], **kw)
            if k == "sim" and any(s not in S for s in o["of"]):
                continue
            x = attempt(mk)
            out.append((j, "sim", "ok" if x[0] == "ok" else x))
            if x[0] == "ok":
                M[o["id"]] = x[1]
                if k == "sim2d":
                    two_d.add(o["id"])
        elif k in ("illum", "shift"):
            if o["id"] not in M:
                continue

            def alter():
                m = M[o["id"]]
                if k == "illum":
                    m.illumination_fields = [waves[q] for q in o["waves"]]
                elif o["j"] < len(m.structures):
                    q = m.structures[o["j"]]
                    q.set_center_of_mass(q.get_center_of_mass() + torch.tensor(o["by"]))
            x = attempt(alter)
            out.append((j, "sim", "ok" if x[0] == "ok" else x))
            ran.discard(o["id"])
        elif k == "run":
            if o["id"] not in M:
                continue
            st["runs"] += 1

            def go():
                M[o["id"]].run(batch_size=o["batch"], calc_missing=o["missing"], verbose=False, progress_bar=False)
            if o.get("patch_at"):
                with PatchAt(o["patch_at"]):
                    x = attempt(go)
            else:
                x = attempt(go)
            out.append((j, "run", "ok" if x[0] == "ok" else x))
            ran.discard(o["id"])
            if x[0] == "ok":
                ran.add(o["id"])
        elif k == "obs":
            if o["id"] not in ran:
                continue
            st["observations"] += 1
            x = attempt(lambda: observe(o["id"], o["what"]))
            out.append((j, "obs", x if x[0] == "exc" else ("ok", x[1].detach().tolist())))
            if o.get("patch_between"):
                patch("plain")
            if o["grad"] and x[0] == "ok" and x[1].requires_grad:
                lv = [(p, n, t) for p in sorted(L) for n, t in sorted(L[p].items())]
                y = x[1]; w = torch.arange(1, y.numel() + 1, dtype=y.dtype)
                st["gradients"] += 1
                g = attempt(lambda: torch.autograd.grad((y * w).sum() / y.detach().abs().sum(), [t for _, _, t in lv], allow_unused=True, retain_graph=True))
                out.append((j, "grad", g if g[0] == "exc" else ("ok", [None if t is None else [complex(t).real, complex(t).imag] for t in g[1]])))
            elif o["grad"]:
                out.append((j, "grad", ("none",)))
    return {"out": out, "stats": st, "final": {k: image(v) is not None for k, v in S.items()}}


def methods():
    """the attributes of torchgdm's linear systems, simulations and structures"""
    import inspect, torchgdm
    out = {}
    for mod in (torchgdm.linearsystem, torchgdm.simulation, torchgdm.struct):
        for cn, c in inspect.getmembers(mod, inspect.isclass):
            out.update({"%s.%s" % (cn, n): x for n, x in vars(c).items()})
    return out


_FULL = []


def full():
    """what one undisturbed activation replaces"""
    if not _FULL:
        def child():
            from pymiediff.helper import tg as T
            a = methods(); T.patch_torchgdm_autodiff(); b = methods()
            return sorted(q for q in b if a.get(q) is not b[q])
        _FULL.append(core.fork_call(child, timeout=60))
    return _FULL[0]


def close(a, b):
    import math
    if len(a) != len(b):
        return False
    s = max([abs(x) for x in b if math.isfinite(x)] + [1e-30])
    for x, y in zip(a, b):
        if math.isnan(x) and math.isnan(y) or x == y:
            continue
        if not abs(x - y) <= TOL * s:
            return False
    return True


def compare(plan, rec, ref, via):
    """via: simulations of combined structures, which the reference treats as separate ones (other solver)"""
    R = {(j, k): x for j, k, x in ref["out"]}
    vs = []
    for j, k, x in rec["out"]:
        o = plan["ops"][j]
        expanded = o.get("id") in via
        what = "op %d (%s %s)" % (j, o["op"], o.get("what", o.get("id", o.get("how"))))

        def bad(msg):
            vs.append({"op": j, "kind": k, "msg": msg, "what": what})
        if k in ("alter", "patch", "comb"):
            bad(str(x))
            continue
        y = R.get((j, k))
        if expanded and (k == "sim" or o.get("what") == "inside" or y is None or y[0] == "exc" or y != "ok" and k == "run"):
            continue
        if y is None:
            bad("happened only with the patch: %s" % (x,))
        elif k in ("build", "sim", "run", "illum", "shift"):
            if (x == "ok") != (y == "ok"):
                bad("with the patch: %s; without: %s" % (x, y))
        elif k == "obs":
            if y[0] == "exc":
                if x[0] != "exc":
                    bad("with the patch a value, without %s" % (y,))
            elif x[0] == "exc":
                bad("fails with the patch: %s: %s" % x[1:])
            elif not close(x[1], y[1]):
                bad("%s with the patch, %s without" % (x[1][:6], y[1][:6]))
        elif k == "grad" and y[0] == "ok":
            if x[0] != "ok":
                bad("no gradient with the patch: %s" % (x,))
            elif [g is None for g in x[1]] != [g is None for g in y[1]]:
                bad("gradient reaches other leaves: %s, without the patch %s" % (x[1], y[1]))
            elif not all(a is None or close_grad(a, b) for a, b in zip(x[1], y[1])):
                bad("%s with the patch, %s without" % (x[1], y[1]))
    return vs


def simulate(plan):
    rec = core.fork_call(execute, dict(plan, full=full()), timeout=200)
    vs = compare(plan, rec, core.fork_call(execute, without_patch(plan, False), timeout=200), set())
    comp = {o["id"] for o in plan["ops"] if o["op"] == "comb"}
    via = {o["id"] for o in plan["ops"] if o["op"] == "sim" and any(s in comp for s in o["of"])}
    if via and not vs:
        vs = compare(plan, rec, core.fork_call(execute, without_patch(plan, True), timeout=200), via)
    st = rec["stats"]
    states = set(); prev = None
    for o in plan["ops"]:
        s = "%s %s" % (o["op"], o.get("what") or o.get("how") or o.get("lin") or ("p" if o.get("patch_at") else ""))
        if prev:
            states.add(core.digest([prev, s]))
        prev = s
    nob = sum(k == "obs" and x[0] == "ok" for _, k, x in rec["out"])
    ngr = sum(k == "grad" and x[0] == "ok" for _, k, x in rec["out"])
    return {"violations": vs, "cov": {k: v for k, v in st.items() if k != "patches_interrupted"} | {"values_compared": nob, "gradients_compared": ngr},
            "faults": {"patch_interrupted": st["patches_interrupted"], "patch_in_the_middle_of_a_run": st["patches_mid_run"]},
            "states": sorted(states), "key": core.digest(plan), "trivial": nob == 0 or st["patches"] == 0, "sim_time": float(len(plan["ops"]))}


def close_grad(a, b):
    s = max(abs(complex(*b)), 1e-5)
    d = abs(complex(*a) - complex(*b))
    return d <= 5e-3 * s or complex(*a) != complex(*a) and complex(*b) != complex(*b)


def shrink(plan, kinds, budget):
    return common.shrink_ops(plan, kinds, budget, simulate)
