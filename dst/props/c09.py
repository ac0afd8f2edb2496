"""Simulated accelerators: placement of stored and computed tensors over histories of moves."""
import copy
from .. import core, gen
from . import common
from .common import boot  # noqa

DEVS = ["cpu", "cuda:0", "cuda:1"]


# ------------------------------------------------------------------ plans
def make(seed, i, tier, who="C09", copies=0.03):
    r = core.rng_for(who, seed, i)
    g = gen.Gen(r, scipy=False, heavy=0.02, tg=r.random() < 0.4)
    g.leaf_mode = g.named_mode = False; g.simple = True
    ops = []

    def flush():
        for o in g.ops:
            ops.append(dict(o, op="new", dev=r.choice(DEVS + ["cuda:0"]), argdev=r.choice(["cpu", "cpu", "same", r.choice(DEVS)]),
                            fail=r.choice([0] * 7 + [1, 2, 3])))
        g.ops = []
    specs = {}

    def keep():
        for o in g.ops:
            specs[o["id"]] = o
    for _ in range(r.choice([0, 1, 1, 2])):
        g.add_mat()
    for _ in range(r.choice([1, 2, 2, 3])):
        g.add_particle()
    keep(); flush()
    calls = []
    for _ in range(r.choice([4, 6, 8, 10, 12])):
        x = r.random()
        if x < 0.28:
            o = r.choice(g.parts + g.parts + g.mats)
            d = r.choice(DEVS + ["cuda:0"])
            for _ in range(r.choice([0] * 6 + [1, 1, 2])):
                ops.append({"op": "move", "id": o, "dev": d, "fail": r.randint(1, 8), "how": 0})
                if r.random() < 0.3 and calls:
                    ops.append(copy.deepcopy(r.choice(calls)))
            ops.append({"op": "move", "id": o, "dev": d, "fail": 0, "how": r.randrange(3)})
        elif x < 0.28 + copies:
            of = r.sample(g.parts + g.mats, min(len(g.parts + g.mats), r.choice([1, 1, 2, 3])))
            new = {v: g.fresh(v[0]) for v in of}
            ops.append({"op": "copy", "as": new, "how": r.choice(["deepcopy", "deepcopy", "pickle2", "pickle4", "pickle5", "torch"])})
            for v, n in new.items():
                specs[n] = dict(specs[v], id=n)
                (g.parts if v in g.parts else g.mats).append(n)
        elif x < 0.36:
            g.ops = list(specs.values()) if False else []
            if r.random() < 0.5:
                g.add_particle()
            else:
                g.add_mat()
            keep(); flush()
        else:
            if calls and r.random() < 0.35:
                c = copy.deepcopy(r.choice(calls))
            else:
                g.ops = list(specs.values()); n = len(g.ops)
                y = r.random()
                if y < 0.5:
                    c = g.call_particle({"v": r.choice(g.parts)})
                elif y < 0.65 and g.mats:
                    c = g.call_material()
                elif y < 0.83:
                    c = plain(r, g.call_functional())
                elif y < 0.92:
                    c = g.call_special()
                else:
                    c = g.call_tg() if g.tg else g.call_helper()
                if sc(c):
                    c = M_default(r, g)
                g.ops = g.ops[n:]; keep(); flush()
                c = {"op": "call", "call": c, "dev": r.choice(DEVS + ["cuda:0", "cuda:1"]), "argdev": r.choice(["cpu", "same", "same", r.choice(DEVS)])}
            calls.append(c); ops.append(c)
    return {"ops": ops}


SKIP = ("special.sph_jn\"", "special.sph_yn\"", "_der\"", "special.sph_h1n\"", "special.psi\"", "special.chi\"", "special.xi\"",
        "num_center_diff", "fder", "special.vsh\"", "\"scipy\"", "detach_tensor", "plane_wave", "materials_list", "x.rotation")


def sc(c):
    """calls that run on the host by design (scipy functions, NumPy helpers, a device argument of their own)"""
    s = core.canon(c)
    return any(k in s for k in SKIP)


def M_default(r, g):
    return gen.M({"v": r.choice(g.parts)}, "get_cross_sections", gen.T([0.01, 0.012]))


def plain(r, c):
    """replace some tensor arguments by plain numbers"""
    def num(x):
        if isinstance(x, dict) and "T" in x:
            d = x["T"]["d"]
            if isinstance(d, dict):
                re, im = d["re"], d["im"]
                if isinstance(re, list):
                    if re and isinstance(re[0], list):
                        return None
                    return {"L": [gen.C(a, b) for a, b in zip(re, im)]}
                return gen.C(re, im)
            if isinstance(d, list):
                return {"L": d} if not isinstance(d[0], list) else None
            return d
        return None
    for k in list(c["k"]):
        if r.random() < 0.35:
            v = num(c["k"][k])
            if v is not None:
                c["k"][k] = v
    if r.random() < 0.15:
        v = num(c["a"][0])
        if v is not None and has_tensor(c["k"]):
            c["a"][0] = v
    return c


def has_tensor(x):
    return "\"T\"" in core.canon(x)


# ------------------------------------------------------------------ execution
def parts_of(o):
    """(path, tensor) stored by an object, and the materials it refers to"""
    import torch, pymiediff as pmd
    out, mats = [], []

    def walk(x, p, d):
        if isinstance(x, torch.Tensor):
            if x.numel():
                out.append((p, x))
        elif isinstance(x, pmd.materials.MaterialBase):
            mats.append(x)
        elif isinstance(x, dict) and d < 4:
            for k, y in x.items():
                walk(y, "%s[%s]" % (p, k), d + 1)
        elif isinstance(x, (list, tuple)) and d < 4:
            for k, y in enumerate(x):
                walk(y, "%s[%d]" % (p, k), d + 1)
    for k, v in vars(o).items():
        walk(v, k, 0)
    return out, mats


def execute(plan):
    import warnings, torch
    warnings.simplefilter("ignore")
    from .. import lang, simdev
    import pymiediff as pmd
    D = simdev.Devices()
    env = lang.Env()
    where = {}     # id(obj) -> device it must live on
    limbo = set()
    obs = []; bad = []
    hold = []
    stats = {"moves": 0, "oom": 0, "transfers": 0, "calls": 0, "checked_tensors": 0, "copies": 0}

    def mats(o):
        return parts_of(o)[1]

    def settle(o, d, ok):
        for x in [o] + (mats(o) if isinstance(o, pmd.Particle) else []):
            hold.append(x)
            if ok:
                where[id(x)] = d; limbo.discard(id(x))
            else:
                limbo.add(id(x))

    def inspect(i):
        for v, o in env.obj.items():
            if id(o) in limbo or id(o) not in where or o is None:
                continue
            d = where[id(o)]
            if simdev.norm(o.device) != d:
                bad.append((i, "attr", "%s.device is %s, expected %s" % (v, o.device, d)))
            ts, _ = parts_of(o)
            for p, t in ts:
                stats["checked_tensors"] += 1
                if simdev.label(t) != d:
                    bad.append((i, "stored", "%s of %s (on %s) is on %s" % (p, v, d, simdev.label(t))))
            for m in mats(o):
                if id(m) not in where:
                    where[id(m)] = d; hold.append(m)
                if id(m) in limbo:
                    continue
                for p, t in parts_of(m)[0]:
                    if simdev.label(t) != where[id(m)]:
                        bad.append((i, "stored", "material %s of %s: %s is on %s, expected %s" % (m.__name__, v, p, simdev.label(t), where[id(m)])))

    def place(x, d):
        simdev.tag([t for t in simdev.tensors(x, [])], d)

    def involved(c):
        ids = []

        def w(x):
            if isinstance(x, dict):
                if "v" in x and len(x) == 1:
                    ids.append(x["v"])
                for y in x.values():
                    w(y)
            elif isinstance(x, list):
                for y in x:
                    w(y)
        w(c)
        return [env.obj[i] for i in ids if i in env.obj]

    for i, o in enumerate(plan["ops"]):
        k = o["op"]
        nmix = len(D.mixes)
        if k == "new":
            s = {a: b for a, b in o["spec"].items() if a != "id"}
            if any(q not in env.obj for q in refs(s)):
                continue
            env.spec[o["id"]] = lang.close(o["spec"], env)
            for fail in ([o["fail"], 0] if o.get("fail") else [0]):
                f, a, kw, _ = lang.bind(s, env)
                place([x for x in list(a) + list(kw.values())], o["dev"] if o["argdev"] == "same" else o["argdev"])
                kw["device"] = o["dev"]
                shared = [x for x in list(a) + [z for y in kw.values() for z in (y if isinstance(y, list) else [y])] if isinstance(x, pmd.materials.MaterialBase)]
                D.fail_at = fail or None
                with D:
                    out, x = lang.attempt(lambda: f(*a, **kw))
                D.fail_at = None
                if out[0] == "exc":
                    stats["oom"] += out[1] == "SimOOM"
                    if fail and out[1] == "SimOOM":
                        for m in shared:
                            settle(m, None, False)
                        continue
                    bad.append((i, "ctor", "creation on %s failed: %s: %s" % (o["dev"], out[1], out[2])))
                    break
                env.obj[o["id"]] = x; env.intern[o["id"]] = x
                settle(x, o["dev"], True)
                break
        elif k == "move":
            x = env.obj.get(o["id"])
            if x is None:
                continue
            stats["moves"] += 1
            dev = [o["dev"], torch.device(o["dev"]), o["dev"]][o.get("how", 0)]
            D.fail_at = o["fail"] or None
            with D:
                out, _ = lang.attempt(lambda: x.set_device(dev))
            D.fail_at = None
            if out[0] == "exc":
                stats["oom"] += out[1] == "SimOOM"
                settle(x, None, False)
                if out[1] != "SimOOM":
                    bad.append((i, "move", "move of %s to %s failed: %s: %s" % (o["id"], o["dev"], out[1], out[2])))
            else:
                settle(x, o["dev"], True)
        elif k == "copy":
            of = {v: env.obj[v] for v in o["as"] if env.obj.get(v) is not None}
            if not of:
                continue
            with D:
                out, new = lang.attempt(lambda: duplicate(of, o["how"]))
            stats["copies"] += 1
            if out[0] == "exc":
                bad.append((i, "copy", "%s of %s failed: %s: %s" % (o["how"], sorted(of), out[1], out[2])))
                continue
            hold.append(new)
            for v, n in o["as"].items():
                if v not in of:
                    continue
                a, b = of[v], new[v]
                env.obj[n] = env.intern[n] = b
                env.spec[n] = renamed(env.spec[v], "@%d" % i)
                for x, y in zip([a] + mats(a), [b] + mats(b)):
                    if id(x) in limbo:
                        limbo.add(id(y))
                    if id(x) in where:
                        where[id(y)] = where[id(x)]
                for (p, s), (q, t) in zip(parts_of(a)[0], parts_of(b)[0]):
                    if p == q and simdev.label(s) != simdev.label(t):
                        bad.append((i, "copy", "%s of %s is on %s, of its copy (%s) on %s" % (p, v, simdev.label(s), o["how"], simdev.label(t))))
        elif k == "call":
            c = o["call"]
            if any(q not in env.obj for q in refs(c)):
                continue
            inv = involved(c)
            lim = any(id(x) in limbo or any(id(m) in limbo for m in mats(x)) for x in inv)
            d = where.get(id(inv[0])) if inv else o["dev"]
            if inv and d is None and not lim:
                continue
            b = lang.bind(c, env)
            place([x for x in list(b[1]) + list(b[2].values())], (d or "cpu") if (not inv or o["argdev"] == "same") else o["argdev"])
            stats["calls"] += 1
            with D:
                out, res = lang.attempt(lambda: lang.invoke(c, env, b))
            ls = [] if lim else [(p, simdev.label(t)) for p, t in lang.tensors_of(res)] if res is not None else []
            # a tensor cannot end up on a device without having been put there: wrong ones only
            ls = [(p, l) for p, l in ls if l != d]
            if ls:
                bad.append((i, "result", "%s on %s: result%s is on %s" % (c.get("m") or c.get("fn"), d, ls[0][0], ls[0][1])))
            obs.append({"i": i, "lim": lim, "dev": d, "out": out if out[0] == "exc" else ("ok", lang.freeze(res)), "call": lang.close(c, env),
                        "mix": [list(map(str, m)) for m in D.mixes[nmix:]]})
        inspect(i)
        if len(D.mixes) > nmix and k != "call" and not any(b[0] == i for b in bad):
            bad.append((i, "mix", "tensors of %s and %s mixed in %s" % D.mixes[nmix]))
    stats["transfers"] = D.transfers
    return {"obs": obs, "bad": bad, "stats": stats, "torch_calls": D.calls}


def duplicate(of, how):
    import io, pickle, torch
    if how == "deepcopy":
        return copy.deepcopy(of)
    if how == "torch":
        f = io.BytesIO(); torch.save(of, f); f.seek(0)
        return torch.load(f, weights_only=False)
    return pickle.loads(pickle.dumps(of, int(how[6:])))


def renamed(spec, sfx):
    if isinstance(spec, dict):
        return {k: (x + sfx if k == "id" and isinstance(x, str) else renamed(x, sfx)) for k, x in spec.items()}
    if isinstance(spec, list):
        return [renamed(x, sfx) for x in spec]
    return spec


def refs(c):
    out = []

    def w(x):
        if isinstance(x, dict):
            if "v" in x and len(x) == 1:
                out.append(x["v"])
            for y in x.values():
                w(y)
        elif isinstance(x, list):
            for y in x:
                w(y)
    w(c)
    return out


def drop(x):
    """texts that name the device"""
    return ("D", {k: v for k, v in x[1].items() if k not in ("device", "text")}) if x[0] == "D" else x


def simulate(plan):
    from .. import lang
    rec = core.fork_call(execute, plan, timeout=120)
    vs = []
    for i, kind, msg in rec["bad"]:
        vs.append({"op": i, "kind": kind, "msg": msg, "what": "op %d" % i})
    for o in rec["obs"]:
        r, _ = common.REF.get(o["call"], None)
        what = "op %d (%s) on %s" % (o["i"], o["call"].get("m") or o["call"].get("fn"), o["dev"])
        if o["out"][0] == "exc":
            if o["lim"]:
                continue
            if r["out"][0] == "exc":
                if o["mix"]:
                    vs.append({"op": o["i"], "kind": "mix", "msg": o["out"][2], "what": what})
                continue
            vs.append({"op": o["i"], "kind": "mix" if o["mix"] else "fail", "msg": "%s: %s" % o["out"][1:3], "what": what})
        elif r["out"][0] == "exc":
            vs.append({"op": o["i"], "kind": "value", "msg": "returned a value, the CPU call raises %s" % r["out"][1], "what": what})
        else:
            m = lang.diff(*[drop(x) for x in (o["out"][1], r["out"][1])])
            if m:
                vs.append({"op": o["i"], "kind": "value", "msg": m, "what": what})
    st = rec["stats"]
    states = set(); prev = None
    for o in plan["ops"]:
        s = "%s %s %s" % (o["op"], o.get("dev"), (o.get("call") or {}).get("m") or (o.get("call") or o.get("spec") or {}).get("fn") or ("fail" if o.get("fail") else ""))
        if prev:
            states.add(core.digest([prev, s]))
        prev = s
    return {"violations": vs, "cov": {**{k: v for k, v in st.items() if k != "oom"}, "torch_calls": rec["torch_calls"], "limbo_calls": sum(o["lim"] for o in rec["obs"])},
            "faults": {"out_of_memory": st["oom"]}, "states": sorted(states), "key": core.digest(plan["ops"]),
            "trivial": st["calls"] < 2 or rec["torch_calls"] == 0, "sim_time": float(len(plan["ops"]))}


def shrink(plan, kinds, budget):
    return common.shrink_ops(plan, kinds, budget, simulate)
