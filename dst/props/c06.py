"""Threads under a simulated scheduler."""
import copy, warnings
from .. import core, gen
from . import common


def boot():
    common.boot()
    import importlib, pkgutil, pymiediff
    for m in pkgutil.walk_packages(pymiediff.__path__, "pymiediff."):
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass


def make(seed, i, tier):
    r = core.rng_for(seed, "C06", i)
    h = common.History(r, heavy=0.02)
    g = h.g
    g.leaf_mode = r.random() < 0.5
    for _ in range(r.choice([1, 1, 2])):
        g.add_mat(None if r.random() < 0.2 else gen.FN("materials.MatDatabase", r.choice(gen.MATS)))
    h.seedobjects()
    # warm-up calls of the main thread
    for _ in range(r.choice([0, 0, 1, 2])):
        h.put(h.next_call())
    if r.random() < 0.2:
        h.put(material_call(h))
    pre = len(h.ops)
    nt = r.choice([2, 2, 3, 4])
    threads = []
    hot = []          # calls that several threads make
    for _ in range(r.choice([1, 2, 3])):
        if r.random() < 0.25:
            hot += r.choice([h.g.orders, h.g.orders, h.g.options, h.g.pairs])()
            continue
        if r.random() < 0.1:
            hot.append(gen.FN(r.choice(["x.repr_of", "x.repr_of", "x.particle_state"]), {"v": r.choice(g.parts)}))
            continue
        hot.append(material_call(h) if r.random() < 0.5 else h.g.call() if r.random() < 0.5 else g.call_particle())
    from .c02 import shared
    for t in range(nt):
        ops = []
        for _ in range(r.choice([1, 2, 3, 4]) if tier == "quick" else r.choice([2, 3, 4, 6])):
            x = r.random()
            if x < 0.12:
                ops.append({"op": "move", "on": r.choice(g.parts + g.mats), "dev": "cpu"})
                continue
            if x < 0.20:
                k = len(h.ops)
                v = g.add_particle()
                new = h.ops[k:]; del h.ops[k:]
                # tensors and materials made on the way belong to the shared part
                for o in new:
                    if o["id"] != v["v"]:
                        h.ops.append(o)
                ops.append([o for o in new if o["id"] == v["v"]][0])
                g.parts.remove(v["v"])
                c = gen.M(v, "get_cross_sections", g.k0())
                h.n += 1
                ops.append({"op": "call", "id": "c%d" % h.n, "call": c})
                continue
            if x < 0.28:
                c = gen.FN(r.choice(["x.repr_of", "x.particle_state"]), {"v": r.choice(g.parts)})
            elif x < 0.75:
                c = copy.deepcopy(r.choice(hot))
                if r.random() < 0.25:
                    c = g.variant(c)
            else:
                c = h.next_call()
            if r.random() < 0.1:
                c = dict(c, mode=r.choice(["no_grad", "inference"]))
            h.n += 1
            o = {"op": "call", "id": "c%d" % h.n, "call": c, "keep": True}
            ops.append(o)
            h.calls.append((c, o["id"]))
            if g.leaf_mode and c.get("mode", "grad") == "grad" and r.random() < 0.4:
                ops.append({"op": "bwd", "of": o["id"], "retain": True})
        threads.append(ops)
    post = [{"op": "call", "id": "z%d" % j, "call": copy.deepcopy(c)} for j, c in enumerate(hot)]
    y = r.random()
    if y < 0.35:
        cfg = {"kind": "random", "p": r.choice([0.02, 0.1, 0.3, 0.6])}
    elif y < 0.65:
        cfg = {"kind": "focus", "file": r.choice(["mat.py", "mat.py", "mat.py", "main.py", "special.py", "special.py", "multishell.py", "helper.py", "tg.py"])}
    else:
        cfg = {"kind": "pct", "depth": r.choice([1, 2, 3, 5]), "len": r.choice([60, 200, 1000, 4000])}
    cfg["seed"] = core.derive(seed, "sched", i) % 10 ** 12
    if r.random() < 0.25:
        cfg["ops"] = True
    return {"pre": h.ops, "threads": threads, "post": post, "sched": cfg}


def material_call(h):
    """the same few wavelengths for everybody"""
    r = h.r
    w = r.choice([[600.0], [600.0, 500.0], [500.0, 600.0, 700.0]])
    if r.random() < 0.25:     # long, partly overlapping spectra: tables that grow, are bounded or trimmed
        a = r.choice([400.0, 420.0, 500.0]); n = r.choice([12, 40, 70, 140])
        w = [a + j for j in range(n)]
        return gen.M({"v": r.choice(h.g.mats)}, "get_epsilon", r.choice([{"L": w}, gen.T(w)]))
    return gen.M({"v": r.choice(h.g.mats)}, "get_epsilon", r.choice([{"L": w}, gen.T(w), w[0]]))


def symbolic(plan):
    """closed calls: [(phase, thread, index)] -> closed spec"""
    from .. import hist, lang
    env = lang.Env(); out = {}

    def walk(ops, key, env):
        for j, o in enumerate(ops):
            if o["op"] == "def":
                if hist.has_refs(o["spec"], env.spec):
                    env.spec[o["id"]] = lang.close(o["spec"], env); out[key + (j,)] = env.spec[o["id"]]
            elif o["op"] == "call":
                if hist.has_refs(o["call"], env.spec):
                    out[key + (j,)] = lang.close(o["call"], env)
            elif o["op"] == "bwd":
                for q, p in enumerate(ops[:j]):
                    if p.get("id") == o["of"] and key + (q,) in out:
                        out[key + (j,)] = out[key + (q,)]
            elif o["op"] == "move":
                if o["on"] in env.spec:
                    out[key + (j,)] = True
    walk(plan["pre"], ("pre", 0), env)
    base = dict(env.spec)
    for t, ops in enumerate(plan["threads"]):
        env.spec = dict(base)
        walk(ops, ("thr", t), env)
    env.spec = dict(base)
    walk(plan["post"], ("post", 0), env)
    return out


def child(plan, sym):
    from .. import lang, sched, hist
    warnings.simplefilter("ignore")
    env = lang.Env(); obs = []

    def play(ops, key, env, results):
        for j, o in enumerate(ops):
            if key + (j,) not in sym:
                continue
            k = o["op"]
            if k == "def":
                try:
                    env.obj[o["id"]] = lang.build(o["spec"], env)
                    out = ("ok",)
                except sched.Abort:
                    raise
                except Exception as e:
                    out = ("exc", type(e).__name__, str(e)[:300])
                obs.append((key + (j,), "def", out))
            elif k == "call":
                if not hist.refs(o["call"]) <= set(env.obj):
                    continue
                b = lang.bind(o["call"], env)
                try:
                    res = lang.invoke(o["call"], env, b)
                    out = ("ok", res)
                    if o.get("keep"):
                        results[o["id"]] = res
                except sched.Abort:
                    raise
                except Exception as e:
                    out = ("exc", type(e).__name__, str(e)[:300])
                # the result is read when everybody is done: nobody may change it in the meantime
                obs.append((key + (j,), "call", out))
            elif k == "bwd" and o["of"] in results:
                g = lang.grads(results[o["of"]], dict(env.leaves), None, True)
                obs.append((key + (j,), "bwd", g))
            elif k == "move" and o["on"] in env.obj:
                try:
                    env.obj[o["on"]].set_device(o["dev"])
                except sched.Abort:
                    raise
                except Exception as e:
                    obs.append((key + (j,), "move", ("exc", type(e).__name__, str(e)[:300])))

    play(plan["pre"], ("pre", 0), env, {})
    s = sched.Scheduler(plan["sched"], len(plan["threads"]))
    fns = []
    errs = []
    for t, ops in enumerate(plan["threads"]):
        e = lang.Env(); e.obj = dict(env.obj); e.spec = dict(env.spec); e.intern = dict(env.intern); e.leaves = dict(env.leaves)

        def fn(t=t, ops=ops, e=e):
            try:
                play(ops, ("thr", t), e, {})
            except sched.Abort:
                raise
            except BaseException as ex:
                import traceback
                errs.append("%s: %s\n%s" % (type(ex).__name__, ex, traceback.format_exc()))
        fns.append(fn)
    s.run(fns)
    if errs:
        raise core.HarnessError("thread failed: " + errs[0])
    if not s.deadlock:
        play(plan["post"], ("post", 0), env, {})
    obs = [(k, kind, ("ok", lang.freeze(o[1])) if kind == "call" and o[0] == "ok" else o) for k, kind, o in obs]
    return {"obs": obs, "deadlock": s.deadlock, "log": s.log, "sites": s.sites, "points": s.n, "lockwaits": s.lockwaits,
            "clock": s.clock}


def simulate(plan, full=False):
    from .. import lang, hist
    sym = symbolic(plan)
    try:
        rec = core.fork_call(child, plan, sym, timeout=120)
    except core.ChildTimeout:
        return {"violations": [{"kind": "hang", "msg": "a thread blocked outside the simulated scheduler", "what": "run"}],
                "cov": {}, "states": [], "key": core.digest(plan)}
    vs = []

    def bad(key, kind, msg):
        ops = {"pre": plan["pre"], "post": plan["post"]}.get(key[0]) or plan["threads"][key[1]]
        vs.append({"kind": kind, "msg": msg, "op": list(key), "what": "thread %s: %s" % (key[1] if key[0] == "thr" else "main (%s)" % key[0], hist.describe(ops[key[2]]))})
    if rec["deadlock"]:
        vs.append({"kind": "hang", "msg": rec["deadlock"], "what": "threads"})
    for key, kind, out in rec["obs"]:
        key = tuple(key); c = sym[key]
        if kind == "call":
            b = common.REF.get(c)[0]["out"]
            if out[0] != b[0] or out[0] == "exc" and out[1] != b[1]:
                bad(key, "value", "call %s, expected %s" % (hist._o(out), hist._o(b)))
            elif out[0] == "ok":
                d = lang.diff(out[1], b[1], tol=hist.tol_for(c), rg=False)
                if d:
                    bad(key, "value", d)
        elif kind == "def" and out[0] == "exc":
            b = common.REF.get(c)[0]["out"]
            if out[0] != b[0]:
                bad(key, "value", "constructor %s, expected %s" % (hist._o(out), hist._o(b)))
        elif kind == "move":
            bad(key, "value", "set_device %s" % hist._o(out))
        elif kind == "bwd":
            r, names = common.REF.get(c, {"sel": None})
            if r["out"][0] == "exc":
                continue
            m = hist.grad_mismatch(out, r["grads"], names, c)
            if m:
                bad(key, "grad", m)
    a = {"violations": vs, "cov": {"schedule_points": rec["points"], "switches": len(rec["log"]), "lock_waits": rec["lockwaits"],
                                  "calls": sum(k == "call" for _, k, _ in rec["obs"])},
         "faults": {"preemptions": len(rec["log"])},
         "states": [core.digest(rec["sites"])], "key": core.digest([plan["pre"], plan["threads"], rec["log"]]),
         "trivial": len(rec["sites"]) < 2, "sim_time": rec["points"] * 1e-3}
    if full:
        a["log"] = rec["log"]
    return a


SHRINKS_HANGS = True


def shrink(plan, kinds, budget):
    import time
    end = time.monotonic() + budget

    def failing(p):
        try:
            a = simulate(p, True)
        except core.HarnessError:
            return None
        return a if any(v["kind"] in kinds for v in a["violations"]) else None
    a = failing(plan)
    if not a:
        return None
    # 1. explicit schedule instead of a seeded one
    p = dict(plan, sched={"kind": "explicit", "seed": 0, "switches": [list(x) for x in a["log"]], "ops": plan["sched"].get("ops", False)})
    if failing(p):
        plan = p
    # 2. fewer operations (the schedule of the remaining ones is kept only if it still fails)
    def try_list(get, put):
        nonlocal plan
        items = get(plan)
        if len(items) > 1 and time.monotonic() < end:
            out = core.ddmin(items, lambda it: bool(failing(put(plan, it))), max(1, (end - time.monotonic()) / 3))
            if len(out) < len(items):
                plan = put(plan, out)
    if plan["sched"]["kind"] == "explicit":
        try_list(lambda q: q["sched"]["switches"], lambda q, it: dict(q, sched=dict(q["sched"], switches=it)))
    try_list(lambda q: q["post"], lambda q, it: dict(q, post=it))
    for t in range(len(plan["threads"])):
        try_list(lambda q: q["threads"][t], lambda q, it: dict(q, threads=[it if u == t else x for u, x in enumerate(q["threads"])]))
    try_list(lambda q: q["pre"], lambda q, it: dict(q, pre=it))
    plan["ops"] = []
    return plan
