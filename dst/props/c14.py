"""Saving and restoring: several simulated processes, one simulated disk."""
import copy, io, os, pickle, random, sys, warnings
from .. import core, gen
from . import common


def boot():
    common.boot()


# ------------------------------------------------------------------ plans
YW = [300, 400, 450, 500, 550, 600, 650, 700, 800, 900, 1000]


def yaml_text(r):
    x = r.random()
    if x < 0.3:
        return ("REFERENCES: test\nDATA:\n  - type: formula %d\n    wavelength_range: 0.2 2.5\n    coefficients: 0 %s 0.0%d %s 0.1%d\n"
                % (r.choice([1, 2]), r.choice(["1.1", "0.6"]), r.randint(1, 9), r.choice(["0.8", "0.4"]), r.randint(0, 9)))
    k = r.random() < 0.7
    rows = []
    for w in YW:
        rows.append("        %g %.4f%s" % (w / 1000, r.uniform(1.3, 4), " %.5f" % r.uniform(0, 1) if k else ""))
    return "REFERENCES: test\nDATA:\n  - type: tabulated %s\n    data: |\n%s\n" % ("nk" if k else "n", "\n".join(rows))


class Builder(common.History):
    pass


def new_proc(h):
    """another simulated process: no live objects"""
    h.g.mats = []; h.g.parts = []; h.g.argt = []; h.calls = []; h.g.ops = []


def nopart_refs(c, dead):
    return not (dead & common_refs(c))


def common_refs(c):
    from .. import hist
    return hist.refs(c)


def make(seed, i, tier):
    r = core.rng_for("C14", seed, i)
    if r.random() < 0.12:      # on simulated accelerators, where a copy must be on the original's device
        from . import c09
        return dict(c09.make(seed, i, tier, "C14dev", 0.25), devices=True)
    h = Builder(r, heavy=0.02)
    g = h.g
    g.leaf_mode = r.random() < 0.4
    out = []; files = []; nf = 0
    nproc = r.choice([1, 2, 2, 2, 3] if tier == "quick" else [1, 2, 3, 3, 4])
    shape = {}          # particle variable -> number of layers, constant environment (restored particles too)
    g.nlayers = lambda pv: shape.get(pv["v"], (1, True))[0] if pv["v"] in shape else gen.Gen.nlayers(g, pv)
    g.const_env = lambda p: shape[p["v"]][1] if p["v"] in shape else gen.Gen.const_env(g, p)
    grad = {}           # variable -> holds tensors that track gradients
    for p in range(nproc):
        if p:
            out.append({"op": "proc", "cold": r.random() < 0.25, "clean": r.random() < 0.7, "cwd": r.random() < 0.5})
            new_proc(h)
        if p == 0 or r.random() < 0.25:
            if r.random() < 0.4:
                g.add_mat(gen.FN("x.yaml_mat", r.choice(["mine", "Si", "gold"]), yaml_text(r)))
            h.seedobjects()
            if r.random() < 0.2:
                g.leaf_mode, old = r.random() < 0.7, g.leaf_mode
                g.bound += 1
                e = g.maybe_leaf(gen.CT(r.choice([2.1, 6.0]), r.choice([0.0, 0.25]), r.choice(["complex64", "complex64", "complex128"])), 0.9)
                g.bound -= 1
                g.leaf_mode = old
                g.add_mat(gen.FN("materials.MatConstant", e))
        if p and files:
            for f in ([files[-1]] if r.random() < 0.7 else r.sample(files, min(2, len(files)))):
                load(h, f, shape, grad)
        n = r.choice([2, 3, 4, 6]) if tier == "quick" else r.choice([3, 5, 8])
        for _ in range(n):
            step(h, r, files, shape, grad)
        if p < nproc - 1 or r.random() < 0.5:
            if g.mats or g.parts:
                save(h, r, files, shape, grad)
                if r.random() < 0.25:
                    h.ops[-1]["tear"] = {"how": r.choice(["cut", "cut", "zero"]), "u": r.random() if r.random() < 0.6 else r.choice([0.0, 0.999, 0.5])}
                    h.ops[-1]["probe"] = True
        out += h.ops
    return {"ops": out}


def step(h, r, files, shape, grad):
    g = h.g
    if not (g.mats or g.parts):
        h.seedobjects()
    x = r.random()
    if x < 0.55:
        c = h.next_call()
        y = r.random()
        if g.parts and y < 0.12:
            c = gen.M({"v": r.choice(g.parts)}, "get_cross_sections", g.k0(tensor=False))
        elif g.parts and y < 0.24:
            c = gen.FN("x.own_gradients", {"v": r.choice(g.parts)}, gen.T([0.01, 0.0125]), **({"backend": "torch"} if r.random() < 0.3 else {}))
        elif g.mats and y < 0.32:
            m = {"v": r.choice(g.mats)}
            c = r.choice([gen.FN("x.own_gradients", m, None), gen.M(m, "get_epsilon", r.choice([gen.T([500.0, 600.0]), 633.0]))])
        elif y < 0.38:
            c = gen.FN("x.repr_of", {"v": r.choice(g.parts + g.mats)})
        kw = {}
        if r.random() < 0.1:
            f = None
            try:
                if not any(v in shape for v in common_refs(c)):
                    f = common.pick_fault(h, c)
            except Exception:
                f = None
            if f:
                kw["fault"] = f
        elif r.random() < 0.15:
            kw["thread"] = True
        h.put(c, **kw)
    elif x < 0.62:
        h.ops.append({"op": "move", "on": r.choice(g.parts + g.mats), "dev": "cpu"})
    elif x < 0.76:
        v = r.choice(g.parts + g.mats)
        bundle = [v]
        if r.random() < 0.4:
            bundle = r.sample(g.parts + g.mats, min(len(g.parts + g.mats), r.choice([1, 2, 3])))
        add_as(h, {"op": "copy", "of": bundle, "how": r.choice(["deepcopy", "deepcopy", "pickle"])}, bundle, shape, grad)
    elif x < 0.86:
        save(h, r, files, shape, grad)
        if r.random() < 0.3:
            h.ops[-1]["full"] = r.choice([0, 1, 50, 200, 700, 1500])
        elif r.random() < 0.6:
            load(h, files[-1], shape, grad)
    elif x < 0.93 and len(g.parts + g.mats) > 1:
        v = r.choice(g.parts + g.mats)
        h.ops.append({"op": "wreck", "of": v})
        forget(h, v, shape)
        if not (g.mats or g.parts):
            h.seedobjects()
    else:
        h.ops.append({"op": "gc"})


def related(h, v, shape):
    """variables that share objects with v: decided by the symbolic pass; the builder only needs a superset"""
    from .. import hist
    sym_ids = {}
    env = {}
    fam = {v}
    changed = True
    link = []
    for o in h.ops:
        if o["op"] == "def":
            link.append({o["id"]} | hist.refs(o["spec"]))
        elif o["op"] in ("copy", "load"):
            link.append(set(o["as"].values()))
    while changed:
        changed = False
        for s in link:
            if s & fam and not s <= fam:
                fam |= s; changed = True
    return fam


def forget(h, v, shape):
    fam = related(h, v, shape)
    g = h.g
    g.mats = [m for m in g.mats if m not in fam]
    g.parts = [m for m in g.parts if m not in fam]
    g.argt = [a for a in g.argt if a[0] not in fam]
    h.calls = [c for c in h.calls if not (common_refs(c[0]) & fam)]


def add_as(h, o, bundle, shape, grad):
    g = h.g; o["as"] = {}
    for v in bundle:
        n = g.fresh(v.rstrip("0123456789_") + "r")
        o["as"][v] = n
    h.ops.append(o)
    for v, n in o["as"].items():
        if v.startswith("p"):
            shape[n] = shape.get(v) or (gen.Gen.nlayers(g, {"v": v}), gen.Gen.const_env(g, {"v": v}))
            g.parts.append(n)
        else:
            g.mats.append(n)


def save(h, r, files, shape, grad):
    g = h.g
    live = g.parts + g.mats
    bundle = r.sample(live, min(len(live), r.choice([1, 1, 2, 3])))
    name = r.choice([f["file"] for f in files]) if files and r.random() < 0.25 else "f%d" % len(files)
    o = {"op": "save", "of": bundle, "how": r.choice(["pickle2", "pickle3", "pickle4", "pickle5", "torch", "torch"]), "file": name}
    h.ops.append(o)
    files.append({"file": name, "of": bundle, "shape": {v: shape.get(v) or (gen.Gen.nlayers(g, {"v": v}), gen.Gen.const_env(g, {"v": v})) for v in bundle if v.startswith("p")}})


def load(h, f, shape, grad):
    for v, s in f["shape"].items():
        shape.setdefault(v, s)
    add_as(h, {"op": "load", "file": f["file"]}, f["of"], shape, grad)


# ------------------------------------------------------------------ symbolic pass
def rename(spec, sfx):
    if isinstance(spec, dict):
        return {k: (x + sfx if k == "id" and isinstance(x, str) else rename(x, sfx)) for k, x in spec.items()}
    if isinstance(spec, list):
        return [rename(x, sfx) for x in spec]
    return spec


def tracks(spec):
    return '"rg":true' in core.canon(spec)


def symbolic(plan):
    """op index -> closed call, or the variables an operation really concerns"""
    from .. import hist, lang
    env = lang.Env(); out = {}; disk = {}
    for i, o in enumerate(plan["ops"]):
        k = o["op"]
        if k == "proc":
            env = lang.Env(); out[i] = True
        elif k == "def":
            if hist.has_refs(o["spec"], env.spec):
                env.spec[o["id"]] = lang.close(o["spec"], env); out[i] = env.spec[o["id"]]
        elif k == "call":
            if hist.has_refs(o["call"], env.spec):
                out[i] = lang.close(o["call"], env)
        elif k == "move":
            if o["on"] in env.spec:
                out[i] = True
        elif k == "wreck":
            if o["of"] in env.spec:
                dead = hist.ids_in(env.spec[o["of"]]) | {o["of"]}
                out[i] = sorted(v for v, s in env.spec.items() if v in dead or hist.ids_in(s) & dead)
                for v in out[i]:
                    del env.spec[v]
        elif k == "copy":
            of = [v for v in o["of"] if v in env.spec]
            if o["how"] == "deepcopy":
                of = [v for v in of if not tracks(env.spec[v])]
            if of:
                out[i] = of
                for v in of:
                    env.spec[o["as"][v]] = dict(rename(env.spec[v], "@%d" % i), id=o["as"][v])
        elif k == "save":
            of = [v for v in o["of"] if v in env.spec]
            if of:
                out[i] = of
                bad = "tear" if o.get("tear") else "full" if o.get("full") is not None else None
                disk[o["file"]] = (bad, {v: env.spec[v] for v in of})
        elif k == "load":
            if o["file"] in disk:
                bad, d = disk[o["file"]]
                new = {v: n for v, n in o["as"].items() if v in d}
                out[i] = (bad, new, {v: d[v] for v in new})
                if not bad:
                    for v, n in new.items():
                        env.spec[n] = dict(rename(d[v], "@%d" % i), id=n)
        else:
            out[i] = True
    return out


# ------------------------------------------------------------------ one simulated process
class Full(io.RawIOBase):
    """a disk with room for n more bytes"""

    def __init__(self, n):
        self.n = n; self.buf = bytearray()

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if len(self.buf) + len(b) > self.n:
            self.buf += b[:self.n - len(self.buf)]
            import errno
            raise OSError(errno.ENOSPC, "No space left on device")
        self.buf += b
        return len(b)


def deep(x, memo=None, depth=0):
    """image of an object's complete state"""
    from .. import hist
    import torch, numpy as np
    memo = {} if memo is None else memo
    if isinstance(x, (torch.Tensor, np.ndarray, bool, int, float, complex, str, type(None))):
        return hist.image(x)
    if id(x) in memo:
        return ("seen", memo[id(x)])
    memo[id(x)] = len(memo)
    if isinstance(x, dict):
        return ("D", [(repr(k), deep(v, memo, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple, set, frozenset)):
        return (type(x).__name__, [deep(v, memo, depth + 1) for v in x])
    if hasattr(x, "__dict__") and type(x).__module__.startswith("pymiediff") and depth < 20:
        return ("O", type(x).__name__, [(k, deep(v, memo, depth + 1)) for k, v in sorted(vars(x).items())])
    return ("X", type(x).__name__)


def where(a, b, path="object"):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1]:
        if a[0] == "O" and a[1] == b[1]:
            ka, kb = dict(a[2]), dict(b[2])
            for k in sorted(set(ka) | set(kb)):
                if ka.get(k) != kb.get(k):
                    return where(ka[k], kb[k], path + "." + k) if k in ka and k in kb else "%s.%s %s" % (path, k, "lost" if k in ka else "added")
        if a[0] in ("list", "tuple") and len(a[1]) == len(b[1]):
            for j, (p, q) in enumerate(zip(a[1], b[1])):
                if p != q:
                    return where(p, q, path + "[%d]" % j)
        if a[0] == "D":
            return "%s: entries changed" % path
    return "%s changed" % path


def wreck(x, memo=None):
    """the owner throws this object away and reuses its memory"""
    import torch
    memo = set() if memo is None else memo
    if id(x) in memo:
        return
    memo.add(id(x))
    if isinstance(x, torch.Tensor):
        try:
            with torch.no_grad():
                x.data.fill_(float("nan") if x.is_floating_point() or x.is_complex() else 7)
        except RuntimeError:
            pass
    elif isinstance(x, dict):
        for v in list(x.values()):
            wreck(v, memo)
        x.clear()
    elif isinstance(x, (list, tuple)):
        for v in x:
            wreck(v, memo)
        if isinstance(x, list):
            x.clear()
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("pymiediff"):
        for v in list(vars(x).values()):
            wreck(v, memo)


def dump(o, objs, f):
    import torch
    if o["how"] == "torch":
        torch.save(objs, f)
    else:
        pickle.dump(objs, f, int(o["how"][6:]))


def read(data):
    import torch
    if data[:2] == b"PK" or not data:
        return torch.load(io.BytesIO(data), weights_only=False)
    return pickle.loads(data)


def process(plan, lo, hi, sym, root, boot_op):
    from .. import hist, lang
    warnings.simplefilter("ignore")
    if boot_op.get("cold"):
        for m in [m for m in sys.modules if m.split(".")[0] == "pymiediff" or m == "dst.extra"]:
            del sys.modules[m]
        sys.modules["dst"].__dict__.pop("extra", None)
        lang._FN.clear()
    wd = os.path.join(root, "w2" if boot_op.get("cwd") else "w1"); os.makedirs(wd, exist_ok=True); os.chdir(wd)
    env = lang.Env(); obs = []; st = {}

    def count(k):
        st[k] = st.get(k, 0) + 1

    def note(i, kind, **kw):
        obs.append(dict(i=i, kind=kind, **kw))

    for i in range(lo, hi):
        o = plan["ops"][i]
        if i not in sym:
            continue
        k = o["op"]; s = sym[i]
        if k == "def":
            try:
                env.obj[o["id"]] = lang.build(o["spec"], env)
                note(i, "def", out=("ok",))
            except Exception as e:
                note(i, "def", out=("exc", type(e).__name__, str(e)[:300]))
        elif k == "call":
            if not hist.refs(o["call"]) <= set(env.obj):
                continue
            b = lang.bind(o["call"], env)
            fault = hist.make_fault(o["fault"]) if o.get("fault") else None
            try:
                if o.get("thread"):
                    res = hist.in_thread(lambda: lang.invoke(o["call"], env, b)); count("calls_in_threads")
                elif fault:
                    with fault:
                        res = lang.invoke(o["call"], env, b)
                else:
                    res = lang.invoke(o["call"], env, b)
                out = ("ok", lang.freeze(res))
            except BaseException as e:
                if not isinstance(e, Exception) and not (fault and fault.fired):
                    raise
                out = ("exc", type(e).__name__, str(e)[:300])
            if fault and fault.fired:
                count("fault_" + o["fault"]["kind"])
            note(i, "call", out=out, fired=bool(fault and fault.fired))
        elif k == "move" and o["on"] in env.obj:
            try:
                env.obj[o["on"]].set_device(o["dev"])
            except Exception as e:
                note(i, "bad", msg="set_device raised %s: %s" % (type(e).__name__, e))
        elif k == "gc":
            import gc
            gc.collect()
        elif k == "wreck":
            if o["of"] in env.obj:
                wreck(env.obj[o["of"]]); count("objects_destroyed")
            for v in s:
                env.obj.pop(v, None); env.intern.pop(v, None)
        elif k == "copy":
            of = {v: env.obj[v] for v in s if v in env.obj}
            if not of:
                continue
            a = deep(of)
            try:
                new = copy.deepcopy(of) if o["how"] == "deepcopy" else pickle.loads(pickle.dumps(of))
                check_types(of, new, lambda m: note(i, "bad", msg=m))
                for v in new:
                    env.obj[o["as"][v]] = env.intern[o["as"][v]] = new[v]
                count("copies")
            except Exception as e:
                note(i, "bad", msg="%s raised %s: %s" % (o["how"], type(e).__name__, str(e)[:200]))
            d = where(a, deep(of))
            if d:
                note(i, "bad", msg="copying changed the original: " + d)
        elif k == "save":
            of = {v: env.obj[v] for v in s if v in env.obj}
            if len(of) < len(s):
                continue
            a = deep(of)
            buf = io.BytesIO()
            try:
                dump(o, of, buf)
                data = buf.getvalue(); count("saves")
            except Exception as e:
                note(i, "bad", msg="saving raised %s: %s" % (type(e).__name__, str(e)[:200]))
                data = None
            if data is not None and o.get("full") is not None and not o["how"] == "torch":
                f = Full(min(o["full"], len(data) - 1))
                try:
                    dump(o, of, f)
                    note(i, "bad", msg="saving to a full disk reported success")
                except OSError:
                    count("fault_disk_full")
                except Exception as e:
                    note(i, "bad", msg="saving to a full disk raised %s: %s" % (type(e).__name__, str(e)[:200]))
                data = bytes(f.buf)
            elif data is not None and o.get("full") is not None:
                data = data[:min(o["full"], len(data) - 1)]; count("fault_disk_full")
            d = where(a, deep(of))
            if d:
                note(i, "bad", msg="saving changed the object: " + d)
            if data is None:
                data = b""
            if o.get("tear"):
                n = min(int(o["tear"]["u"] * len(data)), max(0, len(data) - 1))
                data = data[:n] + (b"\0" * (len(data) - n) if o["tear"]["how"] == "zero" else b"")
                count("fault_write_" + o["tear"]["how"])
            with open(os.path.join(root, "disk", o["file"]), "wb") as f:
                f.write(data)
        elif k == "load":
            bad, new, specs = s
            p = os.path.join(root, "disk", o["file"])
            if not os.path.exists(p):
                continue
            data = open(p, "rb").read()
            try:
                objs = read(data)
            except Exception as e:
                if not bad:
                    note(i, "bad", msg="restoring raised %s: %s" % (type(e).__name__, str(e)[:200]))
                else:
                    count("damaged_copies_rejected")
                continue
            if bad:
                for v, x in objs.items():
                    if v not in specs:
                        continue
                    try:
                        c = probe_call(not hasattr(x, "get_epsilon")); c["on"] = {"v": "live"}
                        env.obj["live"] = x
                        out = ("ok", lang.freeze(lang.invoke(c, env)))
                    except Exception as e:
                        count("damaged_copies_rejected")
                        continue
                    note(i, "probe", v=v, n=len(data), out=out, isp=not hasattr(x, "get_epsilon"))
                continue
            count("restores")
            for v, n in new.items():
                if v not in objs:
                    note(i, "bad", msg="%s is missing from the restored file" % v); continue
                env.obj[n] = env.intern[n] = objs[v]
    return {"obs": obs, "stats": st}


PROBE_W = [450.0, 600.0, 800.0]


def probe_call(isp):
    return {"m": "get_cross_sections" if isp else "get_epsilon", "a": [gen.T([0.01, 0.0125]) if isp else {"L": PROBE_W}]}


def check_types(a, b, bad):
    for v in a:
        if type(a[v]) is not type(b[v]):
            bad("%s restored as %s" % (type(a[v]).__name__, type(b[v]).__name__))


def simulate(plan):
    if plan.get("devices"):
        from . import c09
        a = c09.simulate(plan)
        a["cov"] = {"device_" + k: n for k, n in a["cov"].items()}
        return a
    import shutil, tempfile
    from .. import hist, lang
    sym = symbolic(plan)
    root = tempfile.mkdtemp(dir=os.environ.get("DST_SCRATCH"))
    os.makedirs(os.path.join(root, "disk"))
    ops = plan["ops"]
    cuts = [0] + [i for i, o in enumerate(ops) if o["op"] == "proc"] + [len(ops)]
    obs = []; st = {}
    try:
        for a, b in zip(cuts, cuts[1:]):
            if a == b:
                continue
            bo = ops[a] if ops[a]["op"] == "proc" else {}
            if bo.get("clean"):
                for w in ("w1", "w2"):
                    shutil.rmtree(os.path.join(root, w), ignore_errors=True)
            rec = core.fork_call(process, plan, a, b, sym, root, bo, timeout=120)
            obs += rec["obs"]
            for k, n in rec["stats"].items():
                st[k] = st.get(k, 0) + n
    finally:
        shutil.rmtree(root, ignore_errors=True)
    vs = []

    def bad(i, kind, msg):
        vs.append({"op": i, "kind": kind, "msg": msg, "what": hist.describe(ops[i])})
    for ob in obs:
        i = ob["i"]; k = ob["kind"]
        if k == "bad":
            bad(i, "store", ob["msg"])
        elif k == "probe":
            c = probe_call(ob["isp"]); c["on"] = sym[i][2][ob["v"]]
            r, _ = ref(c)
            d = "works where the original does not" if r["out"][0] == "exc" else lang.diff(ob["out"][1], r["out"][1], tol=tol(c))
            if d:
                bad(i, "store", "a copy cut short (%d bytes) loads and computes something else: %s" % (ob["n"], d))
        elif k == "call" or ob["out"][0] == "exc":
            r, _ = ref(sym[i])
            x, y = ob["out"], r["out"]
            if ob.get("fired") and x[0] == "exc":
                continue
            if x[0] != y[0] or x[0] == "exc" and x[1] != y[1]:
                bad(i, "value", "%s, expected %s" % (hist._o(x), hist._o(y)))
            elif x[0] == "ok" and k == "call":
                d = lang.diff(x[1], y[1], tol=tol(sym[i]))
                if d:
                    bad(i, "value", d)
    shapes = []
    for i, o in enumerate(ops):
        if i in sym:
            shapes.append(o["op"] + ":" + str(o.get("how", "")) + (common.call_key(o["call"]) if o["op"] == "call" else "") + str(sorted(k for k in ("tear", "full", "fault", "thread", "cold", "clean") if o.get(k))))
    states = {core.digest([a, b]) for a, b in zip(shapes, shapes[1:])}
    calls = sum(ob["kind"] == "call" for ob in obs)
    cov = {k: n for k, n in st.items() if not k.startswith("fault_")}
    cov.update(calls=calls, processes=len(cuts) - 1)
    f = {k[6:]: n for k, n in st.items() if k.startswith("fault_")}
    f["restart"] = len(cuts) - 2
    return {"violations": vs, "cov": cov, "faults": f, "states": sorted(states), "key": core.digest(ops),
            "trivial": not (calls and (st.get("restores") or st.get("copies") or st.get("damaged_copies_rejected"))), "sim_time": float(len(shapes))}


def tol(c):
    from .. import hist
    return max(3e-5, hist.tol_for(c) or 0) if "yaml_mat" in core.canon(c) else hist.tol_for(c)


_TMP = {}


def ref(call):
    """the same call in a process of its own, in an empty directory"""
    import tempfile
    if "d" not in _TMP:
        _TMP["d"] = tempfile.mkdtemp(dir=os.environ.get("DST_SCRATCH"))
    old = os.getcwd()
    os.chdir(_TMP["d"])
    try:
        return common.REF.get(call)
    finally:
        os.chdir(old)


def shrink(plan, kinds, budget):
    return common.shrink_ops(plan, kinds, budget, simulate)
