"""Shared pieces of the history-based properties (C01-C05, C10, C12)."""
import copy, gc, os, sys, warnings

from .. import core, gen

REF = None


def boot():
    """Load the system, evaluate nothing."""
    global REF
    from .. import locks
    locks.install()
    warnings.simplefilter("ignore")
    import pymiediff  # noqa: the system under test
    try:
        import torchgdm  # noqa
        import pymiediff.helper.tg  # noqa
    except ImportError:
        pass
    from .. import lang
    lang.install_stubs()
    check_origin(pymiediff)
    REF = lang.Reference()
    warm()
    gc.collect(); gc.freeze()


def warm():
    """Third-party lazy imports (sympy in torch's dispatch modes) happen now, not in a simulated run."""
    import torch
    from torch.utils._python_dispatch import TorchDispatchMode

    class M(TorchDispatchMode):
        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            return core.through(func, args, kwargs)
    with M():
        x = torch.ones(2, 2, requires_grad=True)
        torch.stack([x, x]).sum().backward()
        torch.linspace(0, 1, 3); torch.arange(3); torch.zeros(2); torch.full((2,), 1.0)
        torch.complex(torch.ones(1), torch.ones(1)).abs(); (x[0] * 1j).real
        torch.inverse(torch.eye(2)); torch.linalg.lstsq(torch.eye(2), torch.eye(2))
    torch.as_tensor([1.0]).numpy(); repr(torch.ones(2)); str(torch.ones(1, dtype=torch.complex64))
    warnings.resetwarnings(); warnings.simplefilter("ignore")


def check_origin(pmd):
    if not os.path.realpath(pmd.__file__).startswith(core.SRC):
        raise core.HarnessError("pymiediff imported from %s" % pmd.__file__)


BAD = ["backend", "nmax0", "prec", "shape", "mat", "wl", "extra"]


def bad_call(g):
    """calls that must fail cleanly (or not at all): the reference decides"""
    r = g.r
    x = r.choice(BAD)
    if x == "mat":
        return gen.FN("materials.MatDatabase", r.choice(["unobtainium", "xx", "si ", "../Si"]))
    if x == "wl":
        m = {"v": r.choice(g.mats)} if g.mats else g.add_mat()
        return gen.M(m, "get_epsilon", r.choice([100.0, 1e6, gen.T([500.0, 1e6]), gen.T([]), gen.T([float(1)]), "500", None]))
    if x == "extra":
        return gen.FN("multishell.cross_sections", gen.T([0.01]), r_layers=gen.T([50.0]), r_c=40.0, eps_layers=gen.CT([4.0], [0.1]))
    p = g.a_part()
    k = {}
    if x == "backend":
        k["backend"] = "nope"
    elif x == "nmax0":
        k["n_max"] = r.choice([0, -1])
    elif x == "prec":
        k["precision"] = "half"
    a = gen.T([[0.01, 0.012], [0.01, 0.02]]) if x == "shape" else g.k0()
    return gen.M(p, r.choice(["get_cross_sections", "get_mie_coefficients"]), a, **k)


def rename(x, a, b):
    """reference a -> b"""
    if isinstance(x, dict):
        if x == {"v": a}:
            return {"v": b}
        return {k: rename(y, a, b) for k, y in x.items() if k != "mode"}
    if isinstance(x, list):
        return [rename(y, a, b) for y in x]
    return x


def call_key(c):
    """The shape of a call: names and option values, not numbers."""
    def opt(v):
        return v if isinstance(v, (str, int, bool)) else type(v).__name__ if not isinstance(v, dict) else sorted(v)[0]
    nm = c.get("m") or c.get("fn")
    return nm + ":" + ",".join("%s=%s" % (k, opt(v)) for k, v in sorted(c.get("k", {}).items())) + ":" + c.get("mode", "grad")


def measure(plan, rec, sym):
    """coverage of one run: operation shapes, pairs of consecutive shapes, object-table states"""
    shapes = []; states = set()
    for i, o in enumerate(plan["ops"]):
        if i not in sym:
            continue
        s = o["op"] + (":" + call_key(o["call"]) if o["op"] == "call" else "") + ("!" if o.get("fault") else "")
        shapes.append(s)
    for a, b in zip(shapes, shapes[1:]):
        states.add(core.digest([a, b]))
    return shapes, sorted(states)


def simulate(plan, checks, rg=True, timeout=90):
    from .. import hist
    v, rec, sym = run(plan, checks, rg, timeout)
    if rec is None:
        return {"violations": v, "cov": {}, "states": [], "key": core.digest(plan["ops"]), "trivial": False}
    shapes, states = measure(plan, rec, sym)
    st = rec["stats"]
    cov = {k: n for k, n in st.items() if not k.startswith("fault")}
    if "hashseed" in plan:
        cov["other_hash_seed"] = int(plan["hashseed"] is not None)
    calls = [o for o in rec["obs"] if o["kind"] == "call"]
    cov["calls"] = len(calls)
    cov["calls_failed"] = sum(o["out"][0] == "exc" for o in calls)
    cov["backward_passes"] = sum(o["kind"] == "bwd" for o in rec["obs"])
    cov["operations"] = len(shapes)
    # statements / tensor operations have no duration: one virtual second per operation of the history
    return {"violations": v, "cov": cov, "faults": {k[6:]: n for k, n in st.items() if k.startswith("fault")},
            "states": states, "key": core.digest(plan["ops"]), "trivial": len(calls) < 3, "sim_time": float(len(shapes))}


def run(plan, checks, rg=True, timeout=90):
    from .. import hist
    sym = hist.symbolic(plan)
    try:
        if plan.get("hashseed") is not None:
            rec = core.other_hashes(plan["hashseed"]).call(plan, timeout)
        else:
            rec = core.fork_call(hist.execute, plan, sym, timeout=timeout)
    except core.ChildTimeout:
        if not plan.get("hang"):
            raise
        return [{"op": -1, "kind": "hang", "msg": "the history did not finish within %d s" % timeout, "what": "run"}], None, sym
    return hist.judge(plan, sym, rec, REF, checks, rg), rec, sym


def shrink_ops(plan, kinds, budget, simulate):
    def failing(ops):
        try:
            a = simulate(dict(plan, ops=ops))
        except core.HarnessError:
            return False
        return any(v["kind"] in kinds for v in a["violations"])
    if not failing(plan["ops"]):
        return None
    return dict(plan, ops=core.ddmin(plan["ops"], failing, budget))


class History:
    """Builder of operation sequences around a Gen."""

    def __init__(self, r, **kw):
        self.r = r
        self.g = gen.Gen(r, **kw)
        self.calls = []      # (call, id)
        self.n = 0
        self.queue = []; self.p_modes = 0.05
        self.focus = self.g.a_function() if r.random() < 0.1 else None     # most of the history about one function

    @property
    def ops(self):
        return self.g.ops

    def seedobjects(self):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2])):
            self.g.add_mat()
        for _ in range(r.choice([1, 1, 2, 3])):
            self.g.add_particle()

    def promote(self, call):
        """Any inline tensor argument may just as well be an object of the caller's, used again later."""
        r = self.r; g = self.g
        p = 1.0 if r.random() < (0.5 if self.focus else 0.12) else 0.3

        def w(v):
            if not (isinstance(v, dict) and "T" in v and "id" not in v["T"]) or r.random() > p:
                return v
            if g.leaf_mode and r.random() < 0.2 and v["T"]["dt"][:5] in ("float", "compl"):
                v = copy.deepcopy(v); v["T"]["rg"] = True
                same = [i for i, s in g.leaves if s == v]
                if same and r.random() < 0.6:
                    return {"v": r.choice(same)}
                t = g.add_tensor(v); g.leaves.append((t["v"], v))
                return t
            same = [i for i, s in g.argt if s == v]
            if same and r.random() < 0.8:
                return {"v": r.choice(same)}
            t = g.add_tensor(v)
            if not v["T"].get("rg"):
                g.argt.append((t["v"], v))
            return t
        if not g.named_mode or call.get("fn") in ("x.gpm", "x.gpm_struct", "x.eff_struct") or r.random() < 0.4:
            return call
        call = copy.deepcopy(call)
        if "a" in call:
            call["a"] = [w(v) for v in call["a"]]
        if "k" in call:
            call["k"] = {k: w(v) for k, v in sorted(call["k"].items())}
        return call

    def put(self, call, keep=False, **kw):
        call = self.promote(call)
        self.n += 1
        i = "c%d" % self.n
        o = {"op": "call", "id": i, "call": call}
        if keep:
            o["keep"] = True
        o.update(kw)
        self.ops.append(o)
        self.calls.append((call, i))
        return i

    def next_call(self):
        r = self.r
        x = r.random()
        if self.calls and x < 0.45:
            recent = self.calls[-6:] if r.random() < 0.6 else self.calls
            c = r.choice(recent)[0]
            if r.random() < 0.2:
                return self.g.sibling(c)
            if r.random() < 0.2:
                ps = [p for p in self.g.parts if '{"v":"%s"}' % p in core.canon(c) and self.g.spec_of(p)]
                if ps:       # the same question about a slightly different particle
                    p = r.choice(ps)
                    q = self.g.particle_variant(p)
                    return rename(c, p, q["v"])
            return self.g.variant(c)
        if self.calls and x < 0.55:
            return copy.deepcopy(r.choice(self.calls)[0])
        if x < 0.60:
            return bad_call(self.g)
        if self.queue:
            return self.queue.pop(0)
        if self.g.tg and r.random() < self.g.heavy * 0.1:
            self.queue = self.g.struct_calls()
            return self.queue.pop(0)
        if r.random() < self.p_modes:
            self.queue = self.g.modes()
            return self.queue.pop(0)
        if r.random() < 0.06:
            self.queue = r.choice([self.g.pairs, self.g.pairs, self.g.orders, self.g.options, self.g.options])()
            return self.queue.pop(0)
        x = r.random()
        if self.focus and r.random() < 0.8:
            c = self.g.uniform(self.focus)
        else:
            c = self.g.many_angles() if x < 0.02 else self.g.uniform() if x < 0.3 else self.g.call()
        if r.random() < 0.15:
            c = dict(c, mode=r.choice(["no_grad", "inference"]))
        return c

    def mutate_arg(self):
        """overwrite the contents of a tensor that only serves as an argument, then call again"""
        if not self.g.argt:
            return False
        r = self.r
        k = r.randrange(len(self.g.argt))
        i, spec = self.g.argt[k]
        s = copy.deepcopy(spec)
        d = s["T"]["d"]

        def ch(x):
            if isinstance(x, list):
                return [ch(y) for y in x]
            if isinstance(x, dict):
                return {a: ch(b) for a, b in x.items()}
            return x * 1.03125 + (0.0625 if x == 0 else 0)
        s["T"]["d"] = ch(d)
        self.g.argt[k] = (i, s)
        s2 = copy.deepcopy(s); s2["T"]["id"] = i
        self.ops.append({"op": "mut", "id": i, "spec": s2})
        used = [c for c, _ in self.calls if i in core.canon(c)]
        if used:
            self.put(copy.deepcopy(r.choice(used)))
        return True


def pick_fault(h, call, bwd=False):
    """A fault inside this call: uniformly over the distinct library lines it executes (then over
    their executions), or over its tensor operations; found by a dry run in a pristine child."""
    from .. import hist, lang
    r = h.r
    env = lang.Env()
    for o in h.ops:
        if o["op"] in ("def", "mut"):
            if hist.has_refs(o["spec"], env.spec):
                env.spec[o["id"]] = lang.close(o["spec"], env)
    if not hist.has_refs(call, env.spec):
        return None
    pf = hist.profile(lang.close(call, env))
    if not pf:
        return None
    if r.random() < 0.7:
        L = pf["bwd" if bwd else "fwd"]
        if not L:
            return None
        x = r.random()
        if x < 0.2:      # favour code that runs rarely: materials, constructors, set-up
            L = [x for x in L if x[2] <= 2] or L
        elif x < 0.65:   # every function alike, however long
            q = r.choice(sorted({(x[0], x[3]) for x in L}))
            L = [x for x in L if (x[0], x[3]) == q]
        f, l, n, _ = r.choice(L)
        return {"kind": "line", "file": f, "line": l, "hit": r.randint(1, min(n, 50)), "exc": r.choice(["kbd", "kbd", "mem", "rt"])}
    n = pf["bops" if bwd else "fops"]
    if not n:
        return None
    return {"kind": "op", "k": r.randint(1, n), "exc": r.choice(["oom", "rt", "mem", "kbd"])}
