"""Imports under simulated installations, orders, transient failures and interruptions."""
import importlib, importlib.util, os, sys, warnings
from .. import core
from . import common

MODS = ["pymiediff", "pymiediff.main", "pymiediff.special", "pymiediff.multishell", "pymiediff.coreshell", "pymiediff.helper",
        "pymiediff.helper.helper", "pymiediff.helper.tg", "pymiediff.materials", "pymiediff.materials.mat"]
FROM = {"pymiediff": ["Particle", "special", "multishell", "coreshell", "helper", "materials"], "pymiediff.main": ["Particle"],
        "pymiediff.helper": ["tg", "helper", "interp1d"], "pymiediff.materials": ["MatDatabase", "MatConstant", "list_available_materials", "mat"],
        "pymiediff.helper.tg": ["StructAutodiffMieEffPola3D"], "pymiediff.special": ["sph_jn_torch"], "pymiediff.multishell": ["mie_coefficients"],
        "pymiediff.coreshell": ["mie_coefficients"], "pymiediff.materials.mat": ["MatDatabase"], "pymiediff.helper.helper": ["detach_tensor"]}
OPTIONAL = ["torchgdm", "tqdm", "treams", "scattnlay", "PyMieScatt", "pymiecs", "miepython"]
DEPS = ["scipy.special", "scipy", "numpy", "torch"]


def boot():
    """third-party packages only"""
    warnings.simplefilter("ignore")
    import torch, numpy, yaml, importlib.resources, scipy.special, scipy.stats  # noqa
    try:
        import torchgdm, torchgdm.struct.eff_model_tools  # noqa
    except ImportError:
        pass
    common.warm()
    assert not any(m.startswith("pymiediff") for m in sys.modules)


# ------------------------------------------------------------------ plans
def form(r):
    m = r.choice(MODS)
    k = r.choice(["import", "import", "module", "from", "as", "star"])
    if k == "from":
        return ["from", m, r.choice(FROM[m])]
    return [k, m]


def world(r):
    w = {}
    for p in OPTIONAL:
        if r.random() < (0.45 if p == "torchgdm" else 0.3):
            w[p] = r.choice(["absent", "absent", "none", "ImportError", "transitive"])
    return w


def make(seed, i, tier):
    r = core.rng_for("C13", seed, i)
    p = {"missing": world(r), "cwd": r.choice(["/", "decoy", "decoy", "gone", "src"]), "syspath0": r.random() < 0.5, "ops": []}
    ops = p["ops"]
    nf = r.choice([0, 0, 1, 1, 1, 2, 3])
    for _ in range(nf):
        x = r.random()
        if x < 0.7:
            f = {"kind": "line", "u": r.random(), "exc": r.choice(["kbd", "kbd", "mem", "os"])}
        elif x < 0.85:
            f = {"kind": "read", "k": r.randint(1, 10), "exc": r.choice(["os", "mem", "kbd"])}
        else:
            f = {"kind": "dep", "name": r.choice(DEPS)}
        ops.append({"op": "imp", "form": form(r) if r.random() < 0.6 else ["import", "pymiediff"], "fault": f})
    for _ in range(r.choice([1, 2, 3, 5])):
        x = r.random()
        if x < 0.8 or ops[-1:] and ops[-1]["op"] != "imp":
            ops.append({"op": "imp", "form": form(r), "fault": None})
        elif x < 0.86:
            ops.append({"op": "purge"})
            if r.random() < 0.5:
                ops.append({"op": "imp", "form": form(r), "fault": {"kind": "line", "u": r.random(), "exc": "kbd"}})
        elif x < 0.93:
            ops.append({"op": "smoke"})
        else:
            ops.append({"op": "chdir", "to": r.choice(["/", "decoy"])})
    ops.append({"op": "smoke"})
    return p


# ------------------------------------------------------------------ the simulated installation
class Broken:
    def __init__(self, name, how):
        self.name = name; self.how = how

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.how == "transitive":
            raise ModuleNotFoundError("No module named 'libdependency_of_%s'" % self.name, name="libdependency_of_%s" % self.name)
        raise ImportError("lib%s.so.1: cannot open shared object file: No such file or directory" % self.name)


class Proxy:
    def __init__(self, real, missing):
        self.real = real; self.missing = missing

    def find_spec(self, name, path=None, target=None):
        how = self.missing.get(name.split(".")[0])
        if how == "absent":
            return None
        if how in ("ImportError", "transitive"):
            return importlib.util.spec_from_loader(name, Broken(name, how), is_package=True)
        return self.real.find_spec(name, path, target)

    def __getattr__(self, k):
        return getattr(self.real, k)


def hide(missing):
    for m in list(sys.modules):
        if m.split(".")[0] in missing:
            del sys.modules[m]
    for p, how in missing.items():
        if how == "none":
            sys.modules[p] = None
    sys.meta_path[:] = [Proxy(f, missing) for f in sys.meta_path]
    importlib.invalidate_caches()


EXC = {"kbd": KeyboardInterrupt, "mem": MemoryError, "os": OSError}


class LineAt:
    """the k-th library line executed from now on is interrupted (k=None: only count)"""

    def __init__(self, k, exc):
        self.k = k; self.exc = exc; self.n = 0; self.at = None

    def __enter__(self):
        from ..hist import Lines

        def local(frame, event, arg):
            if event == "line" and frame.f_lineno not in Lines.forbidden(frame.f_code.co_filename):
                self.n += 1
                if self.n == self.k:
                    sys.settrace(None)
                    self.at = "%s:%d" % (frame.f_code.co_filename[len(core.SRC):], frame.f_lineno)
                    raise EXC[self.exc]("injected at " + self.at)
            return local
        sys.settrace(lambda f, e, a: local if f.f_code.co_filename.startswith(core.SRC) else None)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


class ReadFault:
    def __init__(self, k, exc):
        self.k = k; self.exc = exc; self.n = 0; self.at = None

    def __enter__(self):
        from importlib.machinery import SourceFileLoader as L
        self.real = L.get_data
        outer = self

        def get_data(ld, path):
            if os.path.realpath(path).startswith(core.SRC):
                outer.n += 1
                if outer.n == outer.k:
                    outer.at = os.path.basename(path)
                    raise EXC[outer.exc]("injected: reading " + outer.at)
            return outer.real(ld, path)
        L.get_data = get_data
        return self

    def __exit__(self, *a):
        from importlib.machinery import SourceFileLoader as L
        L.get_data = self.real


class DepFault:
    def __init__(self, name):
        self.name = name; self.at = None

    def __enter__(self):
        self.old = sys.modules.get(self.name)
        sys.modules[self.name] = None
        return self

    def __exit__(self, *a):
        sys.modules[self.name] = self.old


def do_import(f):
    ns = {}
    if f[0] == "import":
        exec("import " + f[1], ns)
    elif f[0] == "as":
        exec("import %s as X" % f[1], ns)
    elif f[0] == "module":
        importlib.import_module(f[1])
    elif f[0] == "from":
        exec("from %s import %s" % (f[1], f[2]), ns)
        return repr(ns[f[2]])[:80]
    elif f[0] == "star":
        exec("from %s import *" % f[1], ns)
    return ""


# ------------------------------------------------------------------ what a working package does
def smoke(missing):
    import torch
    out = {}

    def t(x):
        if isinstance(x, torch.Tensor):
            x = x.detach()
            x = torch.view_as_real(x) if x.is_complex() else x
            return [str(x.dtype), x.tolist()]
        if isinstance(x, dict):
            return {str(k): t(v) for k, v in x.items() if not hasattr(v, "__dict__") or isinstance(v, torch.Tensor)}
        if isinstance(x, (list, tuple)):
            return [t(v) for v in x]
        return repr(x)

    def put(name, f):
        try:
            out[name] = ["ok", t(f())]
        except Exception as e:
            out[name] = ["exc", type(e).__name__, str(e)[:300]]
    ns = {}
    exec("import pymiediff", ns)
    pmd = ns["pymiediff"]
    for m in MODS:
        def names(m=m):
            o = pmd
            for k in m.split(".")[1:]:
                o = getattr(o, k)           # the way a user spells it after `import pymiediff`
            return sorted(k for k in dir(o) if not k.startswith("_"))
        put("names " + m, names)
    for m in MODS:
        exec("import " + m, ns)
    put("same", lambda: [pmd.Particle is pmd.main.Particle, pmd.materials.MatDatabase is pmd.materials.mat.MatDatabase,
                         pmd.helper.interp1d is pmd.helper.helper.interp1d, pmd.coreshell.mie_coefficients is pmd.multishell.mie_coefficients,
                         pmd.helper.tg.pmd.Particle is pmd.Particle, sys.modules["pymiediff"] is pmd,
                         all(sys.modules[m] is eval(m, {"pymiediff": pmd}) for m in MODS)])
    put("list", lambda: sorted(str(x).lower() for x in pmd.materials.list_available_materials()))
    put("database", lambda: [pmd.materials.MatDatabase(n).get_epsilon(torch.tensor([500.0, 600.0])) for n in ("Si", "au", "SiO2")])
    k0 = torch.tensor([0.01, 0.0125])

    def part(rs=80.0):
        return pmd.Particle(r_core=60.0, mat_core=pmd.materials.MatDatabase("Si"), r_shell=rs, mat_shell=pmd.materials.MatConstant(2.25), mat_env=1.33)
    put("cs", lambda: part().get_cross_sections(k0))
    put("cs torch", lambda: part().get_cross_sections(k0, backend="torch"))
    put("scipy", lambda: part().get_mie_coefficients(k0, backend="scipy", n_max=4))
    put("angular", lambda: part().get_angular_scattering(k0, theta=torch.tensor([0.1, 2.0])))
    put("nf", lambda: part().get_nearfields(k0[0], torch.tensor([[100.0, 20, 30], [10.0, 20, 30]])))
    put("repr", lambda: str(part()))

    def grad():
        rs = torch.tensor(80.0, requires_grad=True)
        return torch.autograd.grad(part(rs).get_cross_sections(k0)["q_ext"].sum(), rs)
    put("grad", grad)
    put("functional", lambda: pmd.multishell.cross_sections(k0, r_layers=torch.tensor([40.0, 70.0]), eps_layers=torch.tensor([4.0 + 0.1j, 2.0]), eps_env=1.0))
    put("legacy", lambda: pmd.coreshell.mie_coefficients(k0, r_c=40.0, eps_c=4.0, r_s=70.0, eps_s=2.0, eps_env=1.0))
    put("special", lambda: [pmd.special.sph_jn_torch(torch.tensor(4), torch.tensor([0.5 + 0.1j, 3.0])), pmd.special.pi_tau(torch.tensor(3), torch.tensor([0.3]))])
    put("interp", lambda: pmd.helper.interp1d(torch.tensor([0.5, 1.5]), torch.tensor([0.0, 1.0, 2.0]), torch.tensor([3.0, 5.0, 4.0])))
    put("wiscombe", lambda: pmd.helper.get_truncution_criteroin_wiscombe(torch.tensor([3.0])))
    put("rot", lambda: [pmd.helper.tg.rotation_x(0.3), pmd.helper.tg.rotation_z(0.4), [t(sorted(c.items(), key=str)) for c in pmd.helper.tg.setup_plane_waves_configs(2)]])
    wl = torch.tensor([600.0])
    put("tg eff", lambda: pmd.helper.tg.StructAutodiffMieEffPola3D(part_vac(pmd), wl, verbose=False).alpha_data)
    put("tg gpm", lambda: len(pmd.helper.tg.StructAutodiffMieGPM3D(part_vac(pmd), wl, r_gpm="bad" if "torchgdm" in missing else 3, r_probe=torch.tensor([[130.0, 0, 0], [0, 130.0, 0], [0, 0, -130.0]]),
                                                                 n_src_pw_angles=1, n_max=2, verbose=False, progress_bar=False).gpm_dict))
    put("tg ab", lambda: pmd.helper.tg.mie_ab_sphere_3d_AD(part_vac(pmd), wl))
    put("tg extract", lambda: sorted(pmd.helper.tg.extract_GPM_sphere_miediff(part_vac(pmd), wl, r_gpm=3, r_probe=torch.tensor([[130.0, 0, 0], [0, 130.0, 0], [0, 0, -130.0]]),
                                                                             n_src_pw_angles=1, n_max=2, verbose=False, progress_bar=False)) if "torchgdm" not in missing else pmd.helper.tg.extract_GPM_sphere_miediff(part_vac(pmd), wl, r_gpm=3))
    if "torchgdm" in missing:
        put("tg combine", lambda: pmd.helper.tg.combine_gpm_structures_autodiff([object()]))
    return out


CORE = ["same", "list", "database", "cs", "cs torch", "scipy", "angular", "nf", "repr", "grad", "functional", "legacy", "special", "interp", "wiscombe", "rot"]


def part_vac(pmd):
    return pmd.Particle(r_core=60.0, mat_core=pmd.materials.MatConstant(12.0), r_shell=80.0, mat_shell=pmd.materials.MatConstant(2.25))


def child(plan, count_only=None):
    import shutil, tempfile
    from .. import lang
    warnings.simplefilter("ignore")
    root = tempfile.mkdtemp(dir=os.environ.get("DST_SCRATCH"))
    obs = []; st = {}
    try:
        if "torchgdm" not in plan["missing"]:
            lang.install_stubs()
        sys.path.insert(0, os.path.join(core.REPO, "src"))
        decoy = os.path.join(root, "decoy"); os.makedirs(decoy)
        for n in ("helper", "special", "materials", "main", "multishell", "coreshell", "mat", "tg", "data"):
            open(os.path.join(decoy, n + ".py"), "w").write("raise RuntimeError('decoy module %s imported')\n" % n)
        dirs = {"/": "/", "decoy": decoy, "src": core.SRC}

        def chdir(to):
            if to == "gone":
                d = os.path.join(root, "gone"); os.makedirs(d, exist_ok=True); os.chdir(d); os.rmdir(d)
            else:
                os.chdir(dirs[to])
        chdir(plan["cwd"])
        if plan["syspath0"] and plan["cwd"] == "decoy":
            sys.path.append("")
        hide(plan["missing"])
        for i, o in enumerate(plan["ops"]):
            k = o["op"]
            if k == "chdir":
                chdir(o["to"])
            elif k == "purge":
                for m in [m for m in sys.modules if m.split(".")[0] == "pymiediff"]:
                    del sys.modules[m]
            elif k == "smoke":
                try:
                    obs.append({"i": i, "op": k, "out": smoke(plan["missing"])})
                except BaseException as e:
                    obs.append({"i": i, "op": k, "out": {"smoke": ["exc", type(e).__name__, str(e)[:300]]}})
            elif k == "imp":
                f = o["fault"]; c = None
                if f is None:
                    c = None
                elif f["kind"] == "line":
                    if count_only == i:
                        c = LineAt(None, "kbd")
                    else:
                        c = LineAt(f.get("k"), f["exc"])
                elif f["kind"] == "read":
                    c = ReadFault(f["k"], f["exc"])
                else:
                    c = DepFault(f["name"])
                try:
                    if c:
                        with c:
                            do_import(o["form"])
                    else:
                        do_import(o["form"])
                    out = ["ok"]
                except BaseException as e:
                    out = ["exc", type(e).__name__, str(e)[:300]]
                if count_only == i:
                    return c.n
                fired = bool(c and (c.at or isinstance(c, DepFault)))
                if fired:
                    st["import_" + f["kind"]] = st.get("import_" + f["kind"], 0) + 1
                obs.append({"i": i, "op": k, "fired": fired, "at": getattr(c, "at", None), "out": out})
        return {"obs": obs, "faults": st}
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


_REF = {}
_N = {}


def reference(missing):
    key = core.canon(missing)
    if key not in _REF:
        rec = core.fork_call(child, {"missing": missing, "cwd": "/", "syspath0": False, "ops": [{"op": "imp", "form": ["import", "pymiediff"], "fault": None}, {"op": "smoke"}]}, timeout=100)
        _REF[key] = rec["obs"][1]["out"] if rec["obs"][0]["out"] == ["ok"] else {"import": rec["obs"][0]["out"]}
    return _REF[key]


def resolve(plan):
    """turn fractions into line numbers: the same prefix of the history, counted"""
    plan = dict(plan, ops=[dict(o) for o in plan["ops"]])
    for i, o in enumerate(plan["ops"]):
        f = o.get("fault")
        if f and f["kind"] == "line" and "k" not in f:
            n = core.fork_call(child, plan, i, timeout=100)
            o["fault"] = dict(f, k=1 + int(f["u"] * n) if n else 0)
    return plan


def simulate(plan):
    plan2 = resolve(plan)
    plan["ops"] = plan2["ops"]          # the replay file holds the resolved statement numbers
    rec = core.fork_call(child, plan2, timeout=150)
    full = reference({})
    if "import" in full:
        raise core.HarnessError("plain import fails: %s" % full)
    broken = [k for k in CORE if full[k][0] != "ok"]
    if broken:
        return {"violations": [{"op": 0, "kind": "api", "msg": "with nothing missing and no fault: %s: %s" % (k, full[k]), "what": "plain import"} for k in broken],
                "cov": {}, "faults": {}, "states": [], "key": core.digest(plan), "trivial": True, "sim_time": 0.0}
    vs = []; states = set(); prev = "start"
    for o in rec["obs"]:
        op = plan["ops"][o["i"]]
        what = "op %d (%s)" % (o["i"], " ".join(op.get("form", [op["op"]])))

        def bad(kind, msg):
            vs.append({"op": o["i"], "kind": kind, "msg": msg, "what": what})
        s = [prev, op["op"], op.get("form"), o.get("fired") and (op["fault"]["kind"], o.get("at")), sorted(plan["missing"].items()) if op["op"] == "smoke" else None]
        states.add(core.digest(s)); prev = str(s[1:3])
        if o["op"] == "imp":
            if o["out"][0] == "exc" and not o["fired"]:
                bad("import", "%s: %s" % tuple(o["out"][1:3]))
            continue
        got = o["out"]
        if "smoke" in got:
            bad("import", "%s: %s" % tuple(got["smoke"][1:3]))
            continue
        for name in got:
            g = got[name]
            if name.startswith("tg "):
                pk = "torchgdm"
                if pk in plan["missing"]:
                    if g[0] == "ok":
                        bad("feature", "%s works without %s" % (name, pk))
                    elif pk not in g[2] and (plan["missing"][pk] in ("absent", "none") or name in ("tg eff", "tg gpm")):
                        bad("feature", "%s: error does not name %s: %s: %s" % (name, pk, g[1], g[2]))
                    continue
            want = full.get(name)
            if name.startswith("names "):
                ref = reference(plan["missing"]).get(name, want)
                if g[0] != "ok":
                    if ref[0] == "ok":
                        bad("names", "after `import pymiediff`, %s is not there: %s: %s" % (name[6:], g[1], g[2]))
                    continue
                gone = set(ref[1] if ref[0] == "ok" else want[1]) - set(g[1])
                if gone:
                    bad("names", "%s lacks %s" % (name[6:], sorted(gone)))
                continue
            if g != want:
                bad("api", "%s: %s, expected %s" % (name, str(g)[:300], str(want)[:300]))
    nf = sum(o.get("fired", False) for o in rec["obs"])
    f = dict(rec["faults"])
    for p, how in plan["missing"].items():
        f["package_" + {"none": "absent"}.get(how, how if how == "absent" else "broken")] = f.get("package_" + {"none": "absent"}.get(how, how if how == "absent" else "broken"), 0) + 1
    return {"violations": vs, "cov": {"imports": sum(o["op"] == "imp" for o in rec["obs"]), "smoke_runs": sum(o["op"] == "smoke" for o in rec["obs"])},
            "faults": f, "states": sorted(states), "key": core.digest(plan), "trivial": not (nf or plan["missing"] or len(rec["obs"]) > 2), "sim_time": float(len(plan["ops"]))}


def shrink(plan, kinds, budget):
    p = common.shrink_ops(plan, kinds, budget, simulate)
    if p is None:
        return None
    for k in sorted(plan["missing"]):
        q = dict(p, missing={a: b for a, b in p["missing"].items() if a != k})
        if any(x["kind"] in kinds for x in simulate(q)["violations"]):
            p = q
    q = dict(p, cwd="/", syspath0=False)
    if any(x["kind"] in kinds for x in simulate(q)["violations"]):
        p = q
    return p
