"""The packaged database imported under simulated directory listings and process environments."""
import io, os, random, shutil, subprocess, sys, tempfile, warnings, json
from .. import core
from . import common, c07

DATA = os.path.join(core.SRC, "materials", "data")


def boot():
    """third-party packages only: the library is imported inside each simulated process"""
    warnings.simplefilter("ignore")
    import torch, numpy, yaml, importlib.resources, scipy.special, scipy.stats  # noqa
    common.warm()
    assert not any(m.startswith("pymiediff") for m in sys.modules)


def database():
    """what the data folder says: key -> (display name, bytes)"""
    out = {}
    for f in sorted(os.listdir(DATA)):
        if f.endswith(".yml") and not f.startswith("."):
            out[f.split("_")[0].lower()] = (f.split("_")[0], open(os.path.join(DATA, f), "rb").read())
    return out


# ------------------------------------------------------------------ plans
def variant(r, n):
    return r.choice([n, n.lower(), n.upper(), n.swapcase(), "".join(r.choice([c.lower(), c.upper()]) for c in n)])


def unknown(r, db, files):
    """a name that no entry has: unrelated, or close to one or several entries"""
    while True:
        n = r.choice([v[0] for v in db.values()]); f = r.choice(files)
        c = r.choice(["unobtainium", "xyz", "Kryptonite", "Si99", "\u0130n", "s\u0131", "../Si", "nope.yml", n[:1], n[:-1], n[1:], n + " ", " " + n,
                      n + "\n", n + "2", n + n, n + ".yml", f, f[:-4], f.split(".")[0], n[::-1], n.replace("i", "\u0131"), n + "_", "_" + n, n[:2], n + "\u200b",
                      n + "\0", "*", n[0] + "*", n + "?", "%s/../%s" % (n, n), n.replace("2", "\u00b2"), "./" + n, "a", "s", "g", "al2o3", "silicon", "gold", n + "-" + n])
        c = variant(r, c)
        if c and c.lower() not in db:
            return c


def environment(r):
    return {"order": r.choice(["sorted", "reverse", r.randrange(10 ** 6), r.randrange(10 ** 6), r.randrange(10 ** 6)]),
            "locale": r.choice(["utf-8", "ascii", "latin-1", "cp1252", "shift_jis"]), "cwd": r.choice(["/", "decoy", "gone", "data"]),
            "clock": r.choice([0.0, 1.7e9, 4e9]), "env": r.choice([{}, {"LC_ALL": "C"}, {"LC_ALL": "tr_TR.UTF-8", "TZ": "Pacific/Apia"}, {"HOME": "/nonexistent"}])}


STRAY = ["{f}~", ".{f}.swp", "._{f}", "{f}.bak", "#{f}#", "{f}.orig", ".DS_Store", "Thumbs.db", "desktop.ini", "__pycache__/", "{f}.part", "{n}_notes.txt", "README",
         "{s}.yaml", "{s}.YML", "{s}_OLD.Yml", "{n}_old.yaml", "{f}.gz", "{s}.yml.txt", "{s}.csv", "yml", "{n}.json"]


def make(seed, i, tier):
    r = core.rng_for(seed, "C08", i)
    db = database(); names = [v[0] for v in db.values()]
    files = sorted(f for f in os.listdir(DATA) if f.endswith(".yml"))
    p = {"world": environment(r), "imports": r.choice([["pymiediff"], ["pymiediff.materials"], ["pymiediff.materials.mat", "pymiediff"], ["pymiediff.helper", "pymiediff"], ["pymiediff.main", "pymiediff"]]),
         "stray": [], "listfail": None, "hashseed": None, "ops": []}
    if r.random() < 0.4:
        for _ in range(r.choice([1, 1, 2, 4])):
            f = r.choice(files)
            p["stray"].append([r.choice(STRAY).format(f=f, n=f.split("_")[0], s=f[:-4]), r.choice(["copy", "torn", "other", "empty"]), f])
    if r.random() < 0.25:
        p["listfail"] = {"at": r.randint(0, 17), "errno": r.choice(["EIO", "EACCES", "EMFILE", "ENOMEM", "ESTALE"])}
    if r.random() < 0.04:
        p["hashseed"] = r.randrange(1, 10 ** 6)
    for _ in range(r.choice([6, 10, 16, 24])):
        x = r.random()
        if x < 0.62:
            n = r.choice(names)
            p["ops"].append({"op": "get", "name": variant(r, n), "init": r.random() < 0.1})
            if r.random() < 0.1:      # the file cannot be read this once
                p["ops"][-1]["fault"] = r.choice([{"open": r.choice(["EIO", "EMFILE", "EACCES"])}, {"err": {"at": r.randint(1, 3), "errno": r.choice(["EIO", "ESTALE"])}, "chunks": [r.choice([64, 200, 700])]}])
            if r.random() < 0.5 and "fault" in p["ops"][-1]:
                p["ops"].append({"op": "get", "name": variant(r, n), "init": False})
        elif x < 0.70:
            p["ops"].append({"op": "list"})
        elif x < 0.74:
            p["ops"].append({"op": "listv"})
        elif x < 0.82:
            p["ops"].append({"op": "bad", "name": unknown(r, db, files)})
        elif x < 0.84:
            p["ops"].append({"op": "scribble"})
        elif x < 0.86:
            p["ops"].append({"op": "listfault", "fail": {"at": r.randint(0, 17), "errno": r.choice(["EIO", "EMFILE", "ENOMEM"])}})
        elif x < 0.92:
            p["ops"].append({"op": "world", "w": environment(r)})
        elif x < 0.95:
            p["ops"].append({"op": "reload", "order": r.randrange(10 ** 6)})
        else:
            p["ops"].append({"op": "again"})
    p["ops"].append({"op": "list"})
    for o in p["ops"]:
        if o["op"] in ("get", "list", "listv", "bad", "again") and r.random() < 0.07:
            o["kbd"] = r.choice([r.randint(1, 8), r.randint(1, 40), r.randint(1, 150)])
    if r.random() < 0.08:      # Ctrl-C during the import, then again
        p["kbd"] = r.choice([r.randint(1, 60), r.randint(1, 400)])
    return p


# ------------------------------------------------------------------ the simulated directory
class Listing:
    def __init__(self, root, stats):
        self.root = os.path.realpath(root); self.order = "sorted"; self.fail = None; self.stats = stats; self.fired = 0
        self.real = (os.listdir, os.scandir)

    def mine(self, path):
        try:
            return os.path.realpath(os.fspath(path)) == self.root
        except TypeError:
            return False

    def arrange(self, names, key):
        names = sorted(names, key=key)
        if self.order == "reverse":
            names.reverse()
        elif self.order != "sorted":
            random.Random(self.order).shuffle(names)
        return names

    def error(self, k):
        if self.fail and k >= self.fail["at"]:
            from ..simfs import E
            e = E[self.fail["errno"]]
            self.stats["listing_" + self.fail["errno"]] = self.stats.get("listing_" + self.fail["errno"], 0) + 1
            self.fail = None; self.fired += 1      # the next listing works again
            raise OSError(e, os.strerror(e), self.root)

    def listdir(self, path="."):
        n = self.real[0](path)
        if not self.mine(path) or not n or not isinstance(n[0], str):
            return n
        self.stats["listings"] = self.stats.get("listings", 0) + 1
        self.error(len(n))     # a listing is delivered whole or not at all
        if self.fail:
            self.error(10 ** 9)
        return self.arrange(n, None)

    def scandir(self, path="."):
        it = self.real[1](path)
        if not self.mine(path):
            return it
        self.stats["listings"] = self.stats.get("listings", 0) + 1
        L = self.arrange(list(it), lambda e: e.name); it.close()
        outer = self

        class It:
            def __iter__(self):
                for k, e in enumerate(L):
                    outer.error(k)
                    yield e

            def __enter__(self):
                self.g = iter(self)
                return self.g

            def __exit__(self, *a):
                return False

            def close(self):
                pass

            def __next__(self):
                if not hasattr(self, "g"):
                    self.g = iter(self)
                return next(self.g)
        return It()

    def install(self):
        os.listdir = self.listdir; os.scandir = self.scandir

    def remove(self):
        os.listdir, os.scandir = self.real


def child(plan):
    import importlib, time, contextlib
    from .. import simfs
    warnings.simplefilter("ignore")
    root = tempfile.mkdtemp(dir=os.environ.get("DST_SCRATCH"))
    stats = {}; obs = []
    real_time = time.time
    try:
        pk = os.path.join(root, "pkg")
        shutil.copytree(core.SRC, os.path.join(pk, "pymiediff"), ignore=shutil.ignore_patterns("__pycache__"))
        data = os.path.join(pk, "pymiediff", "materials", "data")
        for name, kind, f in plan["stray"]:
            src = open(os.path.join(DATA, f), "rb").read()
            if kind == "other":
                src = c07.content({"kind": "nk", "rows": [["0.3", "9.0", "9.0"], ["2.0", "9.0", "9.0"]]})
            elif kind == "torn":
                src = src[:len(src) // 2]
            elif kind == "empty":
                src = b""
            if name.endswith("/"):
                os.makedirs(os.path.join(data, name), exist_ok=True)
            else:
                open(os.path.join(data, name), "wb").write(src)
            stats["stray_files"] = stats.get("stray_files", 0) + 1
        decoy = os.path.join(root, "decoy")
        for d in ("data", "materials/data"):
            os.makedirs(os.path.join(decoy, d))
            for f in ("Si_Fake1999.yml", "Fake_Fake1999.yml", "Au_Fake.yml"):
                open(os.path.join(decoy, d, f), "wb").write(c07.content({"kind": "nk", "rows": [["0.3", "9.0", "9.0"], ["2.0", "9.0", "9.0"]]}))
        gone = os.path.join(root, "gone"); os.makedirs(gone)
        sys.path.insert(0, pk)
        L = Listing(data, stats); L.install()
        fs = simfs.SimFS([data]); fs.install()
        T = [0.0]

        def world(w):
            L.order = w["order"]; fs.locale = w["locale"]; T[0] = w["clock"]
            os.environ.update(w["env"])
            if w["cwd"] == "gone":
                os.makedirs(gone, exist_ok=True); os.chdir(gone); os.rmdir(gone)
            else:
                os.chdir({"/": "/", "decoy": decoy, "data": os.path.join(DATA)}[w["cwd"]])

        def tick():
            T[0] += 0.001
            return T[0]
        time.time = tick
        world(plan["world"])

        class Interrupt:
            """Ctrl-C before the k-th line of the package's own code"""

            def __init__(self, k):
                self.k = k; self.fired = False

            def __enter__(self):
                if self.k is None:
                    return self

                def local(f, e, a):
                    if e == "line" and not self.fired and f.f_code.co_name != "__del__":
                        self.k -= 1
                        if self.k <= 0:
                            self.fired = True
                            stats["interrupted"] = stats.get("interrupted", 0) + 1
                            sys.settrace(None)
                            raise KeyboardInterrupt("injected")
                    return local
                sys.settrace(lambda f, e, a: local if f.f_code.co_filename.startswith(pk) else None)
                return self

            def __exit__(self, *a):
                sys.settrace(None)
                return False

        def load():
            for m in plan["imports"]:
                importlib.import_module(m)
            import pymiediff
            return pymiediff
        pmd = None
        if plan.get("listfail"):
            L.fail = dict(plan["listfail"])      # stays armed until the folder is listed
            try:
                pmd = load(); obs.append({"op": "import", "i": -1, "fail": True, "out": ("ok",)})
            except OSError as e:
                obs.append({"op": "import", "i": -1, "fail": True, "out": ("exc", type(e).__name__, str(e)[:200])})
        if pmd is None and plan.get("kbd"):
            try:
                with Interrupt(plan["kbd"]):
                    pmd = load()
                obs.append({"op": "import", "i": -1, "fail": True, "out": ("ok",)})
            except KeyboardInterrupt:
                pmd = None
        if pmd is None:
            try:
                pmd = load()
                obs.append({"op": "import", "i": -1, "out": ("ok",)})
            except Exception as e:
                obs.append({"op": "import", "i": -1, "out": ("exc", type(e).__name__, str(e)[:200])})
                return {"obs": obs, "stats": stats}
        live = []

        def guard(o, i, fn):
            f0 = L.fired, sum(fs.stats.values())
            try:
                with Interrupt(o.get("kbd")):
                    v = fn()
                obs.append({"op": o["op"], "i": i, "out": ("ok",), "v": v})
            except KeyboardInterrupt as e:
                obs.append({"op": o["op"], "i": i, "out": ("exc", type(e).__name__, str(e)[:200]), "hit": bool(o.get("kbd"))})
            except Exception as e:
                obs.append({"op": o["op"], "i": i, "out": ("exc", type(e).__name__, str(e)[:200]),
                            "hit": isinstance(e, OSError) and (L.fired, sum(fs.stats.values())) != f0})
        for i, o in enumerate(plan["ops"]):
            k = o["op"]; mm = pmd.materials
            if k == "get":
                def get():
                    kw = {}
                    if o["init"]:
                        import torch
                        kw["init_lookup_wavelengths"] = torch.tensor([500.0, 633.0])
                    m = mm.MatDatabase(o["name"], **kw)
                    live.append((o["name"], m))
                    return {"name": o["name"], "__name__": m.__name__, "evals": c07.evaluate(m, points(o["name"])), "repr": repr(m)}
                fs.next = o.get("fault")
                guard(o, i, get)
                fs.next = None
            elif k == "listfault":
                L.fail = dict(o["fail"])
            elif k == "again" and live:
                n, m = live[i % len(live)]
                guard(o, i, lambda: {"name": n, "__name__": m.__name__, "evals": c07.evaluate(m, points(n)), "repr": repr(m)})
            elif k == "list":
                guard(o, i, lambda: [str(x) for x in mm.list_available_materials()])
            elif k == "listv":
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    guard(o, i, lambda: [str(x) for x in mm.list_available_materials(verbose=True)])
                obs[-1]["text"] = buf.getvalue()
            elif k == "bad":
                guard(o, i, lambda: mm.MatDatabase(o["name"]).__name__)
            elif k == "scribble":
                def scribble():
                    x = mm.list_available_materials()
                    if isinstance(x, list):
                        x.clear(); x.append("nonsense")
                guard(o, i, scribble)
            elif k == "world":
                world(o["w"])
            elif k == "reload":
                L.fail = None
                L.order = o["order"]
                guard(o, i, lambda: importlib.reload(sys.modules["pymiediff.materials.mat"]) and importlib.reload(mm) and None)
        stats.update(fs.stats)
        return {"obs": obs, "stats": stats, "opens": fs.opens}
    finally:
        time.time = real_time
        try:
            L.remove(); fs.remove()
        except NameError:
            pass
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


_DB = []


def db():
    if not _DB:
        _DB.append({k: (n, b, c07.meaning(b)) for k, (n, b) in database().items()})
    return _DB[0]


def points(name):
    """wavelengths from the data file itself"""
    m = db()[name.lower()][2]
    if m[0] == "table":
        w = sorted(m[1]); n = max(1, len(w) // 7)
        return sorted(set(w[::n] + [(a + b) / 2 for a, b in zip(w[::n], w[1::n])]))
    return [400.0, 555.5, 633.0, 800.0, 1100.0]


def simulate(plan):
    if plan.get("hashseed") is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(plan["hashseed"]))
        try:
            p = subprocess.run([sys.executable, "-m", "dst.props.c08"], input=json.dumps(plan).encode(), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        except subprocess.TimeoutExpired as e:
            raise core.ChildTimeout(str(e)) from None
        try:
            rec = json.loads(p.stdout.decode().split("\nRESULT ")[1])
        except Exception:
            raise core.HarnessError("hash-seed process: %s" % p.stderr.decode()[-500:])
        for o in rec["obs"]:
            if isinstance(o.get("v"), dict):
                o["v"]["evals"] = [(w, v if isinstance(v, str) else complex(*v)) for w, v in o["v"]["evals"]]
    else:
        rec = core.fork_call(child, plan, timeout=100)
    vs = []; states = set(); D = db(); want = sorted(D)

    def bad(o, kind, msg):
        vs.append({"op": o["i"], "kind": kind, "msg": msg, "what": "%s %s" % (o["op"], (plan["ops"][o["i"]].get("name", "") if o["i"] >= 0 else ""))})
    prev = "start"
    for o in rec["obs"]:
        k = o["op"]; exc = o["out"][0] == "exc"
        if exc and o.get("hit"):
            continue       # the injected error, reported to the caller
        s = [prev, k, exc, (plan["ops"][o["i"]].get("name") or "").lower() if o["i"] >= 0 else ""]
        states.add(core.digest(s)); prev = k
        if k == "import" and o.get("fail"):
            continue       # if it succeeded, the lookups below tell whether the database is complete
        if k == "bad":
            if not exc:
                bad(o, "unknown", "an unknown name was accepted")
            continue
        if exc:
            bad(o, "raised", "%s: %s" % tuple(o["out"][1:3]))
            continue
        if k in ("list", "listv"):
            if sorted(o["v"]) != want and sorted(x.lower() for x in o["v"]) != want:
                a, b = set(want) - set(x.lower() for x in o["v"]), set(x.lower() for x in o["v"]) - set(want)
                bad(o, "list", "materials missing: %s, unexpected: %s" % (sorted(a), sorted(b)))
            if k == "listv" and not all(n in o["text"].lower() for n in want):
                bad(o, "list", "the verbose list does not name every material")
        if k in ("get", "again"):
            n, _, m = D[o["v"]["name"].lower()]
            if o["v"]["__name__"] != n:
                bad(o, "name", "displayed name %r, expected %r" % (o["v"]["__name__"], n))
            w = c07.check_values(m, o["v"]["evals"])
            if w:
                bad(o, "data", "%s: %s" % (n, w))
    st = rec["stats"]
    return {"violations": vs, "cov": {"lookups": sum(o["op"] in ("get", "again") for o in rec["obs"]), "opens": rec.get("opens", 0), "listings": st.get("listings", 0),
                                      "hash_seed_processes": int(plan.get("hashseed") is not None)},
            "faults": {k: n for k, n in st.items() if k != "listings"}, "states": sorted(states), "key": core.digest(plan),
            "trivial": not any(o["op"] == "get" for o in rec["obs"]), "sim_time": 0.001 * len(rec["obs"])}


def shrink(plan, kinds, budget):
    p = common.shrink_ops(plan, kinds, budget, simulate)
    if p is None:
        return None
    for k, v in (("hashseed", None), ("listfail", None), ("kbd", None), ("stray", []), ("imports", ["pymiediff"])):
        q = dict(p, **{k: v})
        if p.get(k) != v and any(x["kind"] in kinds for x in simulate(q)["violations"]):
            p = q
    for k, v in (("locale", "utf-8"), ("cwd", "/"), ("clock", 1.7e9), ("env", {}), ("order", "sorted")):
        q = dict(p, world=dict(p["world"], **{k: v}))
        if any(x["kind"] in kinds for x in simulate(q)["violations"]):
            p = q
    return p


if __name__ == "__main__":
    import torch  # noqa
    out = child(json.loads(sys.stdin.read()))
    for o in out["obs"]:
        if isinstance(o.get("v"), dict):
            o["v"]["evals"] = [(w, v if isinstance(v, str) else [v.real, v.imag]) for w, v in o["v"]["evals"]]
    print("\nRESULT " + json.dumps(out))
