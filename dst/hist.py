"""Simulated histories: a plan is a list of operations over shared live objects.

The plan is executed in one forked pristine child; every call in it is compared with the
same call made alone in another pristine child (lang.Reference)."""
import ast, collections, contextlib, gc, hashlib, os, random, sys, threading, weakref
import numpy as np
import torch

from . import core, lang


# ------------------------------------------------------------------ statement seam
class Lines:
    """Which library lines may be interrupted: not clean-up code (finally/except bodies,
    context-manager entry/exit, the with/try statement lines themselves), where an asynchronous
    exception cannot be handled by any Python program."""
    cache = {}

    @classmethod
    def forbidden(cls, fn):
        if fn in cls.cache:
            return cls.cache[fn]
        bad = set()
        try:
            tree = ast.parse(open(fn, encoding="utf8").read())
        except Exception:
            tree = ast.Module(body=[], type_ignores=[])

        def span(n):
            bad.update(range(n.lineno, (n.end_lineno or n.lineno) + 1))
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                bad.add(n.lineno)
                for it in n.items:
                    bad.update(range(it.context_expr.lineno, it.context_expr.end_lineno + 1))
            elif isinstance(n, ast.Try):
                bad.add(n.lineno)
                for h in n.handlers:
                    span(h)
                for x in n.finalbody:
                    span(x)
                # the statement just before `try:` (acquire/set) is atomic with it for our purposes
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n.name in ("__enter__", "__exit__", "__del__", "__aenter__", "__aexit__") or any(
                        "contextmanager" in ast.dump(d) for d in n.decorator_list):
                    span(n)
        cls.cache[fn] = bad
        return bad


EXC = {"kbd": KeyboardInterrupt, "mem": MemoryError, "rt": RuntimeError}


class LineFault:
    def __init__(self, f):
        self.f = f; self.fired = False; self.left = f["hit"]

    def __enter__(self):
        fn, line, exc = os.path.join(core.SRC, self.f["file"]), self.f["line"], EXC[self.f["exc"]]

        def local(frame, event, arg):
            if event == "line" and frame.f_lineno == line and not self.fired:
                self.left -= 1
                if self.left <= 0:
                    self.fired = True
                    sys.settrace(None)
                    raise exc("injected at %s:%d" % (self.f["file"], line))
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename == fn else None
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class OpFault:
    """The k-th tensor operation (ATen call) fails, as an allocation would."""

    def __init__(self, f):
        from torch.utils._python_dispatch import TorchDispatchMode
        self.f = f; self.fired = False
        outer = self

        class Mode(TorchDispatchMode):
            n = 0

            def __torch_dispatch__(self, func, types, args=(), kwargs=None):
                Mode.n += 1
                if Mode.n == outer.f["k"]:
                    outer.fired = True
                    if outer.f["exc"] == "oom":
                        raise torch.OutOfMemoryError("injected: out of memory")
                    raise EXC[outer.f["exc"]]("injected: tensor operation %d failed" % Mode.n)
                return core.through(func, args, kwargs)
        self.mode = Mode(); self.cls = Mode

    def __enter__(self):
        self.mode.__enter__()
        return self

    def __exit__(self, *a):
        self.mode.__exit__(*a)
        return False


def make_fault(f):
    return LineFault(f) if f["kind"] == "line" else OpFault(f)


class CountLines:
    def __init__(self):
        self.hits = collections.Counter()

    def __enter__(self):
        def local(frame, event, arg):
            if event == "line":
                self.hits[(frame.f_code.co_filename, frame.f_lineno, frame.f_code.co_qualname)] += 1
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(core.SRC) else None
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def _profile_child(spec):
    """Dry run of one call (and its backward pass): lines executed, tensor operations."""
    import warnings
    warnings.simplefilter("ignore")
    out = {}
    for what in ("lines", "ops"):
        if what == "lines":
            env2 = lang.Env()
            try:
                b = lang.bind(spec["call"], env2)
            except Exception:
                return None
            with CountLines() as c:
                o, r = lang.attempt(lambda: lang.invoke(spec["call"], env2, b))
            out["fwd"] = [(f[len(core.SRC):], l, n, q) for (f, l, q), n in sorted(c.hits.items()) if l not in Lines.forbidden(f)]
            with CountLines() as c:
                lang.attempt(lambda: lang.grads(r, env2.leaves))
            out["bwd"] = [(f[len(core.SRC):], l, n, q) for (f, l, q), n in sorted(c.hits.items()) if l not in Lines.forbidden(f)]
        else:
            env2 = lang.Env(); b = lang.bind(spec["call"], env2)
            f = OpFault({"k": -1, "exc": "rt"})
            with f:
                o, r = lang.attempt(lambda: lang.invoke(spec["call"], env2, b))
            out["fops"] = f.cls.n
            f = OpFault({"k": -1, "exc": "rt"})
            with f:
                lang.attempt(lambda: lang.grads(r, env2.leaves))
            out["bops"] = f.cls.n
    return out


_PROF = {}


def profile(call):
    spec, _ = lang.canon_ids({"call": call})
    key = core.canon(spec)
    if key not in _PROF:
        if len(_PROF) > 2000:
            _PROF.clear()
        _PROF[key] = core.fork_call(_profile_child, spec, timeout=120)
    return _PROF[key]


# ------------------------------------------------------------------ ambient state seam
def ambient():
    """Image of the process-wide state a call must leave alone."""
    import random as _r, warnings, locale
    d = {}
    d["torch_rng"] = hashlib.sha256(torch.get_rng_state().numpy().tobytes()).hexdigest()
    s = np.random.get_state()
    d["np_rng"] = hashlib.sha256(s[1].tobytes() + repr(s[2:]).encode()).hexdigest()
    d["py_rng"] = hashlib.sha256(repr(_r.getstate()).encode()).hexdigest()
    d["default_dtype"] = str(torch.get_default_dtype())
    d["default_device"] = str(torch.get_default_device()) if hasattr(torch, "get_default_device") else ""
    d["grad"] = torch.is_grad_enabled()
    d["inference"] = torch.is_inference_mode_enabled()
    d["anomaly"] = torch.is_anomaly_enabled()
    d["determ"] = torch.are_deterministic_algorithms_enabled()
    d["threads"] = torch.get_num_threads()
    d["matmul"] = torch.get_float32_matmul_precision()
    d["flush"] = bool(float(torch.tensor([1e-310], dtype=torch.float64) * 1.0 != 0))
    d["np_err"] = repr(sorted(np.geterr().items()))
    d["np_print"] = repr(sorted((k, str(v)) for k, v in np.get_printoptions().items()))
    d["torch_print"] = repr(vars(torch._tensor_str.PRINT_OPTS))
    d["warn_filters"] = repr([(f[0], str(f[1]), f[2].__name__, str(f[3]), f[4]) for f in warnings.filters])
    d["showwarning"] = str(warnings.showwarning is _SHOW[0])
    d["cwd"] = os.getcwd()
    d["environ"] = hashlib.sha256(repr(sorted(os.environ.items())).encode()).hexdigest()
    d["stdout"] = sys.stdout is _STD[0]
    d["stderr"] = sys.stderr is _STD[1]
    d["recursion"] = sys.getrecursionlimit()
    d["switch"] = sys.getswitchinterval()
    d["locale"] = locale.setlocale(locale.LC_ALL)
    d["gc"] = gc.isenabled()
    import signal
    d["sigint"] = str(signal.getsignal(signal.SIGINT))
    d["threads_alive"] = threading.active_count()
    d["trace"] = str(sys.gettrace())
    d["excepthook"] = sys.excepthook is sys.__excepthook__
    return d


_SHOW = [None]; _STD = [None, None]


def ambient_init():
    import warnings
    _SHOW[0] = warnings.showwarning; _STD[0] = sys.stdout; _STD[1] = sys.stderr


def ambient_diff(a, b):
    return ["%s: %s -> %s" % (k, str(a[k])[:80], str(b[k])[:80]) for k in a if a[k] != b[k]]


def in_thread(fn):
    box = []

    def body():
        try:
            box.append((True, fn()))
        except BaseException as e:
            box.append((False, e))
    t = threading.Thread(target=body); t.start(); t.join()
    if not box[0][0]:
        raise box[0][1]
    return box[0][1]


class World:
    """The ambient state of a simulated process: clock, random generators, directory, streams,
    warning filters; every part is set by the plan."""

    def __init__(self):
        import io, time, random as r_, datetime
        self.now = {"wall": 1.7e9, "steady": 5e4}; self.step = 0.001; self.cap = io.StringIO(); self.old = sys.stdout
        sys.stdout = self.cap
        _STD[0] = sys.stdout
        import tempfile
        self.dirs = [tempfile.mkdtemp(dir=os.environ.get("DST_SCRATCH"))]
        w = self

        def tick(n):
            k = "wall" if n.startswith("time") else "steady"; ns = n.endswith("_ns")

            def f():
                # a slow machine: time passes between any two looks at the clock
                for q in w.now:
                    w.now[q] += w.step
                return int(w.now[k] * 10 ** 9) if ns else w.now[k]
            return f
        self.real_time = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "time_ns", "monotonic_ns", "perf_counter_ns", "process_time")}
        self.taken = []
        for n, f in self.real_time.items():
            g = tick(n)
            setattr(time, n, g)
            for k, m in list(sys.modules.items()):     # from time import ...
                if k.split(".")[0] == "pymiediff" and m is not None:
                    for a, v in list(vars(m).items()):
                        if v is f:
                            setattr(m, a, g); self.taken.append((m, a, f))

    def printed(self):
        t = self.cap.getvalue(); self.cap.seek(0); self.cap.truncate()
        return t

    def change(self, d):
        import warnings, random as r_
        for k, v in d.items():
            if k == "seed":
                torch.manual_seed(v); np.random.seed(v % 2 ** 32); r_.seed(v)
            elif k == "clock":
                self.now["wall"] += v; self.now["steady"] += max(v, 0.0)
            elif k == "pace":
                self.step = v
            elif k == "cwd":
                os.chdir(self.dirs[0] if v else "/")
            elif k == "filters":
                warnings.resetwarnings(); warnings.simplefilter(v)
            elif k == "np_err":
                np.seterr(all=v)
            elif k == "env":
                os.environ["DST_NOISE"] = v
            elif k == "argv":
                sys.argv = ["prog", v]
            elif k == "locale":
                import locale
                try: locale.setlocale(locale.LC_ALL, v)
                except locale.Error: pass
            elif k == "recursion":
                sys.setrecursionlimit(v)
            elif k == "np_print":
                np.set_printoptions(precision=v)
            elif k == "torch_print":
                torch.set_printoptions(precision=v)
            elif k == "stderr":
                import io
                sys.stderr = io.StringIO(); _STD[1] = sys.stderr
            elif k == "gc":
                (gc.enable if v else gc.disable)()
            elif k == "threads":
                torch.set_num_threads(v)

    def close(self):
        import shutil, time
        os.chdir("/")
        for n, f in self.real_time.items():
            setattr(time, n, f)
        for m, a, f in self.taken:
            setattr(m, a, f)
        for d in self.dirs:
            shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ input images
def image(x, depth=0):
    """Bit-exact image of a caller-owned value."""
    if isinstance(x, torch.Tensor):
        try:
            st = x.untyped_storage()
            raw = bytes(st) if st.nbytes() < 4096 else x.detach().cpu().numpy().tobytes()
        except Exception:
            raw = x.detach().cpu().resolve_conj().numpy().tobytes()
        return ("T", str(x.dtype), tuple(x.shape), tuple(x.stride()), x.requires_grad, str(x.device), raw,
                None if (not x.is_leaf or x.grad is None) else x.grad.detach().numpy().tobytes())
    if isinstance(x, np.ndarray):
        return ("N", str(x.dtype), x.shape, x.strides, x.flags.writeable, x.tobytes())
    if isinstance(x, dict):
        return ("D", [(k, image(v, depth + 1)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [image(v, depth + 1) for v in x])
    if isinstance(x, (bool, int, float, complex, str, type(None))):
        return ("S", repr(x))
    import pymiediff as pmd
    if isinstance(x, pmd.Particle) and depth < 3:
        return ("P", image([x.r_layers, x.eps_layers, x.mat_layers, x.mat_env, x.r_c, x.r_s, str(x.device)], depth + 1))
    if isinstance(x, pmd.materials.MatConstant) and depth < 5:
        return ("MC", image([x.eps_scalar, str(x.device)], depth + 1))
    if isinstance(x, pmd.materials.MatDatabase) and depth < 5:
        return ("MD", image([getattr(x, "wl_dat", None), getattr(x, "eps_dat", None), [float(c) for c in getattr(x, "coeff", [])], str(x.device)], depth + 1))
    if any(c.__module__.split(".")[0] == "torchgdm" for c in type(x).__mro__) and hasattr(x, "__dict__") and depth < 5:
        return ("D", [(k, image(v, depth + 1)) for k, v in sorted(vars(x).items()) if "lookup" not in k and "cache" not in k and k != "eps_env_scalar" and not k.startswith("fields_")])
    return ("O", type(x).__name__)


def image_diff(a, b, path="input"):
    if a == b:
        return None
    if a[0] != b[0]:
        return "%s changed kind" % path
    if a[0] == "T":
        for i, n in enumerate(["", "dtype", "shape", "stride", "requires_grad", "device", "contents", ".grad"]):
            if i and a[i] != b[i]:
                return "%s: tensor %s changed%s" % (path, n, "" if i >= 6 else " from %s to %s" % (a[i], b[i]))
    if a[0] == "N":
        return "%s: NumPy array changed" % path
    if a[0] in ("list", "tuple", "P", "MC", "MD"):
        xa, xb = a[1], b[1]
        if a[0] in ("P", "MC", "MD"):
            xa, xb = xa[1], xb[1]
        if len(xa) != len(xb):
            return "%s: length changed" % path
        for i, (p, q) in enumerate(zip(xa, xb)):
            r = image_diff(p, q, path + ".%d" % i)
            if r:
                return r
    if a[0] == "D":
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            return "%s: keys changed" % path
        for (k, p), (_, q) in zip(a[1], b[1]):
            r = image_diff(p, q, path + "." + str(k))
            if r:
                return r
    return "%s changed" % path


class Watch:
    """Compares the caller's inputs with their images at every library statement."""

    def __init__(self, objs, images):
        # flat list of numpy views of tensors/arrays: cheap comparisons
        self.flat = []
        for i, o in enumerate(objs):
            self._collect(o, "input.%s" % i)
        self.bad = None; self.n = 0

    def _collect(self, o, path, depth=0):
        if isinstance(o, torch.Tensor):
            try:
                v = o.detach().numpy()
            except Exception:
                return
            if v.nbytes <= 65536:
                self.flat.append((path, v, v.tobytes()))
        elif isinstance(o, np.ndarray):
            self.flat.append((path, o, o.tobytes()))
        elif isinstance(o, (list, tuple)):
            for i, x in enumerate(o):
                self._collect(x, path + ".%d" % i, depth + 1)
        elif isinstance(o, dict):
            for k, x in o.items():
                self._collect(x, path + ".%s" % k, depth + 1)
        elif depth < 3 and hasattr(o, "__dict__") and type(o).__module__.startswith("pymiediff"):
            for k in ("r_layers", "eps_layers", "mat_layers", "mat_env", "eps_scalar", "wl_dat", "eps_dat"):
                if hasattr(o, k):
                    self._collect(getattr(o, k), path + "." + k, depth + 1)

    def check(self, where):
        self.n += 1
        if self.bad is None:
            for p, v, b in self.flat:
                if v.tobytes() != b:
                    self.bad = "%s altered during the call (seen at %s)" % (p, where)

    def __enter__(self):
        def local(frame, event, arg):
            if event == "line" and self.bad is None:
                self.check("%s:%d" % (frame.f_code.co_filename[len(core.SRC):], frame.f_lineno))
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(core.SRC) else None
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        self.check("end of the call")
        return False


# ------------------------------------------------------------------ scribbling on results
ECHO = {"k0", "r_c", "r_s", "r_layers", "eps_c", "eps_s", "eps_env", "eps_layers", "theta", "n_max", "r_gpm",
        "r_probe", "extraction_r_probe", "positions", "r0", "wavelengths", "enclosing_radius", "r_enclosing", "text", "n_env", "k"}


def storages(x, acc=None, depth=0):
    """where the caller's own numbers live"""
    import pymiediff as pmd
    acc = set() if acc is None else acc
    if isinstance(x, torch.Tensor):
        acc.add(x.untyped_storage().data_ptr())
    elif isinstance(x, np.ndarray):
        b = x
        while isinstance(b.base, np.ndarray):
            b = b.base
        acc.add(b.__array_interface__["data"][0])
    elif isinstance(x, dict):
        for v in x.values():
            storages(v, acc, depth + 1)
    elif isinstance(x, (list, tuple)):
        for v in x:
            storages(v, acc, depth + 1)
    elif isinstance(x, pmd.Particle) and depth < 4:
        storages([x.r_layers, x.eps_layers, x.r_c, x.r_s, x.mat_layers, x.mat_env], acc, depth + 1)
    elif isinstance(x, pmd.materials.MatConstant) and depth < 6:
        storages(x.eps_scalar, acc, depth + 1)
    elif any(c.__module__.split(".")[0] == "torchgdm" for c in type(x).__mro__) and hasattr(x, "__dict__") and depth < 4:
        storages(list(vars(x).values()), acc, depth + 1)
    return acc


def echoed(v, own):
    return isinstance(v, (torch.Tensor, np.ndarray)) and bool(storages(v) & own)


def scribble(x, how, own=frozenset(), depth=0):
    """Overwrite a computed result the way its owner may.  `own`: storages of the caller's inputs, which
    some results hand back as metadata."""
    n = 0
    if isinstance(x, torch.Tensor):
        try:
            with torch.no_grad():
                if how == "nan":
                    x.data.fill_(float("nan") if x.is_floating_point() or x.is_complex() else 7)
                elif how == "scale":
                    x.data.mul_(3)
                elif how == "rg" and not x.requires_grad and (x.is_floating_point() or x.is_complex()) and x.is_leaf:
                    x.requires_grad_(True)
                elif how == "resize":
                    x.data.zero_()
                else:
                    x.data.fill_(0)
            n += 1
        except RuntimeError:
            pass   # e.g. an expanded view or an inference tensor: not writable, nothing to test
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        x[...] = 0; n += 1
    elif isinstance(x, dict) and depth < 4:
        for k, v in list(x.items()):
            if k not in ECHO or not echoed(v, own):
                n += scribble(v, how, own, depth + 1)
        if depth >= 0 and how == "clear":
            x.clear(); n += 1
    elif isinstance(x, list) and depth < 4:
        for v in x:
            n += scribble(v, how, own, depth + 1)
        if how == "clear":
            x.clear(); n += 1
    elif isinstance(x, tuple) and depth < 4:
        for v in x:
            n += scribble(v, how, own, depth + 1)
    return n


def not_echoed(res, o, call, objs):
    """permittivities that the caller gave to the particle are handed back as they are"""
    if call.get("m") == "get_material_permittivities" and isinstance(res, tuple) and res:
        if getattr(objs[2], "eps_layers", None) is not None:
            return res[1:]
    if call.get("fn") in ("x.struct_data", "x.combine"):
        return None      # the structures' own data
    if call.get("fn") == "helper.detach_tensor":
        return None      # a NumPy view of the caller's own tensor, as torch's detach and numpy are
    return res


# ------------------------------------------------------------------ execution of a plan
def has_refs(v, known):
    if isinstance(v, dict):
        if "v" in v and len(v) == 1:
            return v["v"] in known
        return all(has_refs(x, known) for x in v.values())
    if isinstance(v, list):
        return all(has_refs(x, known) for x in v)
    return True


def refs(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, dict):
        if "v" in v and len(v) == 1:
            acc.add(v["v"])
        for x in v.values():
            refs(x, acc)
    elif isinstance(v, list):
        for x in v:
            refs(x, acc)
    return acc


def ids_in(v, acc=None):
    acc = set() if acc is None else acc
    if isinstance(v, dict):
        if isinstance(v.get("id"), str):
            acc.add(v["id"])
        for x in v.values():
            ids_in(x, acc)
    elif isinstance(v, list):
        for x in v:
            ids_in(x, acc)
    return acc


def symbolic(plan):
    """Pass over the plan without live objects: the closed call of each op and validity."""
    env = lang.Env(); out = {}; pend = {}
    for i, o in enumerate(plan["ops"]):
        k = o["op"]
        if k == "def":
            if has_refs(o["spec"], env.spec):
                env.spec[o["id"]] = lang.close(o["spec"], env); out[i] = env.spec[o["id"]]
        elif k == "call":
            if has_refs(o["call"], env.spec):
                c = lang.close(o["call"], env); out[i] = c
                if o.get("keep"):
                    pend[o["id"]] = (c, i)
        elif k == "mut":
            if o["id"] in env.spec:
                s = dict(o["spec"]); s = {"T": dict(s["T"], id=o["id"])}
                env.spec[o["id"]] = s; out[i] = s
                for r in [r for r, (c, _) in pend.items() if o["id"] in ids_in(c)]:
                    del pend[r]
                for n in [n for n, sp in env.spec.items() if n != o["id"] and o["id"] in ids_in(sp)]:
                    del env.spec[n]      # objects built from the old contents are not used again
        elif k == "bwd":
            if o["of"] in pend:
                out[i] = pend[o["of"]][0]
                if not o.get("retain") and not o.get("fault"):
                    del pend[o["of"]]
        elif k == "drop":
            pend.pop(o["of"], None); out[i] = True
        elif k == "scrib":
            pend.pop(o["of"], None); out[i] = True
        elif k == "move":
            if o["on"] in env.spec:
                out[i] = True
        else:
            out[i] = True
    return out


def census(mats):
    """How many tensors, arrays and numbers the library holds: everything reachable from its
    modules and from the given materials."""
    import types
    seen = set(); n = collections.Counter()
    mods = [m for k, m in sorted(sys.modules.items()) if k.split(".")[0] == "pymiediff" and m is not None]
    todo = [vars(m) for m in mods] + list(mats)
    own = set(map(id, todo)) | set(map(id, mods))
    memo = [t for m in mats for t in memos(m)]      # one entry per wavelength ever asked for: not a leak
    inmemo = sum(isinstance(t, torch.Tensor) for d in memo for t in d.values())
    seen.update(map(id, memo))
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, types.ModuleType) and id(o) not in own:
            continue
        if isinstance(o, type) and not o.__module__.startswith("pymiediff"):
            continue
        if isinstance(o, types.FunctionType) and not (o.__module__ or "").startswith("pymiediff"):
            continue
        if isinstance(o, dict) and "__builtins__" in o and id(o) not in own:
            continue
        if isinstance(o, (types.FrameType, types.CodeType, types.BuiltinFunctionType)):
            continue
        if isinstance(o, (torch.Tensor, np.ndarray)):
            n["arrays"] += 1
        elif isinstance(o, (list, dict, tuple, set, collections.deque)):
            n["entries"] += len(o)
        todo.extend(gc.get_referents(o))
    live = sum(1 for o in gc.get_objects() if isinstance(o, torch.Tensor))
    return n["arrays"], n["entries"], live - inmemo, sum(map(len, memo))


def memos(m):
    """a material's table of permittivities per wavelength"""
    if type(m).__name__ != "MatDatabase":
        return []
    return [d for d in vars(m).values() if isinstance(d, dict) and d and all(isinstance(k, (int, float)) for k in d)]


def held(m):
    """how many values (tensors, arrays, numbers) a material holds; keys of tables do not count"""
    import pymiediff as pmd
    seen = set(); todo = [vars(m)]; n = 0
    while todo:
        o = todo.pop()
        if isinstance(o, (torch.Tensor, np.ndarray, complex, float)):
            n += 1
            continue
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            todo.extend(o.values())
        elif isinstance(o, (list, tuple, set, frozenset, collections.deque)):
            todo.extend(o)
        elif hasattr(o, "__dict__") and type(o).__module__.startswith("pymiediff") and not isinstance(o, (type, pmd.materials.MaterialBase)):
            todo.append(vars(o))
    return n


def numbers(x, acc):
    """all the numbers of a call, as single-precision values"""
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        acc.add(float(np.float32(x)))
    elif isinstance(x, dict):
        for v in x.values():
            numbers(v, acc)
    elif isinstance(x, list):
        for v in x:
            numbers(v, acc)
    return acc


def execute(plan, sym):
    """Runs in a pristine child. Returns the list of observations."""
    if not plan.get("rounds"):
        return _execute(plan, sym, None)[0]
    mats = {}; first = None; counts = []
    for r in range(plan["rounds"]):
        out, keep = _execute(plan, sym, mats)
        mats.update(keep); keep = None
        if first is None:
            first = out
        out = None
        gc.collect()
        counts.append(census(list(mats.values())))
    first["stats"]["censuses"] = len(counts)
    kinds = ["tensors or arrays held by the library", "container entries held by the library", "live tensors"]
    if not any(o.get("fault") for o in plan["ops"]):     # (an interrupted evaluation goes on where it was the next time)
        kinds.append("values in the materials' memos")
    for j, nm in enumerate(kinds):
        seq = [c[j] for c in counts]
        if seq[-1] > seq[-2] > seq[-3]:
            first["obs"].append({"i": len(plan["ops"]), "kind": "leak", "msg": "repeating the same history holds more each time: %s %s" % (nm, seq)})
            break
    return first


def _execute(plan, sym, pre):
    import warnings
    warnings.simplefilter("ignore")
    ambient_init()
    env = lang.Env(); obs = []; results = {}; stats = collections.Counter()
    watch = plan.get("watch"); amb = plan.get("ambient"); snap = plan.get("snap")
    track = plan.get("track")
    tracked = []; specs = {}; born = {}; gouts = {}; del lang.LEFT[:]
    world = World() if plan.get("world") else None

    def note(i, kind, **kw):
        obs.append(dict(i=i, kind=kind, **kw))

    for i, o in enumerate(plan["ops"]):
        if i not in sym:
            continue
        k = o["op"]
        a0 = ambient() if amb else None
        if k == "def":
            try:
                if pre and o["id"] in pre:
                    env.obj[o["id"]] = env.intern[o["id"]] = pre[o["id"]]
                    specs[o["id"]] = sym[i]
                    continue
                if o.get("fault"):
                    f = make_fault(o["fault"])
                    try:
                        with f:
                            lang.build(o["spec"], env)
                    except BaseException as e:
                        env.intern.pop(o["id"], None)
                    stats["fault_" + o["fault"]["kind"]] += f.fired
                    env.intern.pop(o["id"], None); env.leaves.pop(o["id"], None)
                sp = o["spec"]; objs = w = None
                if (snap or watch) and ("fn" in sp or "m" in sp):
                    b = lang.bind(sp, env)
                    objs = [b[1], b[2]]; im0 = image(objs)
                    w = Watch(objs, im0) if watch else None
                    with (w or contextlib.nullcontext()):
                        x = lang.invoke(sp, env, b)
                    if sp.get("id"):
                        env.intern[sp["id"]] = x
                else:
                    x = lang.build(sp, env)
                env.obj[o["id"]] = x
                specs[o["id"]] = sym[i]
                if track and type(x).__name__ == "MatDatabase":
                    born[o["id"]] = held(x)
                x = b = None
                note(i, "def", out=("ok",))
                if w and w.bad:
                    note(i, "input", msg=w.bad)
                if objs:
                    d = image_diff(im0, image(objs))
                    if d:
                        note(i, "input", msg=d + " by the constructor")
                objs = w = None
            except Exception as e:
                note(i, "def", out=("exc", type(e).__name__, str(e)[:300]))
        elif k == "call":
            if not refs(o["call"]) <= set(env.obj):
                continue
            try:
                b = lang.bind(o["call"], env)
            except Exception as e:
                note(i, "harness", msg="bind: %r" % (e,)); continue
            objs = [b[1], b[2], b[3]]
            im0 = image(objs) if snap else None
            w = Watch(objs, im0) if watch else None
            fault = make_fault(o["fault"]) if o.get("fault") else None
            res = None
            try:
                if o.get("thread"):
                    res = in_thread(lambda: lang.invoke(o["call"], env, b))
                elif fault:
                    with fault:
                        res = lang.invoke(o["call"], env, b)
                elif w:
                    with w:
                        res = lang.invoke(o["call"], env, b)
                else:
                    res = lang.invoke(o["call"], env, b)
                out = ("ok", lang.freeze(res))
            except BaseException as e:
                if not isinstance(e, Exception) and not (fault and fault.fired):
                    raise
                out = ("exc", type(e).__name__, str(e)[:300])
            if fault:
                stats["fault_%s_%s" % (o["fault"]["kind"], o["fault"]["exc"])] += fault.fired
            if w:
                stats["watch_points"] += w.n
            note(i, "call", out=out, fired=bool(fault and fault.fired))
            if w and w.bad:
                note(i, "input", msg=w.bad)
            if snap:
                d = image_diff(im0, image(objs))
                if d:
                    note(i, "input", msg=d + " after the call")
            if track:
                _track_all(tracked, i, objs, res)
            if o.get("keep") and res is not None and out[0] == "ok":
                results[o["id"]] = (res, objs)
            del objs, b, w
            res = None
        elif k == "bwd":
            if o["of"] not in results:
                continue
            res, objs = results[o["of"]]
            im0 = image(objs) if snap else None
            w = Watch(objs, im0) if watch else None
            fault = make_fault(o["fault"]) if o.get("fault") else None
            leaves = dict(env.leaves); gout = None
            if o.get("direct"):
                gout = gouts.get(o["of"])
                if gout is None:
                    gout = gouts[o["of"]] = lang.incoming(res, o.get("sel"))
                objs = [objs, gout]; im0 = image(objs) if snap else None
                w = Watch([objs], im0) if watch else None
            try:
                ctx = fault or w
                keepg = o.get("retain", False) or bool(fault)
                if ctx:
                    with ctx:
                        g = lang.grads(res, leaves, o.get("sel"), keepg, o.get("acc"), gout)
                else:
                    g = lang.grads(res, leaves, o.get("sel"), keepg, o.get("acc"), gout)
            except BaseException as e:
                if not (fault and fault.fired):
                    raise
                g = ("exc", type(e).__name__, str(e)[:300])
            if fault:
                stats["fault_bwd_%s_%s" % (o["fault"]["kind"], o["fault"]["exc"])] += fault.fired
            if w:
                stats["watch_points"] += w.n
            note(i, "bwd", grads=g, fired=bool(fault and fault.fired))
            if w and w.bad:
                note(i, "input", msg=w.bad)
            if snap:
                d = image_diff(im0, image(objs))
                if d:
                    note(i, "input", msg=d + " after the backward pass")
            if not o.get("retain") and not fault:
                del results[o["of"]]; gouts.pop(o["of"], None)
            res = objs = w = leaves = gout = None
        elif k == "mut":
            if o["id"] in env.obj:
                t = env.obj[o["id"]]; leaves = None
                new = lang.mk_tensor({k2: v for k2, v in o["spec"]["T"].items() if k2 != "rg"})
                with torch.no_grad():
                    t.data.copy_(new) if t.requires_grad else t.copy_(new)
                for r in list(results):
                    if o["id"] in ids_in(sym.get(_idx(plan, r), {})):
                        del results[r]
                t = None
                for n in [n for n, sp in specs.items() if n != o["id"] and o["id"] in ids_in(sp)]:
                    env.obj.pop(n, None); env.intern.pop(n, None); specs.pop(n)
        elif k == "drop":
            results.pop(o["of"], None)
        elif k == "scrib":
            if o["of"] in results:
                res, objs = results.pop(o["of"])
                im0 = image(objs)
                stats["scribbled"] += scribble(not_echoed(res, o, sym[_idx(plan, o["of"])], objs), o["how"], storages(objs))
                d = image_diff(im0, image(objs)) if o["how"] != "rg" else None
                if d:
                    note(i, "alias", msg="writing into a computed result changed an argument: " + d)
                if o.get("hold"):
                    results["held%d" % i] = (res, None)
                res = objs = None
        elif k == "move":
            if o["on"] in env.obj:
                x = env.obj[o["on"]]
                fault = make_fault(o["fault"]) if o.get("fault") else None
                try:
                    d = o.get("dev", "cpu")
                    d = torch.device(d[6:]) if d.startswith("torch:") else d
                    if fault:
                        with fault:
                            x.set_device(d)
                    else:
                        x.set_device(d)
                except BaseException as e:
                    if not (fault and fault.fired):
                        note(i, "move", out=("exc", type(e).__name__, str(e)[:200]))
                if fault and fault.fired:
                    stats["fault_move"] += 1
                    x.set_device(o.get("dev", "cpu"))
                x = None
        elif k == "trip":
            if o["on"] in env.obj:
                bad = trip(env.obj[o["on"]], o["legs"], stats)
                if bad:
                    note(i, "move", out=("exc", "Displaced", bad))
        elif k == "gc":
            gc.collect()
        elif k == "amb":
            world.change(o["set"]); stats.update({"fault_" + n: 1 for n in o["set"]})
            continue
        if world:
            t = world.printed()
            if t:
                note(i, "ambient", msg="printed to standard output: %r" % t[:200])
        if amb:
            d = ambient_diff(a0, ambient()) + lang.LEFT; del lang.LEFT[:]
            if d:
                note(i, "ambient", msg="; ".join(d))
    if world:
        world.close()
    gouts.clear()
    if track:
        results.clear()
        # first while particles and materials live on: they may hold what they were made from, nothing else
        keep = {n: x for n, x in env.obj.items() if not isinstance(x, (torch.Tensor, np.ndarray, list, dict, tuple))}
        made = set()
        for n, x in env.obj.items():
            if n not in keep and any(n in refs(o["spec"]) for o in plan["ops"] if o["op"] == "def" and "T" not in o["spec"]):
                made.update(t.untyped_storage()._cdata for _, t in lang.tensors_of(x))
        ok = owned(keep.values()) | made
        x = None
        env.obj.clear(); env.intern.clear(); env.leaves.clear()
        gc.collect()
        bad = [n for n, ref in tracked if not ref.expired() and ref.cdata not in ok]
        if bad:
            note(len(plan["ops"]), "leak", msg="kept alive by an object that was used, after the caller dropped it: " + ", ".join(bad[:4])
                 + (" and %d more" % (len(bad) - 4) if len(bad) > 4 else ""))
        keep = {n: x for n, x in keep.items() if type(x).__name__ == "MatDatabase"}
        gc.collect()
        bad = [n for n, ref in tracked if not ref.expired()]
        stats["tracked"] += len(tracked)
        if bad:
            note(len(plan["ops"]), "leak", msg="still reachable after the caller dropped everything: " + ", ".join(bad[:4])
                 + (" and %d more" % (len(bad) - 4) if len(bad) > 4 else ""))
        asked = set(); indirect = set()
        for o in plan["ops"]:
            if o["op"] in ("call", "mut", "def"):
                numbers([o.get("call"), o.get("spec")], asked)
            if o["op"] == "call" and o["call"].get("m") != "get_epsilon":     # wavenumbers: rounded on the way, perhaps twice
                numbers(sym[i_] if (i_ := _idx(plan, o["id"])) in sym else o["call"], indirect)
        bound = len(asked) + len(indirect) + 3
        for n, m in keep.items():
            if n in born and held(m) - born[n] > bound:
                note(len(plan["ops"]), "leak", msg="material %s holds %d values more than when it was made, after evaluations at no more than %d wavelengths" % (n, held(m) - born[n], bound))
            stats["materials_counted"] += n in born
            tab = getattr(m, "lookup_eps", None)
            if isinstance(tab, dict):
                for t in tab.values():
                    if isinstance(t, torch.Tensor) and (t.requires_grad or t.grad_fn is not None):
                        note(len(plan["ops"]), "leak", msg="material %s keeps an autograd graph" % n); break
        return {"obs": obs, "stats": dict(stats)}, keep
    return {"obs": obs, "stats": dict(stats)}, {}


def _idx(plan, rid):
    for i, o in enumerate(plan["ops"]):
        if o["op"] == "call" and o.get("id") == rid:
            return i
    return -1


def trip(x, legs, stats):
    """Moves to simulated devices and back; a leg may be interrupted or run out of memory, and is then repeated.
    -> description of a misplaced or altered part, or None"""
    from . import simdev
    from .props.c09 import parts_of
    before = image(x)
    D = simdev.Devices()
    for leg in legs:
        d = leg["dev"]
        f = make_fault(leg["fault"]) if leg.get("fault") else contextlib.nullcontext()
        D.fail_at = leg.get("oom") or None
        interrupted = False
        try:
            with D, f:
                x.set_device(d)
        except BaseException as e:
            if not (getattr(f, "fired", False) or D.failed):
                return "move to %s failed: %s: %s" % (d, type(e).__name__, str(e)[:200])
            interrupted = True
        D.fail_at = None
        stats["fault_move_oom"] += D.failed; stats["fault_move_interrupted"] += bool(getattr(f, "fired", False)); D.failed = 0
        if interrupted:
            if leg.get("other"):
                d = leg["other"]
            try:
                with D:
                    x.set_device(d)
            except Exception as e:
                return "repeated move to %s failed: %s: %s" % (d, type(e).__name__, str(e)[:200])
        stats["moves"] += 1
        ts, ms = parts_of(x)
        for m in [x] + ms:
            for p, t in parts_of(m)[0]:
                if simdev.label(t) != d:
                    return "%s of %s is on %s after a move to %s%s" % (p, type(m).__name__, simdev.label(t), d, " that was interrupted and repeated" if interrupted else "")
            if simdev.norm(m.device) != d:
                return "%s.device is %s after a move to %s" % (type(m).__name__, m.device, d)
    diff = image_diff(before, image(x), "object")
    return "the moves changed it: " + diff if diff else None


def owned(objs):
    """storages of the tensors that particles and constant materials legitimately store"""
    import pymiediff as pmd
    out = set()

    def add(t):
        if isinstance(t, torch.Tensor):
            out.add(t.untyped_storage()._cdata)

    def walk(x, depth=0):
        add(x)
        if depth < 5 and isinstance(x, (dict, list, tuple)):
            for y in (x.values() if isinstance(x, dict) else x):
                walk(y, depth + 1)
        elif depth < 3 and isinstance(x, (pmd.Particle, pmd.materials.MatConstant)):
            out.update(owned([x]))
    for o in objs:
        if isinstance(o, pmd.Particle):
            for t in (o.r_layers, o.eps_layers, o.r_c, o.r_s):
                add(t)
            for m in list(o.mat_layers or []) + [o.mat_env]:
                add(getattr(m, "eps_scalar", None))
        elif any(c.__module__.split(".")[0] == "torchgdm" for c in type(o).__mro__):
            walk(vars(o))
        else:
            add(getattr(o, "eps_scalar", None))
    return out


def _track_all(acc, i, objs, res):
    for nm, x in (("arg", objs[0]), ("kwarg", objs[1]), ("result", res)):
        for p, t in lang.tensors_of(x):
            _track(acc, "op %d %s%s" % (i, nm, p), t)


def _track(acc, name, t):
    try:
        from torch.multiprocessing.reductions import StorageWeakRef
        acc.append((name, StorageWeakRef(t.untyped_storage())))
    except Exception:
        pass


# ------------------------------------------------------------------ verdicts
def judge(plan, sym, rec, ref, checks, rg=True):
    """-> list of violations (dicts). `checks`: kinds of observation this property owns."""
    out = []

    def bad(i, kind, msg):
        out.append({"op": i, "kind": kind, "msg": msg, "what": describe(plan["ops"][i]) if i < len(plan["ops"]) else "end of run"})
    for ob in rec["obs"]:
        i = ob["i"]; k = ob["kind"]
        if k == "harness":
            raise core.HarnessError(ob["msg"])
        if k == "call" and "value" in checks:
            r, _ = ref.get(sym[i])
            a, b = ob["out"], r["out"]
            if ob.get("fired") and a[0] == "exc":
                continue
            if a[0] != b[0]:
                bad(i, "value", "call %s, expected %s" % (_o(a), _o(b)))
            elif a[0] == "exc":
                if a[1] != b[1]:
                    bad(i, "value", "raised %s, expected %s" % (a[1], b[1]))
            else:
                # special functions act element by element: nothing but the element itself sets the scale
                lang.FLOOR[0] = 1e-30 if str(sym[i].get("fn", "")).startswith("special.") else 1e-2
                tol = tol_for(sym[i])
                if plan.get("world") and "gpm" in core.canon(sym[i]):
                    # another number of threads rounds differently, and the model's least-squares fit amplifies it
                    tol = 2e-3; lang.FLOOR[0] = 1.0
                d = lang.diff(a[1], b[1], tol=tol, rg=rg)
                lang.FLOOR[0] = 1e-2
                if not d and plan.get("modeless") and sym[i].get("mode"):
                    r2, _ = ref.get({q: y for q, y in sym[i].items() if q != "mode"})
                    if r2["out"][0] == "ok":
                        d = lang.diff(a[1], r2["out"][1], tol=tol_for(sym[i]), rg=False)
                        d = d and "%s (expected: the value with gradients enabled)" % d
                if d:
                    bad(i, "value", d)
        elif k == "bwd" and "grad" in checks:
            o = plan["ops"][i]
            r, names = ref.get(sym[i], {"sel": o.get("sel")})
            if r["out"][0] == "exc":
                continue
            a, b = ob["grads"], r["grads"]
            if ob.get("fired") and a[0] == "exc":
                continue
            m = grad_mismatch(a, b, names, sym[i])
            if m:
                bad(i, "grad", m)
        elif k == "def" and "value" in checks and ob["out"][0] == "exc":
            r, _ = ref.get(sym[i])
            if r["out"][0] == "ok":
                bad(i, "value", "constructor %s, expected ok" % _o(ob["out"]))
            elif r["out"][1] != ob["out"][1]:
                bad(i, "value", "constructor raised %s, expected %s" % (ob["out"][1], r["out"][1]))
        elif k == "move" and "value" in checks:
            bad(i, "value", "set_device %s" % _o(ob["out"]))
        elif k in ("input", "alias", "ambient", "leak") and k in checks:
            bad(i, k, ob["msg"])
    return out


def grad_mismatch(a, b, names, call):
    if a[0] != b[0]:
        return "backward %s, expected %s" % (_o(a), _o(b))
    if a[0] == "exc":
        return None if a[1] == b[1] else "backward raised %s, expected %s" % (a[1], b[1])
    for lid, g in a[1].items():
        if lid == "loss":
            exp = b[1].get("loss")
        elif lid in names and b[1].get("loss") is not None:
            exp = b[1].get(names[lid])
        else:
            exp = None
        if (g is None) != (exp is None):
            return "gradient of %s %s, expected %s" % (lid, "missing" if g is None else "present", "none" if exp is None else "a value")
        if g is not None:
            d = lang.diff(g, exp, "grad[%s]" % lid, tol=gtol_for(call))
            if d:
                return d
    return None


def _o(o):
    return "raised %s (%s)" % (o[1], o[2]) if o[0] == "exc" else "succeeded"


def uses_db(c):
    return "MatDatabase" in core.canon(c)


def tol_for(c):
    """single-precision material data: the memo and a direct evaluation may differ by rounding;
    the pseudo-inverses of the global polarizability matrices amplify it, up to a thousandfold for small spheres"""
    g = "gpm" in core.canon(c)
    return (3e-3 if g else 3e-5) if uses_db(c) else 1e-3 if g else None


def gtol_for(c):
    return (1e-2 if "gpm" in core.canon(c) else 3e-4) if uses_db(c) else 1e-7 if "complex64" not in core.canon(c) and "float32" not in core.canon(c) else 1e-4


def describe(o):
    if o["op"] == "call":
        c = o["call"]
        n = ("%s.%s" % (c["on"].get("v", "?"), c["m"])) if "m" in c else c["fn"]
        return "%s%s%s" % (n, "" if c.get("mode", "grad") == "grad" else " [%s]" % c["mode"], " with fault" if o.get("fault") else "")
    return o["op"] + " " + str(o.get("id") or o.get("of") or o.get("on") or "")


def run(plan, ref, checks, rg=True, timeout=120):
    sym = symbolic(plan)
    rec = core.fork_call(execute, plan, sym, timeout=timeout)
    return judge(plan, sym, rec, ref, checks, rg), rec
