"""The language of simulated workloads: JSON recipes of values, objects and calls,
how they are executed against the real library, and how outcomes are compared."""
import contextlib, copy, json, math
import numpy as np
import torch

from . import core

DT = {n: getattr(torch, n) for n in
      ("float32", "float64", "complex64", "complex128", "int32", "int64", "bool")}
NDT = {n: np.dtype(n) for n in DT}


# ------------------------------------------------------------------ values
def _arr(d, dt):
    """nested data -> numpy; complex data is {"re":..,"im":..}"""
    if isinstance(d, dict):
        return (np.asarray(d["re"], dtype=np.float64) + 1j * np.asarray(d["im"], dtype=np.float64)).astype(NDT[dt])
    return np.asarray(d, dtype=np.float64).astype(NDT[dt])


def mk_tensor(s):
    t = torch.from_numpy(np.array(_arr(s["d"], s["dt"]), copy=True, order="C"))
    if s.get("expand"):
        t = t.expand(*s["expand"])
    if s.get("rg"):
        t.requires_grad_(True)
    return t


class Env:
    """Live objects of one execution."""

    def __init__(self):
        self.obj = {}      # variable -> live object
        self.spec = {}     # variable -> closed spec
        self.intern = {}   # closed-spec id -> live object (references only)
        self.results = {}
        self.leaves = {}   # id -> leaf tensor


def close(v, env):
    """Replace variable references by the closed specs they stand for now."""
    if isinstance(v, dict):
        if "v" in v and len(v) == 1:
            return env.spec[v["v"]]
        return {k: close(x, env) for k, x in v.items()}
    if isinstance(v, list):
        return [close(x, env) for x in v]
    return v


def canon_ids(v):
    """Rename interning ids by first occurrence, so that equal calls share a reference."""
    names = {}

    def walk(x):
        if isinstance(x, dict):
            out = {}
            for k in sorted(x):
                if k == "id" and isinstance(x[k], str):
                    out[k] = names.setdefault(x[k], "#%d" % len(names))
                else:
                    out[k] = walk(x[k])
            return out
        if isinstance(x, list):
            return [walk(y) for y in x]
        return x
    return walk(v), names


def leaf_ids(v, acc=None):
    acc = [] if acc is None else acc
    if isinstance(v, dict):
        if "T" in v and v["T"].get("rg") and v["T"].get("id") and v["T"]["id"] not in acc:
            acc.append(v["T"]["id"])
        for x in v.values():
            leaf_ids(x, acc)
    elif isinstance(v, list):
        for x in v:
            leaf_ids(x, acc)
    return acc


def install_stubs():
    """torchgdm's dummy-geometry discretiser (pure decoration of GPM structures, 90 % of the cost)
    is replaced by an eight-point stand-in.  Everything else runs real code."""
    try:
        import numpy as np
        import torchgdm.struct.struct3d as s3
    except Exception:
        return

    real = s3.discretizer_cubic
    if getattr(real, "stub", False):
        return

    def discretizer_cubic(*a, **k):
        lim = a[1] if len(a) > 1 else k["limits"]
        if (lim[1] - lim[0]) * (lim[3] - lim[2]) * (lim[5] - lim[4]) < 300:      # small structures as they are
            return real(*a, **k)
        step = k.get("step", a[-1] if a else 1.0)
        g = np.array([[x, y, z] for x in (-1, 1) for y in (-1, 1) for z in (-1, 1)], dtype=np.float32)
        return g * float(step)
    discretizer_cubic.stub = True
    s3.discretizer_cubic = discretizer_cubic


_FN = {}


def resolve(name):
    if name in _FN:
        return _FN[name]
    import importlib
    if name.startswith("x."):
        from . import extra
        f = getattr(extra, name[2:])
    else:
        import pymiediff
        parts = name.split(".")
        o = pymiediff
        for i, p in enumerate(parts):
            if not hasattr(o, p):
                importlib.import_module("pymiediff." + ".".join(parts[:i + 1]))
            o = getattr(o, p)
        f = o
    _FN[name] = f
    return f


def build(v, env):
    """JSON value -> live value."""
    if isinstance(v, dict):
        if "v" in v and len(v) == 1:
            return env.obj[v["v"]]
        if "T" in v:
            s = v["T"]; i = s.get("id")
            if i is not None and i in env.intern:
                return env.intern[i]
            t = mk_tensor(s)
            if i is not None:
                env.intern[i] = t
                if s.get("rg"):
                    env.leaves[i] = t
            return t
        if "np" in v:
            return np.array(_arr(v["np"]["d"], v["np"]["dt"]), copy=True)
        if "c" in v:
            return complex(v["c"][0], v["c"][1])
        if "L" in v:
            return [build(x, env) for x in v["L"]]
        if "tu" in v:
            return tuple(build(x, env) for x in v["tu"])
        if "D" in v:
            return {k: build(x, env) for k, x in v["D"].items()}
        if "dtype" in v:
            return getattr(torch, v["dtype"])
        if "fnref" in v:
            return resolve(v["fnref"])
        if "fn" in v or "m" in v:
            i = v.get("id")
            if i is not None and i in env.intern:
                return env.intern[i]
            o = invoke(v, env)
            if i is not None:
                env.intern[i] = o
            return o
        raise core.HarnessError("bad value %r" % (v,))
    if isinstance(v, list):
        return [build(x, env) for x in v]
    return v


def bind(call, env):
    """-> (callable, args, kwargs) with live values."""
    a = [build(x, env) for x in call.get("a", [])]
    k = {n: build(x, env) for n, x in call.get("k", {}).items()}
    if "m" in call:
        on = build(call["on"], env)
        return getattr(on, call["m"]), a, k, on
    return resolve(call["fn"]), a, k, None


LEFT = []     # gradient modes that calls left changed


class mode_ctx:
    """the caller's gradient mode; what the call leaves behind in it is noted"""

    def __init__(self, mode):
        self.c = {"no_grad": torch.no_grad, "inference": torch.inference_mode, "grad": None}[mode]

    def state(self):
        return torch.is_grad_enabled(), torch.is_inference_mode_enabled()

    def __enter__(self):
        if self.c:
            self.c = self.c()
            self.c.__enter__()
        self.s = self.state()

    def __exit__(self, *a):
        if self.c:
            if self.state() != self.s:
                LEFT.append("gradient mode (grad, inference): %s -> %s" % (self.s, self.state()))
            self.c.__exit__(*a)


def invoke(call, env, bound=None):
    f, a, k, on = bound or bind(call, env)
    with mode_ctx(call.get("mode", "grad")):
        return f(*a, **k)


# ------------------------------------------------------------------ outcomes
def freeze(x, depth=0):
    """A picklable, comparable image of a result."""
    if isinstance(x, torch.Tensor):
        y = x.detach()
        if y.is_conj() or y.is_neg():
            y = y.resolve_conj().resolve_neg()
        return ("T", str(x.dtype)[6:], tuple(x.shape), bool(x.requires_grad), str(x.device), y.cpu().numpy().copy())
    if isinstance(x, np.ndarray):
        return ("N", str(x.dtype), tuple(x.shape), False, "", np.array(x, copy=True))
    if isinstance(x, (bool, int, float, complex, str, type(None), np.generic)):
        return ("S", x if not isinstance(x, np.generic) else x.item())
    if depth < 6 and isinstance(x, dict):
        return ("D", {str(k): freeze(v, depth + 1) for k, v in x.items()})
    if depth < 6 and isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(v, depth + 1) for v in x])
    return ("O", type(x).__name__)


FLOOR = [1e-2]      # fraction of the tolerance that is relative to the largest element
TOL = {"float64": 1e-9, "complex128": 1e-9, "float32": 2e-5, "complex64": 2e-5}


def close_num(a, b, dt, tol=None):
    """True when two arrays agree within rounding (bitwise in practice)."""
    if a.shape != b.shape:
        return False
    if a.tobytes() == b.tobytes():
        return True
    if a.dtype.kind not in "fc":
        return bool(np.array_equal(a, b))
    t = TOL.get(dt, 1e-9) if tol is None else tol
    an, bn = np.isnan(a), np.isnan(b)
    if not np.array_equal(an, bn):
        return False
    ai, bi = np.isinf(a), np.isinf(b)
    if not np.array_equal(ai, bi):
        return False
    ok = ~(an | ai)
    a, b = a[ok], b[ok]
    if a.size == 0:
        return True
    with np.errstate(all="ignore"):
        d = np.abs(a - b); m = np.abs(b)
        return bool(np.all(d <= t * m + FLOOR[0] * t * m.max()))


def diff(a, b, path="", tol=None, rg=True):
    """None when equal, else a short description of the first difference (a: run, b: reference)."""
    if a[0] != b[0]:
        return "%s: kind %s, expected %s" % (path or "result", a[0], b[0])
    k = a[0]
    if k in ("T", "N"):
        if a[1] != b[1]:
            return "%s: dtype %s, expected %s" % (path, a[1], b[1])
        if a[2] != b[2]:
            return "%s: shape %s, expected %s" % (path, a[2], b[2])
        if rg and a[3] != b[3]:
            return "%s: requires_grad %s, expected %s" % (path, a[3], b[3])
        if a[4] != b[4]:
            return "%s: device %s, expected %s" % (path, a[4], b[4])
        if not close_num(a[5], b[5], a[1], tol):
            return "%s: values %s, expected %s" % (path, _short(a[5]), _short(b[5]))
        return None
    if k == "S":
        x, y = a[1], b[1]
        if type(x) != type(y):
            return "%s: %r, expected %r" % (path, x, y)
        if isinstance(x, (float, complex)):
            if not close_num(np.asarray(x), np.asarray(y), "float64", tol):
                return "%s: %r, expected %r" % (path, x, y)
            return None
        return None if x == y else "%s: %r, expected %r" % (path, str(x)[:120], str(y)[:120])
    if k == "D":
        if set(a[1]) != set(b[1]):
            return "%s: keys %s, expected %s" % (path, sorted(a[1]), sorted(b[1]))
        for n in sorted(a[1]):
            r = diff(a[1][n], b[1][n], path + "[%s]" % n, tol, rg)
            if r:
                return r
        return None
    if k in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return "%s: length %d, expected %d" % (path, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = diff(x, y, path + "[%d]" % i, tol, rg)
            if r:
                return r
        return None
    return None if a[1:] == b[1:] else "%s: %r, expected %r" % (path, a[1:], b[1:])


def _short(x):
    s = np.array2string(np.asarray(x).ravel()[:4], precision=10, separator=",").replace("\n", "")
    return s + ("..." if np.asarray(x).size > 4 else "")


def attempt(fn):
    """-> (('ok', value) | ('exc', type name, message), live result)"""
    try:
        r = fn()
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:300]), None
    return ("ok",), r


# ------------------------------------------------------------------ gradients
def tensors_of(x, path="", depth=0):
    if isinstance(x, torch.Tensor):
        yield path, x
    elif depth < 6 and isinstance(x, dict):
        for k in sorted(x, key=str):
            yield from tensors_of(x[k], path + "/" + str(k), depth + 1)
    elif depth < 6 and isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from tensors_of(y, path + "/%d" % i, depth + 1)


def outputs_of(result, sel=None):
    for j, (p, t) in enumerate(tensors_of(result)):
        if not t.requires_grad or t.is_leaf:
            continue
        if sel and not any(p.strip("/").startswith(s) for s in sel):
            continue
        yield t, torch.cos(0.7 * torch.arange(t.numel(), dtype=torch.float64) + j).float().double().reshape(t.shape)


def incoming(result, sel=None):
    """the same function's gradients with respect to each output, as a caller may hand them to autograd"""
    return [(w * (1 + 0.5j) if t.is_complex() else w).to(t.dtype) for t, w in outputs_of(result, sel)]


def loss_of(result, sel=None):
    """A fixed scalar function of (selected) differentiable outputs."""
    tot = None
    for t, w in outputs_of(result, sel):
        if t.is_complex():
            y = (t.real * w).sum() + 0.5 * (t.imag * w).sum()
        else:
            y = (t * w).sum()
        tot = y if tot is None else tot + y
    return tot


def grads(result, leaves, sel=None, retain=False, acc=False, gout=None):
    """-> {leaf id: frozen gradient or None}, or ('exc', ...)"""
    with torch.no_grad() if gout is not None else contextlib.nullcontext():
        L = loss_of(result, sel)
    if L is None:
        return ("ok", {"loss": None})
    ids = list(leaves)
    if gout is not None:     # from several outputs at once, with the caller's own incoming gradients
        try:
            g = torch.autograd.grad([t for t, _ in outputs_of(result, sel)], [leaves[i] for i in ids], gout, allow_unused=True, retain_graph=retain)
        except Exception as e:
            return ("exc", type(e).__name__, str(e)[:300])
        return ("ok", {"loss": freeze(L), **{i: (None if x is None else freeze(x)) for i, x in zip(ids, g)}})
    if acc:     # L.backward() accumulating into .grad, as an optimiser step uses it
        try:
            L.backward(retain_graph=retain)
        except BaseException as e:     # what an interrupted pass had accumulated by then is nobody's
            for x in leaves.values():
                x.grad = None
            if not isinstance(e, Exception):
                raise
            return ("exc", type(e).__name__, str(e)[:300])
        g = [leaves[i].grad for i in ids]
        for x in leaves.values():
            x.grad = None
        return ("ok", {"loss": freeze(L.detach()), **{i: (None if x is None else freeze(x)) for i, x in zip(ids, g)}})
    try:
        g = torch.autograd.grad(L, [leaves[i] for i in ids], allow_unused=True, retain_graph=retain)
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:300])
    return ("ok", {"loss": freeze(L.detach()), **{i: (None if x is None else freeze(x)) for i, x in zip(ids, g)}})


# ------------------------------------------------------------------ the memoryless reference
def _ref_child(spec):
    import warnings
    warnings.simplefilter("ignore")
    env = Env()
    out, res = attempt(lambda: invoke(spec["call"], env))
    if out[0] == "exc":
        return {"out": out}
    rec = {"out": ("ok", freeze(res))}
    if spec.get("grad") is not None:
        rec["grads"] = grads(res, env.leaves, spec["grad"].get("sel"))
    return rec


class Reference:
    """Evaluates one self-contained call in a pristine forked process, memoised."""

    def __init__(self):
        self.memo = {}
        self.evals = 0

    def get(self, call, grad=None):
        spec, names = canon_ids({"call": call, "grad": grad})
        key = core.canon(spec)
        if key not in self.memo:
            if len(self.memo) > 4000:
                self.memo.clear()
            self.evals += 1
            self.memo[key] = core.fork_call(_ref_child, spec)
        return self.memo[key], names
