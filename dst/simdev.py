"""Simulated accelerators: ordinary CPU tensors carrying a device label, with the placement
rules of a real multi-device machine checked at every call into torch."""
import numbers
import torch
from torch.overrides import TorchFunctionMode

SIM = ("cuda:0", "cuda:1")


def norm(d):
    if d is None:
        return None
    if isinstance(d, int):
        return "cuda:%d" % d
    s = str(d)
    return "cuda:0" if s == "cuda" else s


def is_sim(d):
    return isinstance(d, (str, torch.device)) and norm(d).startswith("cuda")


def label(t):
    return getattr(t, "_dst_dev", "cpu")


def tag(x, d, depth=0):
    if isinstance(x, torch.Tensor):
        if d == "cpu":
            if hasattr(x, "_dst_dev"):
                del x._dst_dev
        else:
            x._dst_dev = d
    elif isinstance(x, (list, tuple)) and depth < 3:
        for y in x:
            tag(y, d, depth + 1)
    elif isinstance(x, dict) and depth < 3:
        for y in x.values():
            tag(y, d, depth + 1)
    return x


def tensors(x, out, depth=0):
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif depth < 4 and isinstance(x, (list, tuple)):
        for y in x:
            tensors(y, out, depth + 1)
    elif depth < 4 and isinstance(x, dict):
        for y in x.values():
            tensors(y, out, depth + 1)
    return out


GETTERS = {"device", "is_cuda", "is_cpu"}
HOST = {"item", "tolist", "__float__", "__int__", "__bool__", "__complex__", "__index__", "__repr__", "__str__", "__format__",
        "__len__", "size", "dim", "numel", "stride", "is_contiguous", "is_complex", "is_floating_point", "requires_grad_",
        "__get__", "__set__", "backward", "__contains__", "nelement", "ndimension", "storage_offset", "__hash__", "data_ptr",
        "register_hook", "retain_grad", "__reversed__", "is_conj", "is_neg", "is_inference", "untyped_storage", "element_size",
        "is_signed", "__dir__", "__deepcopy__", "__reduce_ex__", "is_same_size", "broadcast_tensors"}
LIKE = {"zeros_like", "ones_like", "full_like", "empty_like", "rand_like", "randn_like", "randint_like"}
# every operand on one device, zero-dimensional CPU tensors included
STRICT = {"stack", "cat", "concat", "concatenate", "hstack", "vstack", "matmul", "mm", "bmm", "mv", "dot", "einsum", "__matmul__",
          "bucketize", "searchsorted", "gather", "index_select", "take", "equal", "cross", "tensordot", "outer", "lstsq", "solve",
          "inverse", "inv", "pinv", "allclose"}


class SimulatedMix(RuntimeError):
    pass


def mix(a, b, what):
    return SimulatedMix("Expected all tensors to be on the same device, but found at least two devices, %s and %s! (when checking %s)" % (a, b, what))


class SimOOM(torch.OutOfMemoryError):
    pass


class Devices(TorchFunctionMode):
    def __init__(self):
        self.mixes = []; self.transfers = 0; self.fail_at = None; self.calls = 0; self.failed = 0

    def transfer(self, t, d):
        """a copy on another device; may fail for lack of memory"""
        self.transfers += 1
        if self.fail_at is not None and d != "cpu":
            self.fail_at -= 1
            if self.fail_at <= 0:
                self.fail_at = None; self.failed += 1
                raise SimOOM("CUDA out of memory. Tried to allocate (simulated)")
        return t

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        self.calls += 1
        name = getattr(func, "__name__", "")
        owner = getattr(func, "__self__", None)
        if name == "__get__":
            prop = getattr(owner, "__name__", "")
            t = args[0]
            if prop == "device":
                return torch.device(label(t))
            if prop == "is_cuda":
                return label(t) != "cpu"
            if prop == "is_cpu":
                return label(t) == "cpu"
            r = func(*args, **kwargs)
            return tag(r, label(t)) if isinstance(r, torch.Tensor) and r is not t else r
        if name == "__set__":
            if getattr(owner, "__name__", "") == "data" and isinstance(args[1], torch.Tensor):
                tag(args[0], label(args[1]))
            return func(*args, **kwargs)
        if name in ("__repr__", "__str__", "__format__", "tolist", "item"):
            with torch._C.DisableTorchFunction():
                return func(*args, **kwargs)

        # ---- placement
        if name == "to":
            return self.to(func, args, kwargs)
        if name == "cpu":
            t = args[0]
            r = func(*args, **kwargs)
            if label(t) != "cpu":
                self.transfers += 1
                r = r.clone() if r is t else r
            return tag(r, "cpu")
        if name == "cuda":
            d = norm(args[1] if len(args) > 1 else kwargs.get("device", "cuda:0")) or "cuda:0"
            return self.move(args[0], d, lambda: args[0])
        if name in ("__deepcopy__", "__reduce_ex__", "__setstate__"):     # a copy lives where the original does
            r = func(*args, **kwargs)
            return tag(r, label(args[0])) if isinstance(r, torch.Tensor) else r
        if name in ("numpy", "__array__", "__array_wrap__", "from_numpy", "frombuffer"):
            if args and isinstance(args[0], torch.Tensor) and label(args[0]) != "cpu":
                raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first." % label(args[0]))
            return func(*args, **kwargs)
        dev = kwargs.get("device")
        if "device" in kwargs and dev is not None:
            d = norm(dev)
            if name in ("as_tensor", "asarray", "tensor") and args and isinstance(args[0], torch.Tensor):
                src = args[0]
                kwargs["device"] = "cpu"
                if name == "tensor":
                    self.transfer(src, d)
                    return tag(func(*args, **kwargs), d)
                r = func(*args, **kwargs)
                if label(src) == d:
                    return tag(r, d) if r is not src else r
                self.transfer(src, d)
                if r is src:
                    r = src.clone()
                return tag(r, d)
            ts = tensors(list(args), [])
            if is_sim(dev) or d == "cpu":
                kwargs["device"] = "cpu"
            if d != "cpu" and name not in LIKE:
                self.transfer(None, d)
            r = func(*args, **kwargs)
            return tag(r, d)
        if name in ("as_tensor", "asarray"):
            src = args[0]
            r = func(*args, **kwargs)
            if isinstance(src, torch.Tensor):
                return r if r is src else tag(r, label(src))
            ts = tensors([src], [])
            labs = {label(t) for t in ts}
            if len(labs) > 1 or (labs and labs != {"cpu"}):
                # torch copies element by element to the host
                pass
            return tag(r, "cpu")
        if name == "type" and len(args) > 1 and isinstance(args[1], str) and "cuda" in args[1]:
            raise core_unsupported("type")

        ts = tensors(list(args), []); tensors(list(kwargs.values()), ts)
        lab = self.check(name, args, ts)
        r = func(*args, **kwargs)
        if name in HOST or not ts:
            return r
        if isinstance(r, torch.Tensor) and any(r is t for t in ts):
            return r
        return tag(r, lab)

    def check(self, name, args, ts):
        if not ts:
            return "cpu"
        labs = {}
        for t in ts:
            labs.setdefault(label(t), []).append(t)
        if len(labs) == 1:
            return next(iter(labs))
        if name in ("copy_",):
            return label(args[0])
        if name == "backward" or name == "grad":
            return "cpu"
        sim = [l for l in labs if l != "cpu"]
        if name == "__setitem__" and not tensors([args[1]], []):
            return label(args[0])      # basic indexing: a copy into the selected part, allowed across devices
        if len(sim) > 1:
            raise self.record(sim[0], sim[1], name)
        cpu = labs["cpu"]; d = sim[0]
        if name == "__getitem__":
            if label(args[0]) == "cpu":
                raise self.record("cpu", d, "index")
            return d       # CPU indices into a device tensor are fine
        if name == "__setitem__":
            if label(args[0]) == "cpu":
                raise self.record("cpu", d, "indexed assignment")
            if any(t.dim() > 0 and t.numel() != 1 for t in cpu if t is (args[2] if len(args) > 2 else None)):
                raise self.record(d, "cpu", "indexed assignment")
            return d
        if name in STRICT or any(t.dim() > 0 for t in cpu):
            raise self.record(d, "cpu", name)
        if name.endswith("_") and not name.endswith("__") and label(args[0]) == "cpu":
            raise self.record("cpu", d, name)
        return d

    def record(self, a, b, what):
        self.mixes.append((a, b, what))
        return mix(a, b, what)

    def move(self, t, d, same):
        if label(t) == d:
            return same()
        self.transfer(t, d)
        return tag(t.clone(), d)

    def to(self, func, args, kwargs):
        t = args[0]; rest = list(args[1:]); d = label(t)
        kw = dict(kwargs)
        if "device" in kw:
            x = kw["device"]
            if x is not None:
                d = norm(x)
            kw["device"] = None if x is None else "cpu"
        elif "other" in kw:
            d = label(kw["other"])
        elif rest:
            if isinstance(rest[0], torch.Tensor):
                d = label(rest[0])
            elif isinstance(rest[0], (str, torch.device)) or (isinstance(rest[0], int) and not isinstance(rest[0], bool)):
                d = norm(rest[0]); rest[0] = "cpu"
        if d != label(t):
            self.transfer(t, d)
        r = func(t, *rest, **kw)
        if r is t:
            if d == label(t):
                return r
            r = t.clone()
        return tag(r, d)


def core_unsupported(n):
    from . import core
    return core.HarnessError("simulated devices: unsupported call " + n)
