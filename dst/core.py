"""Seeds, forked children, shrinking: nothing here knows the system under test."""
import hashlib, json, os, pickle, random, select, signal, struct, sys, time, traceback

REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.realpath(os.path.join(REPO, "src", "pymiediff")) + os.sep
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class HarnessError(Exception):
    """The machinery failed (never a verdict about the code)."""


class ChildTimeout(HarnessError):
    """A simulated execution did not finish."""


class ChildCrash(HarnessError):
    """A simulated execution ended the interpreter (segmentation fault, abort)."""


LIMIT = None      # upper bound on every child's time while a hang is being minimised


def derive(*parts):
    h = hashlib.sha256("|".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def rng_for(*parts):
    return random.Random(derive(*parts))


def canon(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


def digest(obj):
    return hashlib.sha256(canon(obj).encode()).hexdigest()[:16]


def fork_call(fn, *args, timeout=120.0, quiet=True):
    """Run fn(*args) in a forked child, return its (pickled) value.

    The child starts from the state of this process, which by construction
    has evaluated nothing: that is the pristine initial state of every
    simulated execution."""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.default_int_handler)
            if quiet:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1); os.dup2(dn, 2)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:  # noqa: reported to the parent as a harness error
                out = ("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
            data = pickle.dumps(out, protocol=4)
            with os.fdopen(w, "wb") as f:
                f.write(struct.pack("<Q", len(data))); f.write(data)
        except BaseException:
            code = 77
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray(); end = time.monotonic() + timeout; timed = False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0:
                timed = True; break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                timed = True; break
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
    finally:
        os.close(r)
        if timed:
            try: os.kill(pid, signal.SIGKILL)
            except ProcessLookupError: pass
        _, status = os.waitpid(pid, 0)
    if timed:
        raise ChildTimeout("child timed out after %.0f s" % timeout)
    if len(buf) < 8 and os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL):
        raise ChildCrash("the interpreter was ended by signal %d" % os.WTERMSIG(status))
    if len(buf) < 8:
        raise HarnessError("child died without an answer (status %s)" % status)
    kind, val = pickle.loads(bytes(buf[8:]))
    if kind == "err":
        raise HarnessError("child failed: " + val)
    return val


class HashServer:
    """A second pristine process, started with another PYTHONHASHSEED; forks one child per history."""

    def __init__(self, seed):
        import subprocess
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        self.p = subprocess.Popen([sys.executable, "-m", "dst.hashserver"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env)

    def call(self, plan, timeout):
        try:
            self.p.stdin.write((json.dumps([plan, timeout]) + "\n").encode()); self.p.stdin.flush()
            n = self.p.stdout.read(8)
            if len(n) < 8:
                raise HarnessError("the process with other hashes died")
            kind, val = pickle.loads(self.p.stdout.read(struct.unpack("<Q", n)[0]))
        except OSError as e:
            raise HarnessError("the process with other hashes died: %s" % e)
        if kind == "timeout":
            raise ChildTimeout(val)
        if kind == "err":
            raise HarnessError(val)
        return val


_HS = {}


def other_hashes(seed):
    if seed not in _HS:
        _HS[seed] = HashServer(seed)
    return _HS[seed]


def ddmin(items, failing, budget_s=120.0):
    """Classic delta debugging on a list; `failing(list)` -> bool."""
    end = time.monotonic() + budget_s
    n = 2
    items = list(items)
    while len(items) >= 2 and time.monotonic() < end:
        size = max(1, len(items) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        reduced = False
        for i in range(len(chunks)):
            if time.monotonic() > end:
                break
            cand = [x for j, c in enumerate(chunks) if j != i for x in c]
            if cand and failing(cand):
                items = cand; n = max(n - 1, 2); reduced = True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def through(func, args, kwargs):
    """Carry out a tensor operation from within a dispatch mode, as it would be without the mode: torch excludes the
    kernels that resolve lazy conjugation there, and composite operations (pinv of a complex matrix) go wrong silently."""
    import torch
    C = torch._C; K = C.DispatchKey
    ex = C._dispatch_tls_local_exclude_set().remove(K.Conjugate).remove(K.Negative).remove(K.ZeroTensor)
    with C._ForceDispatchKeyGuard(C._dispatch_tls_local_include_set(), ex):
        return func(*args, **(kwargs or {}))
