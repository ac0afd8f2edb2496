"""Executes histories in a process with another string-hash seed (see core.HashServer)."""
import json, os, pickle, struct, sys


def main():
    out = os.fdopen(os.dup(1), "wb"); os.dup2(2, 1)
    from . import core
    sys.path.insert(0, os.path.join(core.REPO, "src"))
    from . import hist
    from .props import common
    common.boot()
    for line in sys.stdin:
        plan, timeout = json.loads(line)
        try:
            ans = ("ok", core.fork_call(hist.execute, plan, hist.symbolic(plan), timeout=timeout))
        except core.ChildTimeout as e:
            ans = ("timeout", str(e))
        except BaseException as e:
            ans = ("err", "%s: %s" % (type(e).__name__, e))
        d = pickle.dumps(ans, protocol=4)
        out.write(struct.pack("<Q", len(d)) + d); out.flush()


if __name__ == "__main__":
    main()
