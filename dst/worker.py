"""A zygote: imports the system once, evaluates nothing itself, forks one pristine child per
simulated execution.  Reads JSON requests on stdin, answers on fd 3."""
import importlib, json, os, sys, time, traceback

from . import core


def fate(plan, e):
    """A simulated execution that never came to an end is a violation of whatever it was to show."""
    kind = "hang" if isinstance(e, core.ChildTimeout) else "crash"
    return {"violations": [{"op": -1, "kind": kind, "msg": str(e), "what": "run"}], "cov": {}, "states": [],
            "key": core.digest(plan), "plan": plan}


def simulate(mod, plan):
    try:
        return mod.simulate(plan)
    except (core.ChildTimeout, core.ChildCrash) as e:
        return fate(plan, e)


def shrink_fate(mod, plan, kinds, budget):
    if not isinstance(plan.get("ops"), list):
        return None
    core.LIMIT = 15

    def failing(ops):
        try:
            a = simulate(mod, dict(plan, ops=ops))
        except core.HarnessError:
            return False
        return any(v["kind"] in kinds for v in a["violations"])
    try:
        return dict(plan, ops=core.ddmin(plan["ops"], failing, budget)) if failing(plan["ops"]) else None
    finally:
        core.LIMIT = None


def main():
    prop = sys.argv[1]
    out = os.fdopen(int(sys.argv[2]), "w", buffering=1)
    sys.path.insert(0, os.path.join(core.REPO, "src"))
    mod = importlib.import_module("dst.props." + prop.lower())
    try:
        mod.boot()
        out.write(json.dumps({"ready": True}) + "\n")
    except BaseException as e:
        out.write(json.dumps({"ready": False, "error": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()}) + "\n")
        return
    for line in sys.stdin:
        req = json.loads(line)
        t0 = time.time()
        try:
            if req["do"] == "run":
                plan = mod.make(req["seed"], req["i"], req["tier"])
                ans = simulate(mod, plan)
                if ans.get("violations") or req.get("want_plan"):
                    ans["plan"] = plan
            elif req["do"] == "plan":
                ans = simulate(mod, req["plan"])
            elif req["do"] == "shrink":
                f = shrink_fate if set(req["kinds"]) <= {"hang", "crash"} and not hasattr(mod, "SHRINKS_HANGS") else lambda m, *a: m.shrink(*a)
                ans = {"plan": f(mod, req["plan"], req["kinds"], req["budget"])}
            else:
                ans = {"error": "bad request"}
        except core.HarnessError as e:
            ans = {"error": "HarnessError: %s" % e}
        except BaseException as e:
            ans = {"error": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc())}
        ans["wall"] = time.time() - t0
        out.write(json.dumps(ans) + "\n")


if __name__ == "__main__":
    main()
