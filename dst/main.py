"""Command line: run / replay the simulations of one property, report, write evidence."""
import argparse, collections, json, os, random, select, shutil, subprocess, sys, tempfile, time

from . import core
from .props import META

NPROC = int(os.environ.get("VP_JOBS", "0")) or min(8, os.cpu_count() or 1)


def python():
    return os.environ.get("PY") or sys.executable


class Worker:
    def __init__(self, prop):
        r, w = os.pipe()
        env = dict(os.environ)
        env.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONPATH=core.VERIF, MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="")
        env.setdefault("PYTHONHASHSEED", "0")
        self.log = tempfile.TemporaryFile()
        self.scratch = tempfile.mkdtemp(prefix="dst-")
        env["DST_SCRATCH"] = self.scratch
        self.p = subprocess.Popen([python(), "-m", "dst.worker", prop, str(w)], stdin=subprocess.PIPE, stdout=self.log,
                                  stderr=self.log, pass_fds=(w,), env=env, cwd=self.scratch, start_new_session=True)
        os.close(w)
        self.fd = r; self.buf = b""; self.busy = None; self.deadline = None

    def send(self, req, tag=None, limit=600):
        self.busy = tag if tag is not None else True
        self.deadline = time.monotonic() + limit
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode()); self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def recv_ready(self):
        """called when fd is readable: -> list of answers (None for EOF)"""
        chunk = os.read(self.fd, 1 << 20)
        if not chunk:
            return [None]
        self.buf += chunk
        out = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            out.append(json.loads(line))
        return out

    def ask(self, req, limit=600):
        self.send(req, limit=limit)
        while True:
            left = self.deadline - time.monotonic()
            rd, _, _ = select.select([self.fd], [], [], max(0, left))
            if not rd:
                return {"error": "worker timed out"}
            a = self.recv_ready()
            if a:
                self.busy = None
                return a[0] if a[0] is not None else {"error": "worker died: " + self.tail()}

    def tail(self):
        try:
            self.log.seek(0, 2); n = self.log.tell(); self.log.seek(max(0, n - 2000))
            return self.log.read().decode(errors="replace")
        except Exception:
            return ""

    def close(self):
        try:
            os.killpg(self.p.pid, 9)
        except Exception:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass
        for f in (self.p.stdin, self.log):
            try: f.close()
            except Exception: pass
        try: os.close(self.fd)
        except Exception: pass
        shutil.rmtree(self.scratch, ignore_errors=True)


def start(prop, n):
    ws = [Worker(prop) for _ in range(n)]
    for w in ws:
        w.busy = "boot"; w.deadline = time.monotonic() + 300
    ok = []
    for w in ws:
        a = None
        while a is None:
            rd, _, _ = select.select([w.fd], [], [], max(0, w.deadline - time.monotonic()))
            if not rd:
                a = {"ready": False, "error": "timeout"}
                break
            x = w.recv_ready()
            if x:
                a = x[0] if x[0] is not None else {"ready": False, "error": "died: " + w.tail()}
        w.busy = None
        if not a.get("ready"):
            for v in ws:
                v.close()
            raise core.HarnessError("the system under test could not be loaded: %s" % a.get("error"))
        ok.append(w)
    return ok


def load_findings():
    fn = os.path.join(core.VERIF, "known_findings.json")
    try:
        return json.load(open(fn))
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def matches(finding, v):
    return all(str(f) in json.dumps(v, sort_keys=True) for f in finding.get("match", ["\0"]))


def run_check(prop, tier, seed, runs=None, jobs=None, quiet=False, first=0, budget=None, verbose=False):
    meta = META[prop]
    t0 = time.time()
    total = runs if runs is not None else meta["runs"][tier]
    budget = budget or meta.get("budget", {}).get(tier, 150 if tier == "quick" else 1500)
    known = [f for f in load_findings()["findings"] if f["property"] == prop]
    ws = start(prop, min(jobs or NPROC, max(1, total)))
    nxt = first; last = first + total
    done = {}; errors = []; viol = {}; hit_known = collections.OrderedDict(); per_run = []
    stop_at = None
    digest_in = {}
    try:
        while True:
            for w in ws:
                if w.busy is None and nxt < last and time.time() - t0 < budget and (stop_at is None or nxt < stop_at):
                    w.send({"do": "run", "seed": seed, "i": nxt, "tier": tier, "want_plan": nxt < first + 2}, tag=("run", nxt),
                           limit=meta.get("limit", 400))
                    nxt += 1
            act = [w for w in ws if w.busy is not None]
            if not act:
                break
            rd, _, _ = select.select([w.fd for w in act], [], [], 1.0)
            for w in list(act):
                ans = None
                if w.fd in rd:
                    a = w.recv_ready()
                    if not a:
                        continue
                    ans = a[0] if a[0] is not None else {"error": "worker died: " + w.tail()}
                elif time.monotonic() > w.deadline:
                    ans = {"error": "worker timed out"}
                if ans is None:
                    continue
                i = w.busy[1]; w.busy = None
                if "error" in ans:
                    errors.append((i, ans["error"]))
                    if "worker" in ans["error"]:
                        w.close(); ws.remove(w)
                        try:
                            ws += start(prop, 1)
                        except core.HarnessError as e:
                            errors.append((i, str(e)))
                    if len(errors) > 20:
                        nxt = last
                    continue
                done[i] = ans
                vs = []
                for v in ans.get("violations", []):
                    k = next((f for f in known if matches(f, v)), None)
                    if k:
                        hit_known[k["id"]] = k
                    else:
                        vs.append(v)
                if vs:
                    viol[i] = (vs, ans["plan"])
                    m = min(viol)
                    # leave a little room for neighbours, so that an unshrinkable case has alternatives
                    stop_at = m if stop_at is None else min(stop_at, m)
        wall_search = time.time() - t0
        replay = None
        rejected = 0
        for i in sorted(viol)[:6]:
            vs, plan = viol[i]
            replay = confirm(prop, tier, seed, i, vs, plan, ws, meta)
            if replay:
                break
            rejected += 1
        if viol and not replay:
            errors.append((min(viol), "a violation did not reproduce from its replay file: %s" % json.dumps(viol[min(viol)][0])[:600]))
    finally:
        for w in ws:
            w.close()
    wall = time.time() - t0
    ev = evidence(prop, tier, seed, meta, done, wall, wall_search, len(viol) if replay else 0, errors)
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    fn = os.path.join(core.VERIF, "evidence", prop + ".json")
    with open(fn + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(fn + ".tmp", fn)
    for k in hit_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    c = ev["coverage"]
    print("%s %s seed=%d: %d simulated runs (%d distinct non-trivial) in %.1f s" % (prop, tier, seed, c["evaluations"], c["distinct_nontrivial"], wall))
    if replay:
        path, v = replay
        print("  " + v["what"] + ": " + v["msg"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors or len(done) < min(total, meta.get("min_runs", 5)):
        for i, e in errors[:5]:
            print("ERROR run %s: %s" % (i, e), file=sys.stderr)
        return 2
    return 0


def confirm(prop, tier, seed, i, vs, plan, ws, meta):
    """Minimise, write the replay file, and reproduce it in a fresh process."""
    kinds = sorted({v["kind"] for v in vs})
    cands = []
    small = None
    if ws:
        w = ws[0]
        a = w.ask({"do": "shrink", "plan": plan, "kinds": kinds, "budget": meta.get("shrink_s", 60)}, limit=meta.get("shrink_s", 60) * 3 + 120)
        small = a.get("plan")
        if "error" in a:
            w.close(); ws.remove(w)
    for p in ([small] if small else []) + [plan]:
        fw = None
        try:
            fw = start(prop, 1)[0]
            a = fw.ask({"do": "plan", "plan": p})
            if a.get("violations"):
                v = next((v for v in a["violations"] if v["kind"] in kinds), a["violations"][0])
                os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
                rel = "replays/%s-%d-%d.json" % (prop, seed, i)
                with open(os.path.join(core.VERIF, rel), "w") as f:
                    json.dump({"property": prop, "seed": seed, "run": i, "tier": tier, "violation": v, "plan": p,
                               "original_ops": len(plan.get("ops", [])), "minimised_ops": len(p.get("ops", []))}, f, indent=1)
                return rel, v
        except core.HarnessError:
            pass
        finally:
            if fw:
                fw.close()
    return None


def evidence(prop, tier, seed, meta, done, wall, wall_search, nviol, errors):
    cov = collections.Counter(); faults = collections.Counter(); states = set(); shapes = set(); samples = []
    simt = 0.0; nontriv = set()
    for i in sorted(done):
        a = done[i]
        c = a.get("cov", {})
        for k, v in c.items():
            cov[k] += v
        for k, v in a.get("faults", {}).items():
            faults[k] += v
        states.update(a.get("states", []))
        simt += a.get("sim_time", 0.0)
        if a.get("key") and not a.get("trivial"):
            nontriv.add(a["key"])
        if len(samples) < 2 and a.get("plan") is not None:
            s = json.dumps(a["plan"])
            samples.append(a["plan"] if len(s) < 6000 else {"truncated": s[:6000]})
    n = len(done)
    return {
        "property": prop, "tier": tier, "seed": seed, "level": meta["level"],
        "coverage": {
            "evaluations": n, "distinct_nontrivial": len(nontriv), "rule": meta["rule"],
            "samples": samples or [{"note": "no run finished"}],
            "simulated_runs": n, "seeds_per_hour": round(3600.0 * n / max(wall_search, 1e-6)),
            "simulated_time_s": round(simt, 1), "simulated_time_note": meta.get("time_note", "virtual clock of the simulated executions"),
            "faults_injected": dict(sorted(faults.items())), "counters": dict(sorted(cov.items())),
            "distinct_states": len(states), "state_measure": meta["measure"],
            "real_components": meta["real"], "stub_components": meta["stub"], "errors": len(errors),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": nviol,
    }


def do_replay(path):
    d = json.load(open(path))
    w = start(d["property"], 1)[0]
    try:
        a = w.ask({"do": "plan", "plan": d["plan"]})
    finally:
        w.close()
    if "error" in a:
        print("ERROR " + a["error"], file=sys.stderr)
        return 2
    for v in a["violations"]:
        print("%s [%s] %s" % (v["what"], v["kind"], v["msg"]))
    if a["violations"]:
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("no violation")
    return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args(argv)
    try:
        if a.what.endswith(".json"):
            return do_replay(a.what)
        return run_check(a.what.upper(), a.tier, a.seed, a.runs, a.jobs, first=a.first, budget=a.budget)
    except core.HarnessError as e:
        print("ERROR " + str(e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
