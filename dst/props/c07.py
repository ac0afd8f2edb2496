"""Material files under a simulated file layer."""
import os, shutil, tempfile, warnings
from .. import core
from . import common
from .common import boot  # noqa

FILES = ["a.yml", "b.yml", "dir/a.yml"]


# ------------------------------------------------------------------ file contents
def content(c):
    k = c["kind"]
    if k == "pkg":
        import glob
        fn = sorted(glob.glob(os.path.join(core.SRC, "materials", "data", c["name"] + "_*")))
        return open(fn[0], "rb").read()
    head = c.get("comment", "")
    if k in ("n", "nk"):
        rows = "\n".join("        " + c.get("sep", " ").join(r) for r in c["rows"])
        txt = "%sDATA:\n  - type: tabulated %s\n    data: |\n%s\n" % (head, k, rows)
    elif k == "formula":
        txt = "%sDATA:\n  - type: formula %s\n" % (head, c.get("num", "1"))
        if c.get("rk"):
            txt += "    %s: 0.2 2.5\n" % c["rk"]
        txt += "    coefficients: %s\n" % " ".join(c["coef"])
    else:
        txt = c["text"]
    if c.get("tail"):
        txt += c["tail"]
    if c.get("more"):      # further entries: the first one counts
        for e in c["more"]:
            txt += content(e).decode("utf8").split("DATA:\n", 1)[1]
    if c.get("crlf"):
        txt = txt.replace("\n", "\r\n")
    return txt.encode("utf8")


def mutate(b, muts):
    b = bytearray(b)
    for m in muts:
        n = len(b)
        if not n:
            break
        a = int(m.get("at", 0) * n) % n
        if m["m"] == "trunc":
            del b[a:]
        elif m["m"] == "zero":
            z = b[a:a + m["len"]]; b[a:a + m["len"]] = bytes(len(z))
        elif m["m"] == "flip":
            b[a] ^= 1 << m["bit"]
        elif m["m"] == "drop":
            del b[a:a + m["len"]]
        elif m["m"] == "dup":
            b[a:a] = b[a:a + m["len"]]
        elif m["m"] == "join":      # a lost line break
            i = b.find(b"\n", a)
            if i >= 0:
                j = i + 1
                while j < len(b) and b[j] in b" ":
                    j += 1
                b[i:j] = m["with"].encode()
        elif m["m"] == "split":     # a spurious line break inside a row
            i = b.find(b" ", a)
            if i >= 0:
                b[i:i + 1] = b"\n        "
        elif m["m"] == "token":     # one number replaced or removed
            import re
            ts = list(re.finditer(rb"(?<=[ ])[0-9][0-9.eE+-]*", bytes(b)))
            if ts:
                t = ts[int(m["at"] * len(ts)) % len(ts)]
                b[t.start():t.end()] = m["with"].encode()
        elif m["m"] == "stale":     # the tail of an older, longer file remains
            b += content(m["old"])[len(b):]
    return bytes(b)


def gen_content(r, more=True):
    if more and r.random() < 0.15:
        c = gen_content(r, False)
        if c["kind"] in ("n", "nk", "formula") or c["kind"] == "raw" and c["text"].startswith("DATA:\n  - type: ") and c["text"].endswith("\n"):
            e = []
            while len(e) < r.choice([1, 1, 2]):
                q = gen_content(r, False)
                if q["kind"] in ("n", "nk", "formula"):
                    q["comment"] = ""; q.pop("crlf", None)
                    e.append(q)
            c["more"] = e
        return c
    x = r.random()
    u = {"comment": r.choice(["", "", "# comment\n", "COMMENTS: \"20 \u00b0C, \u03bcm \u0160\u0163 \u20ac \u90a3\"\n", "REFERENCES: |\n    text: with colon\n"])}
    if r.random() < 0.1:
        u["crlf"] = True
    if x < 0.55:
        k = r.choice(["n", "nk", "nk"])
        n = r.choice([1, 2, 3, 5, 9, 40])
        w = 0.3 + 0.1 * r.random(); rows = []
        for _ in range(n):
            rows.append(["%.4f" % w, "%.3f" % (1.2 + 3 * r.random())] + (["%.4g" % (2 * r.random())] if k == "nk" else []))
            w += r.choice([0.01, 0.02, 0.1])
        if n >= 3 and r.random() < 0.15:     # a step: two rows at one wavelength
            j = r.randrange(1, n - 1)
            rows.insert(j, [rows[j][0], "%.3f" % (1.2 + 3 * r.random())] + rows[j][2:])
        if r.random() < 0.15:
            rows.reverse()
        if r.random() < 0.15:
            rows = [[("%E" % float(v)) for v in q] for q in rows]
        return dict(u, kind=k, rows=rows, sep=r.choice([" ", " ", "  ", " \t" if False else "   "]))
    if x < 0.75:
        nc = r.choice([1, 3, 5, 7])
        co = ["%.6g" % r.choice([0.0, 0.2])]
        for _ in range(nc // 2):
            co += ["%.6g" % (0.3 + r.random()), "%.6g" % (0.05 + 0.1 * r.random())]
        return dict(u, kind="formula", num=r.choice(["1", "1", "1", "1", "2", "3", "5"]), coef=co, rk=r.choice(["wavelength_range", "range", None, "wavelength_range"]))
    if x < 0.9:
        return {"kind": "pkg", "name": r.choice(["SiO2", "Al", "TiO2", "Au", "Al2O3o", "Ge", "Si3N4"])}
    return {"kind": "raw", "text": r.choice([
        "", "DATA:\n", "DATA: []\n", "foo\n", "- 1\n- 2\n", "DATA:\n  - type: tabulated k\n    data: |\n        0.4 0.1\n        0.8 0.2\n",
        "DATA:\n  - type: tabulated n2\n    data: |\n        0.4 0.1\n        0.8 0.2\n", "DATA:\n  - type: tabulated nk\n",
        "DATA:\n  - type: model x\n    data: |\n        0.4 1.0\n", "DATA:\n  - type: tabulated\n    data: |\n        0.4 1.1 0.5\n        0.8 1.2 0.2\n",
        "DATA:\n  - type: tabulated n\n    data: |\n        0.4 1.5\n        0.8 1.6\n  - type: tabulated k\n    data: |\n        0.4 0.1\n        0.8 0.2\n",
        "DATA:\n  - type: tabulated nk\n    data: |\n        0.4,1.5,0.1\n        0.8,1.6,0.1\n",
        "DATA:\n  - type: tabulated nk\n    data: |\n        # wl n k\n        0.4 1.5 0.1\n        0.8 1.6 0.1\n",
        "DATA:\n  - type: tabulated nk\n    data: |\n        0.4 1.5 0.1 0.5 1.6 0.1\n        0.8 1.6 0.1\n",
        "DATA:\n  - type: tabulated nk\n    data: |\n\n        0.4 1.5 0.1\n\n\n        0.8 1.6 0.1\n\n",
        "DATA:\n  - type: tabulated n\n    data: \"0.4 1.5\\n0.6 1.9\\n0.8 1.6\"\n",
        "DATA:\n  - type: tabulated n\n    data: |\n        0.4 1.5\n    data: |\n        0.4 1.7\n",
        "DATA:\n  - type: formula 1\n    wavelength_range: 0.2 2.5\n    coefficients: 0 0.69 0.06 0.4 0.11 0.89\n",
        "DATA:\n  - type: formula 1\n    wavelength_range: 0.2\n    coefficients: 0 0.69 0.06\n",
        "DATA:\n  - type: formula\n    wavelength_range: 0.2 2.5\n    coefficients: 0 0.69 0.06\n",
        "\ufeffDATA:\n  - type: tabulated n\n    data: |\n        0.4 1.5\n        0.8 1.6\n"])}


def gen_muts(r):
    out = []
    for _ in range(r.choice([1, 1, 1, 2])):
        m = r.choice(["trunc", "trunc", "zero", "flip", "drop", "dup", "join", "join", "split", "token", "token", "stale"])
        d = {"m": m, "at": r.random()}
        if m in ("zero", "drop", "dup"):
            d["len"] = r.choice([1, 2, 4, 8, 16, 64, 512])
        if m == "flip":
            d["bit"] = r.randrange(8)
        if m == "join":
            d["with"] = r.choice(["", " "])
        if m == "token":
            d["with"] = r.choice(["", "x", "1e", "--", "0x1F", "1,5", "nan", "0.1j", "0.25j", "(0.5)", "1.5d0", "1/2", "1;5", "1.2.3", "1.5*", "1.5%", "1.5,", "\u00bd", "+-1"])
        if m == "stale":
            d["old"] = {"kind": r.choice(["pkg"]), "name": r.choice(["Au", "Al"])}
        out.append(d)
    return out


def read_faults(r):
    d = {}
    x = r.random()
    if x < 0.5:
        d["chunks"] = [r.choice([1, 2, 3, 7, 17, 64, 511, 4096]) for _ in range(r.choice([1, 2, 5]))]
        if sum(d["chunks"]) / len(d["chunks"]) < 3:
            d["chunks"].append(512)
    if r.random() < 0.25:
        d["eintr"] = sorted(r.sample(range(1, 6), r.choice([1, 2])))
    y = r.random()
    if y < 0.2:
        d["err"] = {"at": r.choice([1, 2, 3, 5, 9]), "errno": r.choice(["EIO", "ESTALE", "ENOMEM", "EISDIR", "ETIMEDOUT"])}
    elif y < 0.3:
        d["open"] = r.choice(["EACCES", "EMFILE", "ENOENT", "ENFILE", "EPERM", "EIO"])
    elif y < 0.4:
        d["eof"] = r.randrange(0, 1200)
    return d


def make(seed, i, tier):
    r = core.rng_for(seed, "C07", i)
    ops = []; have = {}; n = 0
    N = r.randint(10, 26) if tier == "quick" else r.randint(14, 40)
    names = ["SiO2", "Si", "Ag", "Au", "Ge", "TiO2", "Al"]
    while len(ops) < N:
        x = r.random()
        if not have or x < 0.25:
            f = r.choice(FILES)
            c = {"c": gen_content(r)}
            if r.random() < 0.45:
                c["muts"] = gen_muts(r)
            o = {"op": "write", "f": f, **c}
            if r.random() < 0.4:
                o["mtime"] = 1000000000
            if r.random() < 0.2 and f in have and "rows" in have[f].get("c", {}):   # same size, other numbers
                q = {"c": dict(have[f]["c"], rows=[[a, {"1": "2", "2": "3", "3": "4", "4": "1"}.get(b[0], "2") + b[1:], *z] for a, b, *z in have[f]["c"]["rows"]])}
                o = {"op": "write", "f": f, **q, "mtime": 1000000000}
            ops.append(o); have[f] = o
            continue
        if x < 0.30:
            ops.append({"op": "write", "f": r.choice(FILES), "c": None})     # removed
            continue
        n += 1
        o = {"op": "load", "id": "m%d" % n}
        if r.random() < 0.2:
            o["name"] = r.choice(names)
        else:
            o["f"] = r.choice(list(have)); o["as"] = r.choice(["str", "path", "rel"])
            if r.random() < 0.4:
                o["name"] = r.choice(["mine", "Si", "sio2", "Au"])
            if r.random() < 0.08:      # a path that does not exist
                o["f"] = r.choice(["missing.yml", "nodir/a.yml", "dir"])
        if r.random() < 0.6:
            o["faults"] = read_faults(r)
        if r.random() < 0.15:
            o["init"] = r.choice([[500.0], [400.0, 633.0]])
        ops.append(o)
        if o.get("faults") and r.random() < 0.7:     # retry without the fault
            n += 1
            o = dict(o, id="m%d" % n); o.pop("faults")
            ops.append(o)
        if n > 1 and r.random() < 0.3:
            ops.append({"op": "again", "id": "m%d" % r.randint(1, n)})
    return {"ops": ops, "locale": r.choice(["utf-8", "ascii", "latin-1", "cp1252", "utf-8"]), "chunk": 0}


# ------------------------------------------------------------------ what the bytes say
def meaning(data):
    """-> ('bad', why) | ('table', wl[nm], eps) | ('sell', coeff) | ('any', why)"""
    import yaml, math
    try:
        d = yaml.load(data.decode("utf8").replace("\r\n", "\n").replace("\r", "\n"), Loader=yaml.BaseLoader)
    except Exception as e:
        return ("bad", "not valid YAML/UTF-8: %s" % type(e).__name__)
    try:
        e = d["DATA"][0]; typ = e["type"].split()
        if typ[0] == "tabulated":
            cols = {"n": 2, "nk": 3}.get(typ[1])
            if cols is None:
                return ("bad", "unsupported table kind")
            wl, eps = [], []
            for row in e["data"].split("\n"):
                s = row.split()
                if not s:
                    continue
                if len(s) != cols:
                    return ("bad", "row with %d columns, expected %d" % (len(s), cols))
                v = [float(q) for q in s]
                if not all(map(math.isfinite, v)):
                    return ("any", "non-finite number")
                wl.append(1000 * v[0]); eps.append(complex(v[1], v[2] if cols == 3 else 0.0) ** 2)
            if not wl:
                return ("bad", "no rows")
            if any(abs(z) > 1e30 or abs(z) > 1e30 for z in eps) or any(abs(z) > 1e30 for z in wl):
                return ("any", "overflow")
            return ("table", wl, eps)
        if typ[0] == "formula":
            if int(typ[1]) != 1:
                return ("bad", "unsupported formula")
            co = [float(s) for s in e["coefficients"].split()]
            rg = e.get("wavelength_range", e.get("range"))
            if rg is None:
                return ("any", "no range")
            if len([float(x) for x in rg.split()[:2]]) < 2:
                return ("any", "incomplete range")
            if len(co) < 1 or len(co) % 2 == 0:
                return ("bad", "incomplete coefficients")
            if not all(map(math.isfinite, co)):
                return ("any", "non-finite number")
            return ("sell", co)
        return ("bad", "unsupported type")
    except Exception as ex:
        return ("bad", "incomplete: %s" % type(ex).__name__)


def expected(m, wls):
    """-> [(wl, value, tolerance)]"""
    import numpy as np
    out = []
    if m[0] == "table":
        o = np.argsort(m[1], kind="stable"); x = np.array(m[1])[o]; y = np.array(m[2])[o]
        for w in wls:
            w = float(np.float32(w))
            if w < x[0] * (1 + 1e-6) or w > x[-1] * (1 - 1e-6):
                if len(x) == 1 or w < x[0] * (1 - 1e-6) or w > x[-1] * (1 + 1e-6):
                    continue
            i = int(np.searchsorted(x, w))
            lo, hi = max(i - 2, 0), min(i + 2, len(x))
            seg = x[lo:hi]
            if len(seg) > 1 and np.min(np.diff(seg)) < 1e-5 * seg[-1]:
                # wavelengths that (nearly) coincide: only exact steps, and not at the step itself
                j = np.diff(seg)
                if np.any((j > 0) & (j < 1e-5 * seg[-1])) or np.min(np.abs(seg - w)) < 1e-4 * w or not 0 < i < len(x):
                    continue
                lo, hi = i - 1, i + 1
                seg = x[lo:hi]
            v = np.interp(w, x, y.real) + 1j * np.interp(w, x, y.imag)
            mg = np.abs(y[lo:hi]).max()
            sl = np.max(np.abs(np.diff(y[lo:hi])) / np.diff(seg)) if len(seg) > 1 else 0.0
            out.append((w, v, 1e-4 * mg + sl * abs(w) * 1e-6 + 1e-12))
    else:
        co = m[1]
        for w in wls:
            def f(q):
                q = q / 1000
                t = [1 + co[0]] + [co[i] * q * q / (q * q - co[i + 1] ** 2) for i in range(1, len(co), 2)]
                return sum(t), sum(abs(z) for z in t)
            try:
                v, s = f(w); d = abs(f(w * (1 + 1e-5))[0] - f(w * (1 - 1e-5))[0])
            except ZeroDivisionError:
                continue
            if not (abs(v) < 1e8 and s < 1e8 and d < 1e-2 * (1 + s)):
                continue
            out.append((w, complex(v), 1e-4 * s + d + 1e-12))
    return out


def child(plan):
    import pathlib, gc, traceback
    import pymiediff as pmd
    from .. import simfs
    warnings.simplefilter("ignore")
    root = tempfile.mkdtemp(dir=os.environ.get("DST_SCRATCH"))
    obs = []
    try:
        os.makedirs(os.path.join(root, "dir")); os.chdir(root)
        fs = simfs.SimFS([root, os.path.join(core.SRC, "materials", "data")], plan["locale"])
        disk = {}; live = {}
        fs.install()
        for i, o in enumerate(plan["ops"]):
            if o["op"] == "write":
                p = os.path.join(root, o["f"])
                if o["c"] is None:
                    if os.path.exists(p):
                        os.unlink(p)
                    continue
                b = mutate(content(o["c"]), o.get("muts", []))
                with simfs.real_open(p, "wb") as f:
                    f.write(b)
                if o.get("muts"):
                    for m in o["muts"]:
                        fs.count("content_" + m["m"])
                if o.get("mtime"):
                    os.utime(p, (o["mtime"], o["mtime"]))
            elif o["op"] == "load":
                fs.next = o.get("faults"); fs.opened = []; n0 = sum(v for q, v in fs.stats.items() if q.startswith("open_"))
                mat = None; path = None
                try:
                    kw = {}
                    if o.get("init"):
                        import torch
                        kw["init_lookup_wavelengths"] = torch.tensor(o["init"])
                    if "f" in o:
                        path = os.path.join(root, o["f"])
                        arg = {"str": path, "path": pathlib.Path(path), "rel": o["f"]}[o["as"]]
                        mat = pmd.materials.MatDatabase(o.get("name", ""), yaml_file=arg, **kw)
                    else:
                        mat = pmd.materials.MatDatabase(o["name"], **kw)
                    out = ("ok",)
                    opened = [(bytes(q.out), q.closed, path is None or q.path == os.path.realpath(path)) for q in fs.opened]
                except Exception as e:
                    out = ("exc", type(e).__name__, str(e)[:200])
                    opened = [(bytes(q.out), q.closed, False) for q in fs.opened]
                fs.next = None
                ob = {"i": i, "out": out, "opened": opened, "evals": [], "refused_open": sum(v for q, v in fs.stats.items() if q.startswith("open_")) > n0}
                if path and os.path.isfile(path):
                    ob["disk"] = simfs.real_open(path, "rb").read()
                elif not path:
                    ob["disk"] = content({"kind": "pkg", "name": o["name"]})
                if mat is not None:
                    live[o["id"]] = mat
                    ob["evals"] = evaluate(mat, plausible(ob))
                obs.append(ob)
                mat = None
            elif o["op"] == "again" and o["id"] in live:
                src = [q for q in obs if plan["ops"][q["i"]].get("id") == o["id"]][0]
                obs.append({"i": i, "out": ("ok",), "again": src["i"], "opened": [], "evals": evaluate(live[o["id"]], plausible(src))})
        fs.remove()
        return {"obs": obs, "stats": fs.stats, "clock": fs.clock, "opens": fs.opens}
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def plausible(ob):
    """wavelengths worth evaluating: taken from the delivered bytes (or what is on disk)"""
    out = [400.0, 500.0, 633.0, 800.0, 1200.0]
    for b in ([q[0] for q in ob["opened"]] or [ob.get("disk", b"")])[:1]:
        m = meaning(b)
        if m[0] == "table":
            w = sorted(x for x in m[1] if 1 < x < 1e5)
            pick = w[:4] + w[-4:] + w[::max(1, len(w) // 12)]
            pick += [(a + b) / 2 for a, b, c, d in zip(w, w[1:], w[2:], w[3:]) if b == c] + [(c + d) / 2 for b, c, d in zip(w, w[1:], w[2:]) if b == c]
            out = sorted(set(pick + [(a + c) / 2 for a, c in zip(w[:3] + w[-4:], w[1:4] + w[-3:])]))
    return out


def evaluate(mat, wls):
    res = []
    for w in wls:
        try:
            v = mat.get_epsilon(w)
            res.append((w, complex(v.reshape(-1)[0].item()) if v.numel() == 1 else "shape %s" % (tuple(v.shape),)))
        except Exception as e:
            res.append((w, "raised %s" % type(e).__name__))
    return res


def simulate(plan):
    rec = core.fork_call(child, plan, timeout=90)
    vs = []; states = set()
    byi = {o["i"]: o for o in rec["obs"]}

    def bad(i, kind, msg):
        o = plan["ops"][i]
        vs.append({"op": i, "kind": kind, "msg": msg, "what": "load %s%s" % (o.get("f") or o.get("name") or o.get("id"), " with faults %s" % o["faults"] if o.get("faults") else "")})
    for ob in rec["obs"]:
        i = ob["i"]; src = byi[ob["again"]] if "again" in ob else ob
        o = plan["ops"][src["i"]]
        for b, closed, _ in ob["opened"]:
            if not closed:
                bad(i, "closed", "the file is left open after the call %s" % ("failed" if ob["out"][0] == "exc" else "returned"))
                break
        cand = [q[0] for q in src["opened"] if q[2] or ob["out"][0] == "exc"] or [src.get("disk", b"")]
        ms = [meaning(b) for b in cand]
        f = o.get("faults") or {}
        if "f" in o and "again" not in ob and ob["out"][0] == "ok" and (ob["refused_open"] or src.get("disk") is None) and any(not isinstance(v, str) for _, v in ob["evals"]):
            bad(i, "data", "the file cannot be opened but a material was built")
            continue
        states.add(core.digest([ms[0][0] if ms else "", sorted(f), ob["out"][0], ms[0][1] if ms and ms[0][0] == "bad" else "", "again" in ob]))
        if ob["out"][0] == "exc":
            # a good file delivered completely must load
            harmless = not (f.get("err") or f.get("open") or f.get("eof") is not None)
            if harmless and src.get("disk") is not None:
                m = meaning(src["disk"])
                if m[0] in ("table", "sell") and not (b"\xef\xbb\xbf" in src["disk"][:3]):
                    bad(i, "refused", "a good file was refused: %s (%s)" % (ob["out"][1], ob["out"][2]))
            continue
        if all(m[0] == "any" for m in ms):
            continue
        why = []
        for m in ms:
            why = check_values(m, ob["evals"])
            if not why:
                break
        if why:
            bad(i, "data", why)
    faults = {k: n for k, n in rec["stats"].items()}
    return {"violations": vs, "cov": {"loads": len(rec["obs"]), "loads_failed": sum(o["out"][0] == "exc" for o in rec["obs"]),
                                      "evaluations_checked": sum(len(o["evals"]) for o in rec["obs"]), "opens": rec["opens"]},
            "faults": faults, "states": sorted(states), "key": core.digest(plan["ops"]), "trivial": not rec["obs"], "sim_time": rec["clock"]}


def check_values(m, evals):
    ok = [(w, v) for w, v in evals if not isinstance(v, str)]
    if m[0] == "bad":
        if ok:
            return "the file is unusable (%s) but the material returned %s at %g nm" % (m[1], ok[0][1], ok[0][0])
        return None
    if m[0] == "any":
        return None
    if m[0] == "table":
        dup = [j for j, w in enumerate(m[1]) if m[1].count(w) == 2]
        if len(dup) == 2:     # a step: its two rows belong to its two sides, in whichever order they were sorted
            y = list(m[2]); y[dup[0]], y[dup[1]] = y[dup[1]], y[dup[0]]
            return compare(m, evals) and compare(("table", m[1], y), evals)
    return compare(m, evals)


def compare(m, evals):
    exp = expected(m, [w for w, _ in evals])
    got = dict(evals)
    import numpy as np
    g32 = {float(np.float32(w)): v for w, v in evals}
    for w, v, tol in exp:
        x = g32.get(float(np.float32(w)), got.get(w))
        if isinstance(x, str):
            return "evaluation at %g nm %s" % (w, x)
        if x is None:
            continue
        if not abs(x - v) <= tol:
            return "permittivity at %g nm is %s, the delivered bytes say %s" % (w, x, v)
    return None


def shrink(plan, kinds, budget):
    p = common.shrink_ops(plan, kinds, budget, simulate)
    if p is None:
        return None
    # drop read faults that do not matter
    ops = p["ops"]
    for i, o in enumerate(ops):
        for k in list(o.get("faults", {})):
            o2 = dict(o, faults={a: b for a, b in o["faults"].items() if a != k})
            q = dict(p, ops=ops[:i] + [o2] + ops[i + 1:])
            if any(v["kind"] in kinds for v in simulate(q)["violations"]):
                ops = q["ops"]; p = q; o = o2
    return p
