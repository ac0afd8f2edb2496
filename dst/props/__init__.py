"""Settings of each property's simulation (no heavy imports here)."""

PAIR = ("pairs of consecutive operation shapes (operation, callee, option values, argument kinds, gradient mode, fault)"
        " seen over all runs")
REAL = ["pymiediff (all modules, unmodified)", "torch CPU kernels and autograd", "numpy", "scipy", "torchgdm, except its discretiser"]
STUB = ["torchgdm.struct.struct3d.discretizer_cubic: eight-point stand-in (only decorates GPM structures)",
        "threading locks created by the library: simulated"]
VT = "histories have no clock: one virtual second per operation"

META = {
    "C01": dict(level="exploration", runs={"quick": 700, "thorough": 6000}, measure=PAIR, real=REAL, stub=STUB, time_note=VT,
                rule="seeded histories of constructions, calls (new, repeated, nearly equal, failing, no_grad/inference), in-place "
                     "changes of argument tensors, drops, moves and garbage collections over shared objects; every call compared with "
                     "the same call alone in a pristine process; non-trivial: at least three calls; distinct by digest of the plan"),
    "C02": dict(level="exploration", runs={"quick": 700, "thorough": 6000}, measure=PAIR, real=REAL, stub=STUB, time_note=VT,
                rule="seeded histories interleaving forward calls, no_grad/inference calls, deferred, repeated and accumulating backward "
                     "passes, optimisation loops and leaf updates; every gradient of every leaf compared with the call alone in a pristine "
                     "process; non-trivial: at least three calls; distinct by digest of the plan"),
    "C03": dict(level="exploration", runs={"quick": 500, "thorough": 4000}, measure=PAIR, real=REAL, stub=STUB, time_note=VT,
                rule="seeded histories; every argument compared bit for bit with its image at every library statement, after the call, "
                     "after interruptions and after (interrupted) backward passes; distinct by digest of the plan"),
    "C04": dict(level="exploration", runs={"quick": 700, "thorough": 5000}, measure=PAIR, real=REAL, stub=STUB, time_note=VT,
                rule="seeded histories in which earlier results are overwritten, flagged or cleared in place; later calls compared with "
                     "pristine ones; distinct by digest of the plan"),
    "C05": dict(level="fault_enumeration", runs={"quick": 520, "thorough": 6000}, measure=PAIR, real=REAL, stub=STUB, time_note=VT,
                rule="seeded histories with an exception injected at a library line (uniform over the lines the call executes) or at a tensor "
                     "operation, in calls, constructors, moves and backward passes; then retries and other calls compared with pristine ones, "
                     "arguments and process state compared; non-trivial: a fault fired; distinct by digest of the plan"),
    "C10": dict(level="exploration", runs={"quick": 480, "thorough": 4000}, measure=PAIR, real=REAL, stub=STUB + ["time module: simulated clock", "standard output: captured"],
                time_note=VT,
                rule="seeded histories under changing generators, clocks, directories, filters, streams, locale, threads and gradient modes; "
                     "every call compared with a pristine one and the process state compared before and after; distinct by digest of the plan"),
    "C12": dict(level="exploration", runs={"quick": 600, "thorough": 5000}, measure=PAIR, real=REAL, stub=STUB, time_note=VT,
                rule="seeded histories with faults; all references dropped except the materials; every tensor storage ever passed in or returned "
                     "must be gone; distinct by digest of the plan"),
    "C06": dict(level="exploration", runs={"quick": 800, "thorough": 8000}, real=REAL,
                stub=STUB + ["thread scheduling: one thread runs at a time, chosen by a seeded scheduler (random, PCT, file-focused) at every "
                             "library statement and, in a quarter of the runs, every tensor operation", "time.sleep: virtual"],
                measure="distinct interleavings: digests of the sequence (preempted thread, statement, next thread)",
                time_note="one virtual millisecond per scheduling point",
                rule="2-4 threads with 1-6 operations each on shared particles, materials and tensors under one seeded schedule; each result "
                     "compared with the call alone in a pristine process; non-trivial: at least two preemptions; distinct by digest of "
                     "workload and switch list"),
    "C07": dict(level="fault_enumeration", runs={"quick": 3000, "thorough": 20000}, real=["pymiediff.materials (unmodified)", "PyYAML", "io.BufferedReader / TextIOWrapper", "torch"],
                stub=["raw file layer under open(): delivers chunks, EINTR, errors and early end of file by plan", "locale default encoding"],
                measure="(meaning of the delivered bytes, fault kinds, outcome) classes", time_note="0.1 virtual ms per read call",
                rule="seeded histories of writing (good, torn, truncated, zeroed, flipped, merged, stale-tailed) material files and loading them "
                     "through a faulty file layer; permittivities compared with an independent reading of the delivered bytes; non-trivial: at "
                     "least one load; distinct by digest of the plan"),
    "C09": dict(level="exploration", runs={"quick": 1000, "thorough": 8000}, real=REAL,
                stub=["accelerators: CPU tensors with a device label; placement rules of a multi-device machine checked at every torch call; "
                      "transfers may fail for lack of memory", "torchgdm.struct.struct3d.discretizer_cubic: eight-point stand-in"],
                measure="pairs of consecutive operations (kind, device, callee) seen over all runs", time_note=VT,
                rule="seeded histories of constructions, moves, failing moves and calls over cpu, cuda:0 and cuda:1 with shared materials, and "
                     "functional calls with plain numbers; labels of all stored and returned tensors checked after every operation, values "
                     "compared with a pristine CPU process; non-trivial: at least two calls; distinct by digest of the plan"),
    "C08": dict(level="exploration", runs={"quick": 1100, "thorough": 8000}, real=["pymiediff (a copy of the package, imported afresh in every run)", "importlib", "PyYAML", "torch"],
                stub=["os.listdir / os.scandir of the data folder: order and errors by plan", "default text encoding", "time.time"],
                measure="(previous operation, operation, outcome, material) tuples", time_note="1 virtual ms per operation",
                rule="seeded worlds (listing order, stray files, locale, directory, clock, hash seed, import order, failing listing then retry) and "
                     "lookup histories; names, displayed names and permittivities compared with an independent reading of the data files; "
                     "non-trivial: at least one lookup; distinct by digest of the plan"),
    "C11": dict(level="exploration", runs={"quick": 340, "thorough": 3000}, real=["pymiediff.helper.tg (unmodified)", "torchgdm simulations, solvers and post-processing", "torch"],
                stub=["torchgdm.struct.struct3d.discretizer_cubic: eight-point stand-in for the dummy geometry of GPM structures"],
                measure="pairs of consecutive operations (kind, option) seen over all runs", time_note=VT,
                rule="seeded histories of structures, combinations, simulations, runs, observables and backward passes with patch activations anywhere "
                     "(between operations, twice, from another thread, interrupted, in the middle of a run); values and gradients compared with the "
                     "same history without any patch and without the combination helper; non-trivial: at least one observable and one patch; "
                     "distinct by digest of the plan"),
    "C13": dict(level="fault_enumeration", runs={"quick": 440, "thorough": 8000}, real=["pymiediff (imported afresh in every run)", "importlib", "torch", "torchgdm where present"],
                stub=["finders of sys.meta_path: optional packages hidden or broken by plan", "source file reads by importlib: errors by plan",
                      "torchgdm.struct.struct3d.discretizer_cubic: eight-point stand-in"],
                measure="(previous operation, import statement, interrupted statement) and (history, installed packages) tuples", time_note=VT,
                rule="seeded installations (subsets of optional packages absent or broken), import orders and forms, interruptions at library "
                     "statements, failing reads and dependencies, purges and retries; API and values compared with a plain import in a pristine "
                     "process; non-trivial: a fault fired, a package is missing, or more than two observations; distinct by digest of the plan"),
    "C14": dict(level="fault_enumeration", runs={"quick": 1200, "thorough": 8000}, real=REAL + ["pickle", "copy", "torch.save / torch.load"],
                stub=["the disk: a directory of complete, cut short or zero-tailed files; a full disk", "torchgdm.struct.struct3d.discretizer_cubic: eight-point stand-in"],
                measure="pairs of consecutive operations (kind, way of saving, damage, callee and options) seen over all runs", time_note=VT,
                rule="seeded histories over one to four simulated processes (forked pristine ones, some importing the package only while restoring) that "
                     "share nothing but a simulated disk: constructions, calls (failing, interrupted, in threads), moves, copies, saves (torn, disk full), "
                     "restores, destruction of originals or copies; every call compared with the same call on newly built objects; non-trivial: at least "
                     "one call and one copy or restore; distinct by digest of the plan"),
}
