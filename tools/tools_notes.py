"""Texts of MANIFEST.json."""
D = "deterministic simulation: "
TECH = {
 "C01": D + "seeded call histories over shared objects, refinement against the same call in a pristine process",
 "C02": D + "seeded interleavings of forward/backward passes, gradients compared with a pristine process",
 "C03": D + "seeded histories with injected interruptions, arguments compared at every library statement",
 "C04": D + "seeded histories with in-place writes into results, later calls compared with a pristine process",
 "C05": D + "exception injected at a seeded statement or tensor operation, then state comparison and retry",
 "C06": D + "seeded thread scheduler at statement / tensor-operation granularity, sequential reference",
 "C07": D + "simulated disk (short reads, EINTR, errors, torn/flipped/lost data), independent reading of the delivered bytes",
 "C08": D + "simulated directory listing, environment and failing scans around a fresh import, lookup histories",
 "C09": D + "simulated accelerators (labelled tensors, placement rules at every torch call, out-of-memory) over move/call histories",
 "C10": D + "seeded ambient state (RNG, clock, locale, cwd, streams, threads) around every call of a history",
 "C11": D + "seeded histories of structures, simulations, patch activations and backward passes, pristine-process reference",
 "C12": D + "seeded histories with faults, weak references and live-storage census at the end",
 "C13": D + "simulated environments: import order, missing/broken packages, interruption at a seeded statement, retry",
 "C14": D + "crash/restart: save at a seeded point, torn or complete file, restore in a new process, pristine reference",
}
T = "Seeded search, not exhaustive: a violation outside the explored histories is possible. "
NOTE = {
 "C01": T + "Oracle: the same call on newly built objects in a forked process that has done nothing else; exact comparison up to allocation-dependent rounding (1e-9 relative).",
 "C02": T + "Oracle: gradients of the same call alone in a pristine process. Differentiates at random cotangents; graph sharing through one particle's own tensors is excluded (documented).",
 "C03": T + "Arguments compared bit for bit at each traced library statement; statements inside torch/NumPy kernels are atomic.",
 "C04": T + "Metadata echoed from the inputs is excluded from scribbling.",
 "C05": T + "Faults at Python statements and torch operations; not inside C kernels.",
 "C06": T + "Preemption at library statements and torch operations (GIL-switch points inside C code are not modelled); locks are simulated.",
 "C07": T + "The file layer below open() is simulated; the oracle is an independent strict reader of the same bytes; damage that yields another valid file is that file's data.",
 "C08": T + "Listing order/contents, locale, cwd, clock, hash seed simulated; oracle reads the YAML files itself.",
 "C09": T + "Accelerators are simulated by labels on CPU tensors with the placement rules of torch on a multi-device machine; no real GPU kernels.",
 "C10": T + "Ambient state is set and compared around each call.",
 "C11": T + "torchgdm runs unmodified except its discretiser of GPM geometry (stand-in); tolerance 1e-4 relative.",
 "C12": T + "Counts tensor storages reachable after a full garbage collection.",
 "C13": T + "Package absence is simulated by an import hook; interruption at traced statements of pymiediff modules.",
 "C14": T + "Crash modelled as a prefix (or zero-filled tail) of the saved bytes.",
}
PURE = "Pure function of its input: no schedule, clock, I/O, fault, history or second party on which it could depend, so simulation would only be input sampling. "
REASON = {"N%02d" % i: PURE for i in range(1, 13)}
REASON["N01"] += "Energy balance is an algebraic identity of one call."
REASON["N02"] += "Needs a numerical comparison of backends."
REASON["N03"] += "Needs a metamorphic comparison of inputs."
REASON["N04"] += "The value of a gradient within one call is numerical analysis; its independence of history is C02."
REASON["N05"] += "Needs a metamorphic comparison of inputs."
REASON["N06"] += "Numerical convergence."
REASON["N07"] += "Numerical identity of one field evaluation."
REASON["N08"] += "Numerical identity."
REASON["N09"] += "Argument validation of one constructor."
REASON["N10"] += "Numerical identities of special functions."
REASON["N11"] += "Algebraic identities."
REASON["N12"] += "Accuracy of a fitted model."
