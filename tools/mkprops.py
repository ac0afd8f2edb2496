#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: the P list below)."""
import json, os
S = "src/pymiediff/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S+f for f in files],
            state=[dict(name=a, meaning=b, where=S+c) for a, b, c in state],
            mechanism=[dict(name=a, where=S+b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Results do not depend on what was computed before",
  "Every public call (particle methods, the functional Mie API, special functions, materials, helpers, torchgdm bridge) returns exactly what the same call on newly built, identical objects returns in a process that has done nothing else. Nothing that happened earlier may change it: other calls with different, equal or nearly equal inputs (including the same tensor object whose contents the caller has since changed), failed calls, calls under no_grad or inference_mode, other particles sharing the same material objects, repeated moves, printing, or releasing earlier results. Memoisation is allowed only when it is unobservable.",
  ["histories", "inputs"], "all sequences of public calls and object constructions in one process, over any sharing of materials, tensors and particles",
  "Each test builds new objects and calls a function once or twice; no test replays a call after a different history, so stale caches, key collisions and state left on shared objects are never exercised.",
  ["main.py", "multishell.py", "coreshell.py", "special.py", "helper/helper.py", "helper/tg.py", "materials/mat.py"],
  [("permittivity memo table keyed by wavelength", "materials/mat.py:MatDatabase._get_eps_single_wl"),
   ("stateless functional core", "multishell.py"), ("particle keeps only its own inputs", "main.py:Particle")],
  [("lookup_eps", "memo of permittivity per wavelength, shared by every particle that uses the material", "materials/mat.py")],
  ["return values of public functions"])

p("C02", "Gradients do not depend on what was computed before",
  "The gradient of any differentiable result with respect to the inputs that produced it (radii, permittivities, wavelengths or wavevectors, angles, probe positions, refractive indices) is available and has the same value whatever was evaluated before or in between, in whatever order forward and backward passes are interleaved, and whether or not a material has been evaluated at that wavelength before. Results that share only input tensors and database materials are differentiable independently of each other: one backward pass never consumes, blocks or pollutes another, and no gradient ever reaches an input that did not take part in that call.",
  ["histories", "schedules"], "all interleavings of forward calls, no-grad calls and backward passes over shared materials, particles and leaves",
  "Gradient tests run one forward and one backward pass on new objects, so a memo table that holds a tensor of an old graph, or no graph at all, is never seen.",
  ["materials/mat.py", "main.py", "multishell.py", "special.py", "helper/helper.py", "helper/tg.py"],
  [("custom autograd functions for scipy Bessel functions", "special.py:_AutoDiffJn"),
   ("interpolation/Sellmeier differentiable in wavelength", "materials/mat.py:MatDatabase._eval"),
   ("no in-place writes on graph tensors", "special.py:pi_tau")],
  [("lookup_eps", "memo of permittivity per wavelength; must not carry autograd history", "materials/mat.py")],
  ["torch.autograd.grad / backward of public results"])

p("C03", "Inputs handed in by the caller are never modified",
  "No public call, and no backward pass through its result, ever changes an object that the caller passed in: tensors, NumPy arrays, lists and dictionaries keep bit-identical contents, dtype, shape, device, requires_grad and .grad. This holds at every instant during the call (so a concurrent reader never sees altered data), and also when the call fails, is interrupted, or is later differentiated, including special values such as exact zeros.",
  ["inputs", "fault_sequences", "schedules"], "all public calls and argument kinds, at every intermediate step, with or without a fault during the call or its backward pass",
  "Tests use their inputs once and look only at outputs; nothing compares an input before and after a call, let alone in the middle of one or after an interrupted one.",
  ["special.py", "multishell.py", "main.py", "helper/helper.py", "helper/tg.py", "materials/mat.py"],
  [("out-of-place recurrences", "special.py"), ("zero-argument guard in backward passes", "special.py:bessel2ndDer"),
   ("dictionary squeezing works on the result only", "helper/helper.py:_squeeze_dimensions")],
  (), ["caller-owned tensors, arrays and containers"])

p("C04", "Computed results belong to the caller",
  "Values that a call computes are the caller's to modify: overwriting, extending, clearing or flagging them in place (tensors, lists, dictionaries, requires_grad) never changes the result of any later call, of any other particle or material, or any input object. Two calls never hand out the same mutable computed object.",
  ["histories"], "all histories of calls interleaved with in-place modification of earlier computed results (inputs echoed back as metadata are excluded)",
  "Tests never write into a returned object and then call again, so an internal table or template handed out by reference goes unnoticed.",
  ["materials/mat.py", "main.py", "multishell.py", "special.py", "helper/helper.py", "helper/tg.py"],
  [("permittivity lookup returns a value per call", "materials/mat.py:MatDatabase.get_epsilon"),
   ("results assembled per call", "multishell.py:cross_sections")],
  [("lookup_eps", "memo entries must not be reachable through results", "materials/mat.py")],
  ["results of later calls"])

p("C05", "An interrupted or failing call leaves no trace",
  "If a call is interrupted at any point (Ctrl-C or another exception delivered between two statements, or an allocation or tensor operation failing inside it), it either raises or returns the complete correct result, never a partial one. Afterwards every object involved and the process state (gradient mode, default dtype, RNG states, warning filters, NumPy error state, standard streams, working directory) are as before, and repeating the call, or making any other call, gives the correct result; an interrupted device move can simply be repeated.",
  ["crash_points", "fault_sequences"], "every statement of the library and every tensor operation as the point of failure, in any history, including during backward passes and constructors",
  "No test injects a failure; the statement at which an exception arrives ranges over thousands of points per call.",
  ["main.py", "multishell.py", "special.py", "materials/mat.py", "helper/helper.py", "helper/tg.py"],
  [("pure computation, results assembled last", "multishell.py"), ("memo entry written only after a complete evaluation", "materials/mat.py:MatDatabase._get_eps_single_wl"),
   ("constructors assign state on the new object only", "main.py:Particle.__init__")],
  [("lookup_eps", "memo table updated during calls", "materials/mat.py"), ("device fields", "updated by set_device", "main.py")],
  ["exceptions, later results, process-wide state"])

p("C06", "Concurrent use from several threads gives the sequential results",
  "Any number of threads may evaluate, differentiate, construct and print particles and materials at the same time, sharing particles, materials and input tensors and naming the same device: each call returns what it would return if run alone, no call fails because of another thread's timing, and no call waits forever.",
  ["schedules", "histories"], "all interleavings, at statement granularity inside the library, of public calls in several threads that share objects",
  "All tests are single-threaded.",
  ["materials/mat.py", "main.py", "multishell.py", "special.py", "helper/helper.py", "helper/tg.py"],
  [("per-call local state only", "multishell.py"), ("memo table with idempotent inserts", "materials/mat.py:MatDatabase._get_eps_single_wl"),
   ("moving a material touches its memo table", "materials/mat.py:MatDatabase.set_device")],
  [("lookup_eps", "memo table shared by threads", "materials/mat.py")], ["per-thread call histories against the sequential reference"])

p("C07", "Material files: the exact data or an error, under any I/O fault",
  "Loading a material from a file either raises an error or yields a material whose permittivity is exactly that of the bytes delivered (every row of tabulated n or n,k data used, or the full Sellmeier formula), however the operating system slices reads and whatever the locale. A truncated, torn, corrupted, malformed or unsupported file, or a failing read, never produces a material with missing, shifted, zero-filled or reinterpreted values relative to what those bytes say; such a failure leaves nothing behind, so the same load succeeds once the file is good, and a rewritten file is read anew. The file is closed in every case.",
  ["fault_sequences", "crash_points", "inputs"], "all sequences of loads with open errors, short or failing reads, truncation at any byte, lost, zeroed or flipped blocks, and rewrites between loads",
  "Tests never load a user file and never see a failing or damaged one; only intact packaged files on a healthy disk are read.",
  ["materials/mat.py"],
  [("yaml load of the whole stream with explicit encoding", "materials/mat.py:MatDatabase.__init__"), ("row parser", "materials/mat.py:_load_tabulated"),
   ("formula parser", "materials/mat.py:_load_formula")],
  [("dset / wl_dat / eps_dat / coeff", "parsed file content", "materials/mat.py")],
  ["exceptions raised by construction or evaluation, permittivity values, open file handles"])

p("C08", "Built-in material database independent of directory order",
  "The packaged material database offers the same materials, each name bound to its own data file, values and displayed name, whatever order the file system lists the data folder in, whatever the locale, time, working directory or hash seed, whatever other files (backups, editor or system files) lie next to the data, and whatever the letter case used for the name. A listing that fails leaves nothing behind, so that a retried import works. Lookups of unknown names fail cleanly at any time without affecting later lookups.",
  ["configurations", "histories"], "all enumeration orders of the data folder and process environments at import, then any lookup sequence",
  "Tests import once, in the one directory order and environment of the machine they run on, and use two or three of the seventeen materials.",
  ["materials/mat.py", "materials/__init__.py"],
  [("registry filled at import by iterating over the data folder", "materials/mat.py"), ("case-insensitive lookup", "materials/mat.py:MatDatabase.__init__")],
  [("REFINDEX_DATA", "name -> (file, display name)", "materials/mat.py")],
  ["list_available_materials(), MatDatabase(name)"])

p("C09", "Objects compute wholly on the device they were moved to",
  "After a particle or material is created on or moved to a device (a material also moves with each particle that is created with it or moved, and lives where it was moved last), everything it stores and every tensor its calls compute lies on that device, no call mixes tensors of two devices, and values equal those computed on the CPU. This holds for any sequence of moves (including there and back, after calls that filled lookup tables, and moves that fail for lack of memory and are repeated), for materials shared by particles living on different devices, and for the functional API when its tensor inputs live on one device and the remaining arguments are plain numbers.",
  ["histories", "configurations", "fault_sequences"], "all sequences of constructions, calls and moves over several simulated devices with allocation failures (pena and torch backends)",
  "The test machines have one device (the CPU), on which every placement mistake is invisible.",
  ["main.py", "materials/mat.py", "multishell.py", "special.py", "helper/helper.py", "helper/tg.py"],
  [("set_device moves all stored tensors", "main.py:Particle.set_device"), ("lookup table transfer", "materials/mat.py:MatDatabase.set_device"),
   ("new tensors created with device=", "multishell.py")],
  [("device, r_layers, eps_layers, r_c, r_s", "placement of particle data", "main.py"), ("wl_dat, eps_dat, lookup_eps, eps_scalar", "placement of material data", "materials/mat.py")],
  ["device of stored tensors and of results; mixing errors"])

p("C10", "No coupling to ambient process state",
  "Results are a function of the arguments only: they do not depend on random-number state, the clock, locale, working directory, warning filters, standard streams, gradient mode or the current thread, so repeating a calculation (including model extraction for torchgdm) with the same inputs reproduces it. Conversely a call leaves that state as it found it: it does not consume or reseed random generators, or change the default dtype, gradient mode, thread count, NumPy error handling, warning filters, environment or working directory, and with verbose=False it prints nothing.",
  ["configurations", "histories"], "all public calls under any ambient state: seeds, clock jumps, modes, directories, filters, thread",
  "Tests run in one ambient state and never compare it before and after, nor repeat a calculation under another one.",
  ["helper/tg.py", "main.py", "multishell.py", "special.py", "materials/mat.py", "helper/helper.py"],
  [("unscrambled Halton sequence for support points", "helper/tg.py:extract_GPM_sphere_miediff"), ("clock used only for messages", "helper/tg.py")],
  (), ["results; RNG states; torch/NumPy/warnings global settings; stdout"])

p("C11", "The torchgdm autodiff patch is transparent",
  "Activating the library's torchgdm autodiff patch, at any moment, any number of times, before or after simulations were created or run, never changes the results of torchgdm simulations beyond rounding, whether they contain Mie-based effective-dipole or GPM structures or several of them combined, and does not alter the structures or particles it is used with. Afterwards gradients with respect to particle parameters flow through such a simulation and equal those obtained in any other order of operations.",
  ["histories"], "all interleavings of structure extraction, combination, simulation runs, observables, backward passes and patch activations in one process",
  "Tests exercise one structure class once, never the patch together with earlier or later unpatched simulations, nor twice.",
  ["helper/tg.py"],
  [("replacement of linear-system methods", "helper/tg.py:patch_torchgdm_autodiff"), ("combination without in-place concatenation", "helper/tg.py:combine_gpm_structures_autodiff"),
   ("structure classes", "helper/tg.py:StructAutodiffMieEffPola3D")],
  [("methods of torchgdm linear-system classes", "process-wide, replaced by the patch", "helper/tg.py")],
  ["cross sections and fields of torchgdm simulations; gradients"])

p("C12", "Nothing is retained once results are dropped",
  "When the caller drops a result, everything that was only needed for it is released: no input tensor, result, probe grid or autograd graph stays reachable from the library, whatever the history of forward, backward, failed, interrupted and no-grad calls was. Repeating the same calls any number of times does not make the library hold more tensors; the permittivity memo of a material holds at most one value per distinct wavelength and no caller data.",
  ["histories", "fault_sequences"], "all call histories, with failures and interruptions, followed by release of the caller's references",
  "Tests exit after a few calls; retention only shows over long histories (optimisation loops) and is not an output.",
  ["materials/mat.py", "main.py", "multishell.py", "special.py", "helper/tg.py"],
  [("memo table per material", "materials/mat.py:MatDatabase._get_eps_single_wl"), ("saved tensors in autograd contexts only", "special.py:_AutoDiffJn")],
  [("lookup_eps", "memo of permittivities", "materials/mat.py")], ["weak references to caller tensors; number of live tensors"])

p("C13", "Importing works in any order and without optional packages",
  "Importing the package or any of its modules, in any order, from any working directory, repeatedly, and with any of the optional packages (the extras of pyproject.toml: torchgdm, tqdm, treams, pymiecs, pymiescatt) absent or broken (importing it raises ImportError), succeeds and yields the same working API for everything that does not need the missing package; using a feature whose package is missing raises an error that names it (patch_torchgdm_autodiff, which only modifies torchgdm, does nothing without it). An import that is interrupted or fails part-way for a transient reason can simply be retried in the same process and then behaves as if nothing had happened.",
  ["configurations", "crash_points"], "all import orders, all subsets of missing optional packages (torchgdm, tqdm, treams, scattnlay, pymiecs, PyMieScatt, miepython), interruption at any statement executed during import followed by a retry",
  "Tests import the package once, in one order, with every optional package installed.",
  ["__init__.py", "helper/__init__.py", "helper/tg.py", "materials/__init__.py", "materials/mat.py", "main.py", "coreshell.py"],
  [("optional-dependency probe with fallback classes", "helper/tg.py"), ("lazy imports inside methods", "main.py"), ("circular import of materials", "materials/mat.py")],
  [("REFINDEX_DATA", "filled during import", "materials/mat.py")], ["import outcome, API smoke results, error messages"])

p("C14", "Saved particles and materials survive a restart",
  "A particle or material that is serialised (pickle, torch.save or deepcopy) at any point of its life - before or after evaluations, moves, failures or use in other threads - and restored in the same or a new process computes exactly what the original computes, now and after further use of either; restored objects are independent of the originals. Saving never changes the object, also when the disk is full, and a copy cut short by a crash never loads as an object that computes anything else. Neither the original data file nor the working directory is needed to restore or to use what was saved. (deepcopy is claimed for particles without tensors that track gradients: torch itself refuses to deepcopy non-leaf tensors.)",
  ["crash_points", "histories"], "all histories before and after saving, restore in a process with no other history, crash while writing at any byte",
  "No test serialises an object.",
  ["main.py", "materials/mat.py"],
  [("plain attributes only: tensors, numbers, parsed data", "main.py:Particle"), ("parsed data kept in memory, no open file or path needed", "materials/mat.py:MatDatabase")],
  [("r_layers, eps_layers, mat_layers, mat_env", "particle state", "main.py"), ("wl_dat, eps_dat, coeff, lookup_eps", "material state", "materials/mat.py")],
  ["results of restored objects"])

# ---- properties that this family cannot decide (pure functions of the input)
def na(id, title, st, files, mech):
    p(id, title, st, ["inputs"], "all physically admissible inputs", "Tests sample a handful of inputs.", files, mech)
na("N01", "Energy conservation and passivity",
   "For passive particles extinction equals scattering plus absorption, absorption and scattering are non-negative, and absorption vanishes for lossless particles, per multipole and in total, for every size, material, shell structure and environment.", ["multishell.py"], [("cross-section assembly", "multishell.py:cross_sections")])
na("N02", "Backends agree with each other and with reference Mie codes",
   "All backends, precisions and recurrence choices give the same coefficients, cross sections, angular patterns and fields within their stated precision wherever they are valid, and agree with independent Mie solvers.", ["multishell.py", "special.py"], [("three backends", "multishell.py:mie_coefficients")])
na("N03", "Layer-splitting equivalence",
   "Splitting a homogeneous region into fictitious layers of equal permittivity, or describing a core-shell through the legacy or multilayer interface, leaves every observable unchanged.", ["multishell.py", "main.py"], [("legacy inputs normalised to layers", "multishell.py:_as_layer_inputs")])
na("N04", "Gradients equal the derivatives of the values",
   "The gradient of every differentiable output with respect to every input equals the limit of finite differences, for all backends.", ["special.py", "multishell.py", "helper/helper.py"], [("custom backward formulas", "special.py:_AutoDiffJn")])
na("N05", "Vectorised evaluation equals one-by-one evaluation",
   "Evaluating many particles, wavelengths, angles or positions in one call gives the same values as evaluating each alone with the same truncation order.", ["multishell.py"], [("broadcasting", "multishell.py:_broadcast_mie_layers")])
na("N06", "Convergence and stability of the series",
   "The automatic truncation is sufficient for every size and index, results are finite and do not change when the order is raised, up to very large and strongly absorbing particles.", ["multishell.py", "special.py", "helper/helper.py"], [("truncation criteria", "helper/helper.py:get_truncution_criteroin_pena2009")])
na("N07", "Near fields satisfy Maxwell boundary conditions",
   "Tangential electric and magnetic fields are continuous at every layer boundary and fields decay into the far-field pattern.", ["multishell.py", "special.py"], [("region-wise expansion", "multishell.py:nearfields")])
na("N08", "Optical theorem and angular integration",
   "The forward amplitude gives the extinction cross section and the integral of the angular pattern gives the scattering cross section.", ["multishell.py", "special.py"], [("angular sums", "multishell.py:angular_scattering")])
na("N09", "Invalid geometry is rejected",
   "Inconsistent, unordered or incomplete particle descriptions raise an error and never yield numbers.", ["main.py", "multishell.py"], [("constructor checks", "main.py:Particle.__init__")])
na("N10", "Special functions satisfy their defining relations",
   "Spherical Bessel, Hankel, Riccati-Bessel and angular functions satisfy recurrences and Wronskians for all orders and complex arguments.", ["special.py"], [("recurrences", "special.py")])
na("N11", "Coordinate and field transforms are isometries",
   "Cartesian/spherical transforms invert each other and preserve field norms, at the poles and origin too; rotations are orthogonal.", ["helper/helper.py", "helper/tg.py"], [("transforms", "helper/helper.py:transform_xyz_to_spherical")])
na("N12", "Effective models reproduce Mie scattering",
   "Effective-dipole and GPM models extracted for torchgdm reproduce the particle's scattering for any incidence within their stated accuracy.", ["helper/tg.py"], [("extraction", "helper/tg.py:extract_GPM_sphere_miediff")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
