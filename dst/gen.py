"""Seeded workload generators: objects, calls and their near-duplicates (plain JSON)."""
import copy, math

MATS = ["Si", "Ge", "Ag", "Au", "SiO2", "GaAs", "TiO2", "Al", "Si3N4", "aSi", "InP", "GaN"]
W0 = [400.0, 450.0, 500.0, 550.0, 600.0, 633.0, 700.0, 750.0, 800.0, 850.0, 532.25, 588.1, 499.9997]


def T(d, dt="float64", rg=False, id=None):
    s = {"d": d, "dt": dt}
    if rg:
        s["rg"] = True
    if id:
        s["id"] = id
    return {"T": s}


def CT(re, im, dt="complex128", rg=False, id=None):
    return T({"re": re, "im": im}, dt, rg, id)


def NP(d, dt="float64"):
    return {"np": {"d": d, "dt": dt}}


def C(re, im):
    return {"c": [re, im]}


def FN(name, *a, **k):
    d = {"fn": name, "a": list(a)}
    if k:
        d["k"] = k
    return d


def M(on, name, *a, **k):
    d = {"m": name, "on": on, "a": list(a)}
    if k:
        d["k"] = k
    return d


def wls(r, n=None):
    n = n or r.choice([1, 1, 2, 3])
    b = r.sample(W0, n) if r.random() < 0.5 else sorted(r.sample(W0, n))
    return [near(r, x) if r.random() < 0.25 else x for x in b]


def near(r, x):
    """a value close to, but different from, x (memo-key collisions)"""
    return r.choice([x * (1 + 1e-7), x * (1 + 1e-6), x + 1e-4, x + 1e-3, x + 0.004, x + 0.04, x + 0.3, x - 0.3,
                     x + 1.0, float(round(x)), x * (1 + 1e-5), x + 0.49])


def far(r, x):
    """another value altogether, of a plausible size (partial memo keys)"""
    if x == 0.0:
        return r.choice([0.3, 1.0])
    return r.choice([x * 1.5, x * 2.25, x * 0.6, x * 4.0 if abs(x) < 30 else x * 1.25])


def reorder(r, d):
    """the same numbers in another order, or some of them twice or not at all"""
    d = list(d)
    x = r.random()
    if x < 0.45:
        return d[::-1]
    if x < 0.8:
        k = r.randrange(1, len(d))
        return d[k:] + d[:k] if r.random() < 0.6 else sorted(d)
    if x < 0.9:
        return d[:-1] + [d[0]]
    return d[:-1] if len(d) > 2 else [d[0], d[0]]


TG = ["helper.tg.rotation_x", "helper.tg.rotation_y", "helper.tg.rotation_z", "x.plane_waves", "helper.tg.setup_plane_waves_configs", "x.mie_ab", "x.effpola"]
UNIFORM = ["get_cross_sections", "get_mie_coefficients", "get_angular_scattering", "get_nearfields", "get_material_permittivities",
           "x.particle_state", "get_epsilon", "x.repr_of", "x.material_twice"] + \
          [m + f for m in ("multishell.", "coreshell.") for f in ("cross_sections", "mie_coefficients", "angular_scattering", "nearfields")] + \
          ["special." + f for f in ("sph_jn", "sph_yn", "sph_jn_der", "sph_yn_der", "sph_h1n", "sph_h1n_der", "psi", "chi", "xi",
                                    "sph_jn_torch", "sph_yn_torch", "sph_h1n_torch", "psi_torch", "chi_torch", "xi_torch",
                                    "sph_jn_torch_via_rec", "D1n_torch", "pi_tau", "vsh", "vsh_pena", "bessel2ndDer")] + \
          ["x.pena_chain", "x.pena_q", "x.d3n", "x.fder", "x.grad_check", "x.materials_list", "materials.list_available_materials",
           "materials.list_available_materials"] + \
          ["helper." + f for f in ("interp1d", "transform_xyz_to_spherical", "transform_spherical_to_xyz",
                                   "transform_fields_spherical_to_cartesian", "plane_wave_expansion", "get_truncution_criteroin_wiscombe",
                                   "get_truncution_criteroin_pena2009", "detach_tensor", "num_center_diff")] + TG


class Gen:
    def __init__(self, r, allow=None, tg=True, heavy=0.04, scipy=True):
        self.r = r
        self.n = 0
        self.tg = tg; self.heavy = heavy; self.scipy = scipy
        self.mats = []; self.parts = []; self.ops = []
        self.leaf_mode = r.random() < 0.6
        self.named_mode = r.random() < 0.6
        self.bound = 0       # >0 while building a particle (its tensors must not be mutated later)
        self.argt = []       # tensors only used as direct call arguments
        self.simple = False  # amplitudes and orders as plain numbers only
        self.leaves = []     # gradient-carrying ones

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    # ---------------------------------------------------------------- objects
    def mat_spec(self):
        r = self.r
        x = r.random()
        if x < 0.72:
            nm = r.choice(MATS)
            nm = r.choice([nm, nm, nm.lower(), nm.upper()])
            k = {}
            if r.random() < 0.15:
                k["init_lookup_wavelengths"] = r.choice([{"L": wls(r, 2)}, T(wls(r, 2), "float32")])
            return FN("materials.MatDatabase", nm, **k)
        if x < 0.9:
            return FN("materials.MatConstant", r.choice([2.25, 4.0, 12.25, C(4.0, 0.3), C(-3.0, 0.8)]))
        self.bound += 1
        e = self.maybe_leaf(CT(r.choice([2.1, 6.0]), r.choice([0.0, 0.25]), r.choice(["complex128", "complex64"])), 0.5)
        self.bound -= 1
        return FN("materials.MatConstant", e)

    def add_mat(self, spec=None):
        i = self.fresh("m")
        s = dict(spec or self.mat_spec()); s["id"] = i
        self.ops.append({"op": "def", "id": i, "spec": s})
        self.mats.append(i)
        return {"v": i}

    def add_tensor(self, spec):
        i = self.fresh("t")
        s = copy.deepcopy(spec); s["T"]["id"] = i
        self.ops.append({"op": "def", "id": i, "spec": s})
        return {"v": i}

    def a_mat(self):
        r = self.r
        if self.mats and r.random() < 0.75:
            return {"v": r.choice(self.mats)}
        if r.random() < 0.5:
            return self.add_mat()
        return r.choice([1.5, 2.0, 3.5, C(2.0, 0.1), 1.33, self.maybe_leaf(CT(2.0, 0.1), 0.3)])

    def radii(self, L):
        r = self.r
        x = r.choice([20.0, 35.0, 50.0, 60.0, 70.0, 80.5, 90.0]) if r.random() < 0.9 else r.choice([5.0, 240.0, 420.0, 800.0])
        if r.random() < 0.2:      # not a round number
            x += r.choice([0.123456, 1.0 / 3.0, 7.0625, 0.0078125])
        out = [x]
        for _ in range(L - 1):
            x += r.choice([5.0, 10.0, 20.0, 30.25, 30.25, 12.34567])
            out.append(x)
        return out

    def maybe_leaf(self, spec, p=0.4):
        """an inline tensor, a named leaf (requires_grad) or a named plain tensor"""
        if self.leaf_mode and self.r.random() < p:
            spec = copy.deepcopy(spec); spec["T"]["rg"] = True
            return self.add_tensor(spec)
        if self.named_mode and self.r.random() < 0.25:
            same = [i for i, s in self.argt if s == spec] if not self.bound else []
            if same and self.r.random() < 0.7:
                return {"v": self.r.choice(same)}
            v = self.add_tensor(spec)
            if not self.bound:
                self.argt.append((v["v"], spec))
            return v
        return spec

    def particle_spec(self):
        r = self.r
        x = r.random()
        k = {}
        if x < 0.35:  # layers + materials
            L = r.choice([1, 2, 2, 3])
            rr = self.radii(L)
            k["r_layers"] = r.choice([{"L": rr}, self.maybe_leaf(T(rr, r.choice(["float32", "float64"])))])
            k["mat_layers"] = {"L": [self.a_mat() for _ in range(L)]}
        elif x < 0.65:  # layers + eps
            L = r.choice([1, 2, 3])
            rr = self.radii(L)
            re = [r.choice([2.25, 4.0, 9.0, 12.25]) for _ in range(L)]; im = [r.choice([0.0, 0.0, 0.2, 1.0]) for _ in range(L)]
            k["r_layers"] = self.maybe_leaf(T(rr))
            x = r.random()
            if x < 0.1:
                re, im = [re], [im]
            elif x < 0.2:
                re, im = [[[v] for v in re]], [[[v] for v in im]]
            elif x < 0.25:
                re, im = [[v] for v in re], [[v] for v in im]
            if 0.25 < x < 0.37:      # as plain numbers or real values
                k["eps_layers"] = r.choice([{"L": re}, {"L": [C(a, b) for a, b in zip(re, im)]}, T(re), T(re, "float32"), NP(re)])
            else:
                k["eps_layers"] = self.maybe_leaf(CT(re, im, r.choice(["complex128", "complex64"])))
        elif x < 0.8:  # legacy homogeneous
            rr = self.radii(1)
            k["r_core"] = r.choice([rr[0], self.maybe_leaf(T(rr[0]))])
            k["mat_core"] = self.a_mat()
        else:
            rr = self.radii(2)
            k["r_core"] = r.choice([rr[0], self.maybe_leaf(T(rr[0]))])
            k["r_shell"] = r.choice([rr[1], self.maybe_leaf(T(rr[1]))])
            k["mat_core"] = self.a_mat(); k["mat_shell"] = self.a_mat()
        k["mat_env"] = r.choice([1.0, 1.0, 1.33, 1.5, self.a_mat() if r.random() < 0.3 else 1.0])
        return {"fn": "Particle", "a": [], "k": k}

    def add_particle(self, spec=None):
        self.bound += 1
        s = spec or self.particle_spec()
        self.bound -= 1
        i = self.fresh("p")
        s = dict(s); s["id"] = i
        self.ops.append({"op": "def", "id": i, "spec": s})
        self.parts.append(i)
        return {"v": i}

    def a_part(self):
        if self.parts and self.r.random() < 0.8:
            return {"v": self.r.choice(self.parts)}
        return self.add_particle()

    def nlayers(self, pv):
        for o in self.ops:
            if o.get("id") == pv["v"]:
                k = o["spec"]["k"]
                if "r_shell" in k:
                    return 2
                if "r_core" in k:
                    return 1
                rl = k["r_layers"]
                if "v" in rl:
                    rl = [q["spec"] for q in self.ops if q.get("id") == rl["v"]][0]
                return len(rl["L"]) if "L" in rl else len(rl["T"]["d"])
        return 1

    # ---------------------------------------------------------------- argument helpers
    def k0(self, n=None, tensor=True):
        r = self.r
        w = wls(r, n)
        k = [2 * math.pi / x for x in w]
        dt = r.choice(["float64", "float64", "float32"])
        if len(k) == 1 and r.random() < 0.4:
            return self.maybe_leaf(T(k[0], dt), 0.3)
        if not tensor and r.random() < 0.2:
            return r.choice([NP(k), {"L": k}])
        return self.maybe_leaf(T(k, dt), 0.3)

    def wl(self):
        r = self.r
        w = wls(r)
        if r.random() < 0.12:    # beyond the data: extrapolated, clipped or rejected, but not at random
            w = [r.choice([60.0, 150.0, 205.0, 1900.0, 3000.0, 2e4, 9e4])] + w[1:] + ([r.choice(W0)] if r.random() < 0.5 else [])
            r.shuffle(w)
            return r.choice([{"L": w}, T(w, "float32"), T(w, "float64"), NP(w, "float32")] + ([self.add_tensor(T(w, "float32"))] if self.named_mode else []))
        if r.random() < 0.06:    # whole spectra
            n = r.choice([20, 70, 140])
            a = r.choice([300.0, 400.0, 450.5]); st = r.choice([0.5, 1.0, 3.25])
            w = [a + st * j for j in range(n)]
            return r.choice([T(w, "float32"), T(w, "float64"), {"L": w}])
        if len(w) == 1 and r.random() < 0.5:
            return r.choice([w[0], T(w[0], r.choice(["float32", "float64"])), int(w[0])])
        return r.choice([{"L": w}, NP(w), self.maybe_leaf(T(w, r.choice(["float32", "float64"]))),
                         T(w, "float32")])

    def backend(self, L, scipy=True):
        r = self.r
        if L > 2:
            return {"backend": "pena"} if r.random() < 0.5 else {}
        b = ["pena", "torch", "torch"] + (["scipy"] if scipy and self.scipy else [])
        return {"backend": r.choice(b)} if r.random() < 0.8 else {}

    def solver_kw(self, L, scipy=True):
        r = self.r
        k = self.backend(L, scipy)
        if r.random() < 0.35:
            k["n_max"] = r.choice([1, 2, 3, 4, 5])
            if not self.simple and r.random() < 0.1:
                k["n_max"] = T(k["n_max"], "int64")
        if r.random() < 0.15:
            k["precision"] = "single"
        if k.get("backend") == "torch" and r.random() < 0.25:
            k["which_jn"] = "ratios"
        return k

    def theta(self):
        r = self.r
        th = r.choice([[0.0, 0.7, 1.5], [0.1], [0.0, 3.141592653589793], [0.3, 2.2]] if r.random() < 0.8 else
                      [[-0.5, 0.0, 0.5], [-2.2], [4.0, 7.5, -1e-3], [6.283185307179586, 3.5]])
        return self.maybe_leaf(T(th, r.choice(["float64", "float32"])), 0.15)

    def probe(self, f64=False):
        r = self.r
        pts = r.choice([[[0.0, 0.0, 150.0], [120.0, 10.0, -30.0]], [[10.0, 5.0, 3.0]], [[200.0, 0.0, 0.0], [30.0, 30.0, 1.0]],
                        [[0.0, 0.0, 0.0], [0.0, 0.0, -90.0]], [[0.0, 140.0, 0.0]]])
        pts = [[c + (0.5 if r.random() < 0.1 else 0.0) for c in p] for p in pts]
        return self.maybe_leaf(T(pts, "float64"), 0.1)

    def z(self):
        r = self.r
        n = r.choice([1, 2, 3])
        re = [r.choice([0.5, 1.0, 2.5, 4.0, 7.3, 0.1, 3.14]) if r.random() < 0.9 else r.choice([0.001, 12.5, 24.0, 55.0]) for _ in range(n)]
        im = [r.choice([0.0, 0.0, 0.2, 1.0]) for _ in range(n)]
        x = r.random()
        if x < 0.15:
            re[0] = 0.0; im[0] = 0.0
        elif x < 0.3:      # at the edge of the guarded range
            re[-1] = r.choice([1e-9, 3e-9, 1e-10, 1e-7]); im[-1] = 0.0
        return self.maybe_leaf(CT(re, im), 0.6)

    def order(self):
        r = self.r
        return r.choice([1, 2, 3, 4, 6]) if r.random() < 0.88 else r.choice([0, 9, 12])

    def orders(self):
        """One question for very different orders (or options that decide how much is computed)."""
        r = self.r
        x = r.random()
        if x < 0.6:
            c = self.one_special("special." + r.choice(["sph_jn", "sph_yn", "psi", "chi", "xi", "sph_h1n", "sph_jn_der", "sph_jn_torch", "sph_yn_torch",
                                                        "psi_torch", "chi_torch", "xi_torch", "pi_tau"]))
            out = []
            for n in r.sample([0, 1, 3, 9, 12], 3):
                d = copy.deepcopy(c); d["a"][0] = n
                out.append(d)
            return out
        for _ in range(60):
            c = self.call_functional() if x < 0.8 else self.call_particle()
            nm = c.get("m") or c["fn"]
            if any(q in nm for q in ("cross_sections", "coefficients", "scattering")):
                break
        else:
            return [c]
        out = []
        for n in r.sample([None, 1, 3, 9], 3):
            d = copy.deepcopy(c); d.setdefault("k", {}).pop("n_max", None)
            if n is not None:
                d["k"]["n_max"] = n
            out.append(d)
        return out

    def eps_env(self):
        r = self.r
        return r.choice([1.0, 1.0, 1.77, 2.25, T(1.77), T([1.77])])

    # ---------------------------------------------------------------- calls
    def call(self):
        r = self.r
        x = r.random()
        if x < 0.40:
            return self.call_particle()
        if x < 0.62:
            return self.call_functional()
        if x < 0.77:
            return self.call_material()
        if x < 0.90:
            return self.call_special()
        if self.tg and x < 0.94:
            return self.call_tg()
        return self.call_helper()

    def call_particle(self, p=None):
        r = self.r
        p = p or self.a_part(); L = self.nlayers(p)
        x = r.random()
        if x < 0.4:
            return M(p, "get_cross_sections", self.k0(tensor=False), **self.solver_kw(L))
        if x < 0.55:
            k = self.solver_kw(L)
            if k.get("backend") in ("torch", "scipy") and r.random() < 0.4:
                k["return_internal"] = True
            return M(p, "get_mie_coefficients", self.k0(tensor=False), **k)
        if x < 0.7:
            return M(p, "get_angular_scattering", self.k0(), self.theta(), **self.solver_kw(L))
        if x < 0.85:
            k = self.solver_kw(L, scipy=False)
            k.setdefault("n_max", r.choice([2, 3]))
            if k.get("backend") != "torch" and r.random() < 0.9:
                k.pop("precision", None)
            if r.random() < 0.25:
                k["E_0"] = self.amplitude()
            return M(p, "get_nearfields", self.k0(1 if k.get("backend") == "torch" or r.random() < 0.7 else 2), self.probe(), **k)
        if x < 0.95:
            return M(p, "get_material_permittivities", self.k0())
        return FN("x.particle_state", p)

    def layer_kw(self, L=None):
        r = self.r
        L = L or r.choice([1, 2, 3])
        npart = r.choice([1, 1, 2, 3])
        k = {}
        if L <= 2 and r.random() < 0.4:  # legacy names
            rr = [self.radii(2) for _ in range(npart)]
            sc = npart == 1 and r.random() < 0.5
            k["r_c"] = (rr[0][0] if r.random() < 0.4 else T(rr[0][0])) if sc else self.maybe_leaf(T([x[0] for x in rr]))
            eps = [r.choice([2.25, 4.0, 12.25]) for _ in range(npart)]
            k["eps_c"] = (eps[0] if r.random() < 0.4 else C(eps[0], 0.1)) if sc else self.maybe_leaf(CT(eps, [0.1] * npart))
            if L == 2:
                k["r_s"] = (rr[0][1] if not isinstance(k["r_c"], dict) else T(rr[0][1])) if sc else T([x[1] for x in rr])
                k["eps_s"] = (C(3.0, 0.2) if isinstance(k["eps_c"], dict) else 3.0) if sc else CT([3.0] * npart, [0.2] * npart)
            return k, L
        rr = [self.radii(L) for _ in range(npart)]
        one = npart == 1 and r.random() < 0.6
        x = r.random()
        k["r_layers"] = self.maybe_leaf(T(rr[0] if one else rr))
        re = [[r.choice([2.25, 4.0, 9.0, 12.25]) for _ in range(L)] for _ in range(npart)]
        im = [[r.choice([0.0, 0.2, 1.0]) for _ in range(L)] for _ in range(npart)]
        if x < 0.15:       # with an explicit axis for the wavelengths
            re, im = [[[[v] for v in q] for q in z] for z in (re, im)]
        k["eps_layers"] = self.maybe_leaf(CT(re[0] if one and x < 0.85 else re, im[0] if one and x < 0.85 else im))
        return k, L

    def call_functional(self):
        r = self.r
        k, L = self.layer_kw()
        mod = r.choice(["multishell", "multishell", "coreshell"])
        if r.random() < 0.6:
            k["eps_env"] = self.eps_env()
        x = r.random()
        if x < 0.4:
            k.update(self.solver_kw(L))
            return FN(mod + ".cross_sections", self.k0(), **k)
        if x < 0.6:
            k.update(self.solver_kw(L))
            if k.get("backend") in ("torch", "scipy") and r.random() < 0.4:
                k["return_internal"] = True
            return FN(mod + ".mie_coefficients", self.k0(), **k)
        if x < 0.8:
            k.update(self.solver_kw(L))
            return FN(mod + ".angular_scattering", self.k0(), self.theta(), **k)
        k.update(self.solver_kw(L, scipy=False)); k.setdefault("n_max", r.choice([2, 3]))
        if k.get("backend") == "torch" and r.random() < 0.9:
            k["backend"] = "pena"
        if k.get("backend") != "torch" and r.random() < 0.9:
            k.pop("precision", None)
        if r.random() < 0.4:
            k["E_0"] = self.amplitude()
        return FN(mod + ".nearfields", self.k0(1), self.probe(), **k)

    def amplitude(self):
        r = self.r
        return r.choice([2.0, C(0.5, 0.5)]) if self.simple or r.random() < 0.5 else self.maybe_leaf(r.choice([T(2.0), CT(0.5, 0.5), CT([1.5], [0.0])]), 0.5)

    def cosines(self):
        """in range, at its ends, and beyond it by rounding or by far"""
        r = self.r
        return self.maybe_leaf(T(r.choice([[0.5], [1.0, -1.0, 0.2], [0.0, 0.9]] if r.random() < 0.75 else
                                          [[1.0000001, 0.3, -1.00001], [2.0, -1.5], [-1.0000000000000002, 1.0000000000000002]])))

    def call_material(self):
        r = self.r
        m = {"v": r.choice(self.mats)} if self.mats and r.random() < 0.9 else self.add_mat()
        x = r.random()
        if x < 0.85:
            return M(m, "get_epsilon", self.wl())
        if x < 0.93:
            return FN("x.repr_of", m)
        return FN("x.material_twice", m, self.wl())

    def call_special(self):
        r = self.r
        n = self.order()
        nn = r.choice([n, n, T(n, "int64")])
        x = r.random()
        if x < 0.3:
            return FN("special." + r.choice(["sph_jn", "sph_yn", "sph_jn_der", "sph_yn_der", "sph_h1n", "sph_h1n_der",
                                             "psi", "chi", "xi"]), nn, self.z())
        if x < 0.55:
            k = {}
            if r.random() < 0.3:
                k["precision"] = "single"
            return FN("special." + r.choice(["sph_jn_torch", "sph_yn_torch", "sph_h1n_torch", "psi_torch", "chi_torch",
                                             "xi_torch", "sph_jn_torch_via_rec", "D1n_torch"]), nn, self.z(), **k)
        if x < 0.7:
            return FN("x.pena_chain", n, self.z(), **({"precision": "single"} if r.random() < 0.3 else {}))
        if x < 0.75:
            return FN("x.pena_q", n, CT([1.0, 2.0], [0.1, 0.0]), CT([1.5, 2.5], [0.1, 0.2]), T([1.0, 2.0]), T([1.5, 2.5]))
        if x < 0.85:
            return FN("special.pi_tau", nn, self.cosines())
        if x < 0.9:
            return FN(r.choice(["x.d3n", "x.fder"]), n, self.z())
        sh = lambda v: T([[[[[v]]]]])
        return FN(r.choice(["special.vsh", "special.vsh_pena"]), r.choice([1, 2, 3]), sh(0.01),
                  CT([[[[[1.5]]]]], [[[[[0.1]]]]]), sh(r.choice([50.0, 120.0])), sh(0.7), sh(r.choice([0.2, 1.1])),
                  r.choice([1, 3]))

    def call_helper(self):
        r = self.r
        x = r.random()
        if x < 0.25:
            xe = [r.choice([0.2, 0.5, 1.0, 1.7, 3.0, -1.0]) for _ in range(3)]
            if r.random() < 0.4:      # exactly the sampling points
                xd = r.choice([[0.0, 1.0, 2.0], [2.0, 0.0, 1.0], [0.5, 1.0, 2.0, 4.0]])
                ye = T([0.5 + 0.75 * j * r.choice([1, -1]) for j in range(len(xd))])
                xd = T(xd)
                if self.named_mode:
                    v = self.add_tensor(xd)
                    return FN("helper.interp1d", v, v, self.add_tensor(ye) if r.random() < 0.5 else ye)
                return FN("helper.interp1d", copy.deepcopy(xd), xd, ye)
            return FN("helper.interp1d", self.maybe_leaf(T(xe)), T(r.choice([[0.0, 1.0, 2.0], [2.0, 0.0, 1.0]])),
                      self.maybe_leaf(T([0.5, 2.0, r.choice([3.0, 4.0])])))
        if x < 0.4:
            return FN("helper.transform_xyz_to_spherical", T([0.0, 1.0, -2.0]), T([0.0, 0.0, 3.0]), self.maybe_leaf(T([0.0, 2.0, r.choice([0.5, 0.7])])))
        if x < 0.5:
            return FN("helper.transform_spherical_to_xyz", T([1.0, 2.0]), self.maybe_leaf(T([0.3, r.choice([0.7, 0.9])])), T([0.0, 1.2]))
        if x < 0.6:
            return FN("helper.transform_fields_spherical_to_cartesian", self.maybe_leaf(T([1.0])), T([2.0]), T([0.5]), T([1.0]), T([r.choice([0.4, 0.6])]), T([1.1]))
        if x < 0.7:
            return FN("helper.plane_wave_expansion", r.choice([1, 3, 5, T(4, "int64")]))
        if x < 0.8:
            return FN("helper.get_truncution_criteroin_wiscombe", T([r.choice([0.5, 3.0, 9.0, 20.0])]))
        if x < 0.85:
            return FN("x.materials_list")
        if x < 0.92:
            return FN("helper.detach_tensor", {"tu": [self.maybe_leaf(T([1.0, 2.0])), T([3.0])]})
        return FN("helper.num_center_diff", {"fnref": "special.sph_jn_torch"}, 2, CT([1.0, r.choice([2.0, 2.5])], [0.1, 0.2]))

    def call_tg(self):
        r = self.r
        x = r.random()
        if x < 0.25:
            return FN("x.rotation", r.choice("xyz"), r.choice([0.3, 1.2, self.maybe_leaf(T(0.5, "float32"))]))
        if x < 0.4:
            return FN("x.plane_waves", r.choice([1, 2, 3, 5]))
        if x < 0.45:
            return FN("x.plane_waves_p", r.choice([2, 3]), {"L": self.planes()})
        p = self.a_part()
        # a tabulated environment is accepted where its permittivity is the same at all wavelengths
        w = T(wls(r, r.choice([1, 2]) if self.const_env(p) or r.random() < 0.1 else 1), "float32")
        if x < 0.62:
            k = self.tg_kw(p)
            if r.random() < 0.4:
                k["n_max"] = r.choice([1, 3, 3, 6])
            return FN("x.mie_ab", p, w, **k)
        if x < 1 - min(self.heavy * 3, 0.2):
            k = self.tg_kw(p)
            if r.random() < 0.35:
                k["r0"] = self.r0()
            if r.random() < 0.1:
                k["quadrupol_tol"] = r.choice([1e-6, 10.0])
            return FN("x.effpola", p, w, **k)
        return self.gpm(p)

    def tg_kw(self, p):
        """options shared by the torchgdm interface functions"""
        r = self.r
        k = {}
        if r.random() < 0.35:
            k["backend"] = r.choice(["pena", "torch"] + (["scipy"] if self.scipy else [])) if self.nlayers(p) <= 2 or r.random() < 0.3 else "pena"
        if r.random() < 0.2:
            k["n_env"] = r.choice([1.0, 1.33, 1.5])
        return k

    def r0(self):
        """a position in one of the accepted forms, sometimes the caller's own object"""
        r = self.r
        q = [r.choice([0.0, 10.0, -250.0]), r.choice([0.0, 300.0]), r.choice([0.0, 5.5])]
        x = r.random()
        if x < 0.3:
            return {"L": q}
        if x < 0.4:
            return NP(r.choice([q, [q]]), r.choice(["float32", "float64"]))
        t = T(r.choice([q, [q]]), r.choice(["float32", "float32", "float64"]))
        return self.add_tensor(t) if self.named_mode and r.random() < 0.7 else t

    def r_gpm(self):
        """support points: a number, or points (some of them at or beyond the surface)"""
        r = self.r
        if r.random() < 0.55:
            return r.choice([2, 3])
        q = r.choice([[[0.0, 0.0, 10.0], [0.0, 0.0, -10.0]], [[10.0, 0.0, 0.0], [0.0, 12.0, 0.0], [0.0, 0.0, -15.0]],
                      [[0.0, 0.0, 0.0]], [[60.0, 0.0, 0.0], [-5.0, 0.0, 0.0], [0.0, 95.0, 0.0]]])
        dt = r.choice(["float32", "float64"])
        if r.random() < 0.4:
            return NP(q, dt)
        return self.add_tensor(T(q, dt)) if self.named_mode and r.random() < 0.7 else T(q, dt)

    def gpm(self, p=None, auto=0.0):
        r = self.r
        p = p or self.a_part()
        pr = [[130.0, 0.0, 0.0], [0.0, 130.0, 0.0], [0.0, 0.0, 130.0], [-130.0, 0.0, 0.0], [0.0, -90.0, -95.0], [80.0, 80.0, -70.0]]
        x = r.random()
        if x < 0.25:       # a spiral of many points
            n = r.choice([26, 60])
            pr = [[140.0 * math.sqrt(1 - u * u) * math.cos(2.4 * j), 140.0 * math.sqrt(1 - u * u) * math.sin(2.4 * j), 140.0 * u]
                  for j in range(n) for u in [2.0 * (j + 0.5) / n - 1]]
        k = {}
        if not 0.25 < x < 0.31 + auto:
            t = T([[c * 1.5 for c in q] for q in pr], r.choice(["float32", "float32", "float64"]))
            k["r_probe"] = self.add_tensor(t) if self.named_mode and r.random() < 0.4 else NP(t["T"]["d"], t["T"]["dt"]) if r.random() < 0.1 else t
        n = r.choice([1, 2, 2, 3]) if k else 1
        if r.random() < 0.3:
            k.update({a: b for a, b in self.tg_kw(p).items() if b != "scipy"})
        if r.random() < 0.15:
            k["r_probe_add"] = r.choice([20, 35.0])
        return FN("x.gpm", p, T(wls(r, 1), "float32"), n_max=2, n_src_pw_angles=n, r_gpm=self.r_gpm(), **k)

    def a_function(self):
        return self.r.choice(UNIFORM if self.tg else [n for n in UNIFORM if n not in TG])

    def uniform(self, nm=None):
        """Every function of the package alike, however rarely the usual workloads ask for it."""
        r = self.r
        nm = nm or self.a_function()
        for _ in range(60):
            if nm in ("get_cross_sections", "get_mie_coefficients", "get_angular_scattering", "get_nearfields",
                      "get_material_permittivities", "x.particle_state"):
                c = self.call_particle(self.parts and {"v": r.choice(self.parts)} or None)
            elif nm.split(".")[0] in ("multishell", "coreshell"):
                c = self.call_functional()
            elif nm in ("get_epsilon", "x.repr_of", "x.material_twice"):
                c = self.call_material()
            elif nm in TG:
                c = self.one_tg(nm)
            elif nm.startswith("special.") or nm in ("x.pena_chain", "x.pena_q", "x.d3n", "x.fder"):
                c = self.one_special(nm)
            else:
                c = self.one_helper(nm)
            if (c.get("m") or c.get("fn")) == nm:
                return c
        return c

    def pairs(self):
        """The same question under several option values, then with other arguments."""
        r = self.r
        nm = r.choice(["special." + f for f in ("sph_jn_torch", "sph_yn_torch", "psi_torch", "chi_torch", "xi_torch", "sph_jn_torch", "sph_h1n_torch")] +
                      ["x.pena_chain", "x.pena_q", "get_cross_sections", "get_mie_coefficients", "multishell.cross_sections", "coreshell.mie_coefficients",
                       "get_angular_scattering", "multishell.angular_scattering"])
        if nm.startswith("special."):
            c = self.one_special(nm)
        elif nm.startswith("x."):
            c = self.one_special(nm)
        else:
            for _ in range(60):
                c = self.call_functional() if "." in nm else self.call_particle()
                if (c.get("m") or c["fn"]) == nm:
                    break
        out = []
        ps = ["single", "double"]
        r.shuffle(ps)
        for q in ps + ([ps[0]] if r.random() < 0.4 else []):
            d = copy.deepcopy(c); d.setdefault("k", {})["precision"] = q
            if nm.startswith("special.") and r.random() < 0.4:
                d["a"][1] = self.z()
            out.append(d)
        return out

    def options(self):
        """One question under several values of one option, the default among them."""
        r = self.r
        for _ in range(60):
            c = r.choice([self.call_tg, self.call_particle, self.call_functional])() if self.tg else r.choice([self.call_particle, self.call_functional])()
            nm = c.get("m") or c["fn"]
            if nm in ("x.mie_ab", "x.effpola") or any(q in nm for q in ("cross_sections", "coefficients", "scattering", "nearfields")):
                break
        else:
            return [c]
        tg = nm.startswith("x.")
        o = r.choice(["backend", "backend", "n_env" if tg else "which_jn"] + ([] if nm == "x.effpola" else ["n_max"]))
        vals = {"backend": ["pena", "torch", "scipy" if self.scipy and "nearfields" not in nm else "torch", "nope"], "n_env": [1.0, 1.33, 1.5],
                "which_jn": ["ratios", "recurrence"], "n_max": [1, 3, 5]}[o]
        L = [None] + r.sample(vals, 2)
        if r.random() < 0.7:
            L = [L[1], None] + L[2:]
        out = []
        for v in L:
            d = copy.deepcopy(c); k = d.setdefault("k", {})
            if o == "backend" and v in ("scipy", "nope"):
                k.pop("precision", None)
            k.pop(o, None)
            if v is not None:
                k[o] = v
            out.append(d)
        return out

    def one_tg(self, nm):
        r = self.r
        if nm.startswith("helper.tg.rotation"):
            return FN(nm, r.choice([0.3, 1.2, 0.0, 0.7853981633974483, T(0.5, "float32"), T(0.5, "float64"), self.maybe_leaf(T(0.5, "float32"))]),
                      **({"DTYPE_FLOAT": {"dtype": "float64"}} if r.random() < 0.2 else {}))
        if nm == "x.plane_waves":
            return FN(nm, r.choice([1, 2, 3, 5]))
        if nm == "helper.tg.setup_plane_waves_configs":
            return FN(nm, r.choice([1, 2, 3]), {"L": self.planes()}) if r.random() < 0.7 else FN(nm, r.choice([1, 2, 4]))
        for _ in range(40):
            c = self.call_tg()
            if c.get("fn") == nm:
                return c
        return c

    def planes(self):
        L = ["xz", "yz", "xy"]
        self.r.shuffle(L)
        return L[:self.r.choice([1, 2, 3, 3])]

    def one_special(self, nm):
        r = self.r
        n = self.order()
        nn = r.choice([n, n, T(n, "int64")])
        b = nm.split(".")[1]
        k = {}
        if b.endswith("_torch") and b not in ("D1n_torch",) and r.random() < 0.4:
            k["precision"] = r.choice(["single", "double"])
        if b in ("sph_jn_torch", "psi_torch", "xi_torch", "sph_h1n_torch") and r.random() < 0.25:
            k["which_jn"] = "ratios"
        if b == "pi_tau":
            return FN(nm, nn, self.cosines())
        if b == "bessel2ndDer":
            return FN(nm, NP(r.choice([1, 2, 3]), "int64"), NP([r.choice([0.5, 2.0, 0.0, 7.3]), 1.5]), {"fnref": "special." + r.choice(["sph_jn", "sph_yn"])})
        if b in ("vsh", "vsh_pena", "pena_q"):
            for _ in range(60):
                c = self.call_special()
                if c["fn"] == nm:
                    return c
            return c
        if nm.startswith("x."):
            return FN(nm, n, self.z(), **({"precision": "single"} if b == "pena_chain" and r.random() < 0.4 else {}))
        return FN(nm, nn, self.z(), **k)

    def one_helper(self, nm):
        r = self.r
        if nm == "helper.funct_grad_checker" or nm == "x.grad_check":
            z = self.z()
            if "v" not in z and self.named_mode:
                z = self.add_tensor(z)
            return FN("x.grad_check", z, r.choice([1, 2, 3]))
        if nm == "materials.list_available_materials":
            return FN(nm)
        if nm == "helper.get_truncution_criteroin_pena2009":
            L = r.choice([1, 2]); n = r.choice([1, 2])
            rr = self.radii(L)
            e = [[[r.choice([2.25, 4.0, 12.25]) for _ in range(n)] for _ in range(L)]]
            return FN(nm, self.maybe_leaf(T([[2 * math.pi / x for x in wls(r, n)]])), self.maybe_leaf(T([rr])),
                      self.maybe_leaf(CT(e, [[[0.1] * n] * L])), T([[r.choice([1.0, 1.77])] * n]))
        if nm == "helper.detach_tensor":
            return FN(nm, r.choice([{"tu": [self.maybe_leaf(T([1.0, 2.0])), T([3.0])]}, {"L": [self.maybe_leaf(T([1.0, 2.0])), T([3.0])]},
                                    self.maybe_leaf(T([1.0, 2.5])), self.maybe_leaf(CT([1.0], [0.5]))]))
        for _ in range(80):
            c = self.call_helper()
            if c.get("fn") == nm:
                return c
        return c

    def call_special_der(self):
        """SciPy-backed functions with leaves: the ones with hand-written backward passes"""
        r = self.r
        if r.random() < 0.12:
            mu = self.add_tensor(T(r.choice([[0.5], [1.0, -1.0, 0.2], [0.0, 0.9]]), rg=True))
            return FN("special.pi_tau", r.choice([1, 3, 5]), mu)
        z = self.z()
        if "v" not in z:
            z = copy.deepcopy(z); z["T"]["rg"] = True; z = self.add_tensor(z)
        if r.random() < 0.2:
            return FN("special." + r.choice(["sph_jn_torch", "sph_yn_torch", "psi_torch", "chi_torch", "xi_torch", "D1n_torch", "sph_jn_torch_via_rec"]), r.choice([1, 2, 4]), z)
        return FN("special." + r.choice(["sph_jn", "sph_yn", "sph_jn_der", "sph_yn_der", "sph_h1n", "sph_h1n_der", "psi", "chi", "xi", "sph_jn_der", "sph_yn_der"]),
                  r.choice([1, 2, 3, 4]), z)

    def modes(self):
        """One question asked in several gradient modes, with the very same tensor objects."""
        r = self.r
        p = self.a_part(); L = self.nlayers(p)
        w = wls(r)
        k = [2 * math.pi / x for x in w]
        dt = r.choice(["float64", "float64", "float32"])
        t = self.add_tensor(T(k[0] if len(k) == 1 and r.random() < 0.3 else k, dt, rg=r.random() < 0.7))
        kw = self.solver_kw(L)
        x = r.random()
        if x < 0.35:
            c = M(p, "get_cross_sections", t, **kw)
        elif x < 0.5:
            c = M(p, "get_mie_coefficients", t, **kw)
        elif x < 0.75:
            c = M(p, "get_material_permittivities", t)
        elif x < 0.85:
            c = M(p, "get_angular_scattering", t, self.theta(), **kw)
        elif self.mats:
            wt = self.add_tensor(T(w, dt, rg=r.random() < 0.7))
            c = M({"v": r.choice(self.mats)}, "get_epsilon", wt)
        else:
            c = M(p, "get_nearfields", t, self.probe(), n_max=2)
        ms = [r.choice(["no_grad", "inference", "no_grad"]), "grad"]
        if r.random() < 0.3:
            ms.reverse()
        if r.random() < 0.4:
            ms.append(r.choice(["grad", "no_grad", "inference"]))
        return [dict(copy.deepcopy(c), **({} if m == "grad" else {"mode": m})) for m in ms]

    def struct_calls(self):
        """torchgdm structures as shared objects: built once, combined, read and evaluated several times"""
        r = self.r
        w = T(wls(r, 1), "float32")
        out = []; gp = []; made = []

        def pos(q):
            if r.random() < 0.5:
                return {"L": q}
            t = T(r.choice([q, [q]]), r.choice(["float32", "float64"]))
            return self.add_tensor(t) if self.named_mode and r.random() < 0.8 else t
        for _ in range(r.choice([1, 2, 2])):
            p = self.a_part()
            if not self.const_env(p) and r.random() < 0.5:
                p = self.add_particle({"fn": "Particle", "a": [], "k": {"r_layers": self.maybe_leaf(T([60.0], "float32")), "mat_layers": {"L": [self.a_mat()]}}})
            i = self.fresh("s")
            if r.random() < 0.7:
                s = FN("x.gpm_struct", p, w, r0=pos([400.0 * len(made), 0.0, 10.0])); gp.append({"v": i})
                if r.random() < 0.3:
                    s["k"]["r_gpm"] = self.r_gpm()
            else:
                s = FN("x.eff_struct", p, w, r0=pos([400.0 * len(made), 300.0, 0.0]))
            s["id"] = i
            self.ops.append({"op": "def", "id": i, "spec": s})
            made.append({"v": i})
            out.append(FN("x.struct_data", {"v": i}))
            if r.random() < 0.5:
                out.append(FN("x.struct_pola", {"v": i}, w["T"]["d"][0]) if s["fn"] == "x.eff_struct" else FN("x.combine", {"L": [{"v": i}]}))
        if gp:
            out.append(FN("x.combine", {"L": gp}))
            if r.random() < 0.5:
                out.append(FN("x.combine", {"L": gp[::-1]}))
            out.append(FN("x.struct_data", gp[0]))
        if made and r.random() < 0.6:
            c = FN("x.sim_run", {"L": made[:r.choice([1, 2])]}, w["T"]["d"][0])
            out += [c] if r.random() < 0.5 else [c, copy.deepcopy(c)]
            r.shuffle(out)
        return out

    def many_angles(self):
        """whole angular scans and spectra through the particle methods"""
        r = self.r
        p = self.a_part(); L = self.nlayers(p)
        n = r.choice([40, 120])
        if r.random() < 0.5:
            return M(p, "get_angular_scattering", self.k0(1), T([math.pi * j / (n - 1) for j in range(n)]), **self.solver_kw(L))
        return M(p, "get_cross_sections", T([2 * math.pi / (400.0 + 4.0 * j) for j in range(n)]), **self.solver_kw(L))

    def const_env(self, p):
        for o in self.ops:
            if o.get("id") == p["v"]:
                return not isinstance(o["spec"]["k"].get("mat_env"), dict)
        return False

    # ---------------------------------------------------------------- near duplicates
    def spec_of(self, i):
        for o in self.ops:
            if o.get("id") == i and o["op"] == "def":
                return o["spec"]

    def perturb(self, v, p=1.0, how=None):
        """a copy of a value specification with other numbers in the same shape"""
        r = self.r
        how = how or (lambda x: far(r, x))

        def w(x):
            if isinstance(x, bool):
                return x
            if isinstance(x, float):
                return how(x) if r.random() < p else x
            if isinstance(x, list):
                return [w(y) for y in x]
            if isinstance(x, dict):
                return {k: (y if k in ("v", "dt", "id", "fn", "m", "rg") else w(y)) for k, y in x.items()}
            return x
        return w(v)

    def sibling(self, call):
        """The same call with every named tensor replaced by another one of the same shape (other or equal values)."""
        m = {}; twin = self.r.random() < 0.4

        def w(x):
            if isinstance(x, dict):
                if "v" in x and len(x) == 1:
                    i = x["v"]; s = self.spec_of(i)
                    if s is not None and "T" in s:
                        if i not in m:
                            t = self.perturb({"T": {k: y for k, y in s["T"].items() if k != "id"}})
                            if twin or s["T"]["dt"] in ("int64", "int32"):
                                t = copy.deepcopy({"T": {k: y for k, y in s["T"].items() if k != "id"}})
                            m[i] = self.add_tensor(t)
                        return m[i]
                    return x
                return {k: w(y) for k, y in x.items()}
            if isinstance(x, list):
                return [w(y) for y in x]
            return x
        c = w(call)
        c.pop("mode", None)
        if not m:
            return self.variant(call)
        return c

    def near_mat(self, o):
        """another material, often one that agrees with the old one to a few decimals"""
        r = self.r
        e = r.choice([1e-3, 3e-4, 4e-3, 1e-6, 1e-2])
        if r.random() < 0.5:
            if isinstance(o, float):
                return o + e
            if isinstance(o, dict) and "c" in o:
                return C(o["c"][0] + e, o["c"][1]) if r.random() < 0.5 else C(o["c"][0], o["c"][1] + e)
            s = self.spec_of(o["v"]) if isinstance(o, dict) and "v" in o else None
            if s and s.get("fn") == "materials.MatConstant" and not (isinstance(s["a"][0], dict) and "v" in s["a"][0]):
                s = copy.deepcopy(s); s.pop("id", None)
                s["a"] = [self.perturb(s["a"][0], 1.0, lambda q: q + e if q else q)]
                if isinstance(s["a"][0], dict) and "c" in s["a"][0]:
                    s["a"][0] = C(*[q + (e if q else 0.0) for q in s["a"][0]["c"]])
                return self.add_mat(s)
        return self.a_mat() if r.random() < 0.7 else r.choice([1.7, 4.5, C(1.9, 0.3)])

    def particle_variant(self, i):
        """A particle like particle i except for one ingredient (or none)."""
        r = self.r
        s = copy.deepcopy(self.spec_of(i)); s.pop("id", None)
        k = s["k"]
        self.bound += 1
        n = r.choice(sorted(k))
        x = r.random()
        if x < 0.15:
            pass
        elif n == "mat_env":
            o = k[n]
            k[n] = r.choice([1.0, 1.1, 1.33, 1.6])
            if r.random() < 0.5 and isinstance(o, float):
                k[n] = o + r.choice([1e-3, 3e-4, 4e-3, 1e-6, 1e-2])
            elif isinstance(o, dict) and "v" in o and r.random() < 0.6:
                k[n] = self.near_mat(o)
        elif n in ("mat_core", "mat_shell"):
            k[n] = self.near_mat(k[n])
        elif n == "mat_layers":
            j = r.randrange(len(k[n]["L"]))
            k[n]["L"][j] = self.near_mat(k[n]["L"][j])
        else:
            def val(v):
                if isinstance(v, dict) and "v" in v:
                    t = copy.deepcopy(self.spec_of(v["v"])); t["T"].pop("id", None)
                    return t
                return v

            def named(v):
                return self.add_tensor(v) if isinstance(v, dict) and "T" in v and v["T"].get("rg") else v
            v = val(k[n])
            if n == "eps_layers":
                v = self.perturb(v, 0.6)
            else:      # radii stay increasing
                f = r.choice([1.0625, 0.9375, 1.0 + 1e-6, 1.25])
                v = self.perturb(v, 1.0, lambda q: q * f)
                if n in ("r_core", "r_shell"):
                    o = "r_shell" if n == "r_core" else "r_core"
                    if o in k:
                        k[o] = named(self.perturb(val(k[o]), 1.0, lambda q: q * f))
            k[n] = named(v)
        self.bound -= 1
        return self.add_particle(s)

    def variant(self, call):
        """A copy of `call` changed in one small place (or none)."""
        r = self.r
        c = copy.deepcopy(call)
        x = r.random()
        if x < 0.12 or r.random() < 0.5:
            c.pop("mode", None)
        if x < 0.12:
            return c
        if x < 0.22:
            c["mode"] = r.choice(["no_grad", "inference"])
            return c
        if x < 0.36:  # switch one option
            k = c.setdefault("k", {})
            nm = c.get("m") or c.get("fn", "")
            if nm.endswith("_torch") or nm in ("x.pena_chain", "x.pena_q"):
                k["precision"] = "double" if k.get("precision") == "single" else "single"
                if nm.split(".")[1][:3] in ("sph", "psi", "chi", "xi_") and r.random() < 0.2:
                    k["which_jn"] = "ratios"
                return c
            if nm in ("x.mie_ab", "x.effpola", "x.gpm"):
                if "backend" in k and r.random() < 0.5:
                    del k["backend"]
                elif r.random() < 0.6:
                    k["backend"] = r.choice(["torch", "pena"])
                elif "n_env" in k:
                    del k["n_env"]
                else:
                    k["n_env"] = r.choice([1.1, 1.4])
                return c
            if any(s in nm for s in ("cross_sections", "coefficients", "scattering", "nearfields")):
                o = r.choice(["n_max", "precision", "backend", "which_jn"])
                if o == "n_max":
                    if "n_max" in k and r.random() < 0.5:
                        del k["n_max"]
                    else:
                        k["n_max"] = r.choice([1, 2, 3, 4])
                elif o == "precision":
                    k["precision"] = "double" if k.get("precision") == "single" else "single"
                elif o == "backend":
                    k["backend"] = r.choice(["torch", "pena"])
                else:
                    k["which_jn"] = "ratios"
                return c
        # change one number somewhere
        slots = []

        def walk(x, setter):
            if isinstance(x, bool) or x is None:
                return
            if isinstance(x, float):
                slots.append((x, setter))
            elif isinstance(x, list):
                for i in range(len(x)):
                    walk(x[i], lambda y, x=x, i=i: x.__setitem__(i, y))
            elif isinstance(x, dict):
                for k in sorted(x):
                    if k in ("v", "dt", "id", "fn", "m"):
                        continue
                    walk(x[k], lambda y, x=x, k=k: x.__setitem__(k, y))
        walk(c.get("a", []), None)
        walk(c.get("k", {}), None)
        if slots and x < 0.76:
            v, st = r.choice(slots)
            if r.random() < 0.35:     # same shape, same place, quite another value
                st(far(r, v))
            else:
                st(r.choice([near(r, v), near(r, v), v * (1 + 1e-7), v * 1.01, v + 1e-3]))
            return c
        # permute or change dtype of an inline tensor
        ts = []

        def wt(x):
            if isinstance(x, dict):
                if "T" in x:
                    ts.append(x["T"])
                for y in x.values():
                    wt(y)
            elif isinstance(x, list):
                for y in x:
                    wt(y)
        wt(c.get("a", [])); wt(c.get("k", {}))
        if ts:
            long = [t for t in ts if isinstance(t["d"], list) and len(t["d"]) > 1 and not isinstance(t["d"][0], list)]
            t = r.choice(ts)
            if long and r.random() < 0.7:
                t = r.choice(long)
                t["d"] = reorder(r, t["d"])
            else:
                t["dt"] = {"float64": "float32", "float32": "float64", "complex128": "complex64", "complex64": "complex128"}.get(t["dt"], t["dt"])
        return c
