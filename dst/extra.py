"""Composite calls through the public API whose result objects need unpacking."""
import contextlib, io
import torch
import pymiediff as pmd


def _tg():
    from pymiediff.helper import tg
    return tg


def repr_of(o):
    return repr(o)


def repr_quiet(o):
    """the text is shown to nobody (it follows the reader's print options)"""
    repr(o); str(o)


def particle_state(p):
    """Everything a particle exposes as data."""
    return dict(r_layers=p.r_layers, eps_layers=p.eps_layers, r_c=p.r_c, r_s=p.r_s,
                device=str(p.device), text=repr(p))


def effpola(p, wavelengths, **kw):
    s = _tg().StructAutodiffMieEffPola3D(p, wavelengths, verbose=False, **kw)
    wl = torch.as_tensor(wavelengths, dtype=torch.float32).reshape(-1)[0]
    return dict(alpha=s.alpha_data, wavelengths=s.wavelengths_data, positions=s.positions,
                at=s.get_polarizability_6x6(wl, s.environment), device=str(s.device))


def gpm(p, wavelengths, **kw):
    d = _tg().extract_GPM_sphere_miediff(p, wavelengths, verbose=False, progress_bar=False, **kw)
    return {k: v for k, v in d.items() if isinstance(v, torch.Tensor)}


def mie_ab(p, wavelengths, **kw):
    d = _tg().mie_ab_sphere_3d_AD(p, wavelengths, as_dict=True, **kw)
    return {k: v for k, v in d.items() if isinstance(v, torch.Tensor)}


def plane_waves(n):
    return _tg().setup_plane_waves_configs(n)


def plane_waves_p(n, planes):
    return _tg().setup_plane_waves_configs(n, inc_planes=planes)


def rotation(axis, alpha):
    return getattr(_tg(), "rotation_" + axis)(alpha)


def pena_chain(n, z, precision="double"):
    sp = pmd.special
    D1 = sp.pena_D1_n(n, z, precision=precision)
    D3 = sp.pena_D3_n(n, z, D1=D1, precision=precision)
    psi, zeta = sp.pena_psi_zeta_n(n, z, D1=D1, D3=D3, precision=precision)
    return dict(D1=D1, D3=D3, psi=psi, zeta=zeta)


def pena_q(n, z1, z2, x1, x2, precision="double"):
    sp = pmd.special
    d = {}
    for nm, z in (("z1", z1), ("z2", z2)):
        d["D1_" + nm] = sp.pena_D1_n(n, z, precision=precision)
        d["D3_" + nm] = sp.pena_D3_n(n, z, D1=d["D1_" + nm], precision=precision)
    return sp.pena_Q_n(n, z1, z2, x1, x2, precision=precision, **d)


def d3n(n, z):
    D1 = pmd.special.D1n_torch(n, z)
    return pmd.special.D3n_torch(n, z, D1)


def fder(n, z):
    return pmd.special.f_der(n, z, pmd.special.sph_jn_torch(n, z))


def grad_check(z, n):
    # the first array is the caller's own tensor, seen through NumPy
    a, b, c = pmd.helper.funct_grad_checker(z, pmd.special.sph_jn, (n, z))
    return a.copy(), b, c


def materials_list():
    return sorted(pmd.materials.list_available_materials())


def material_twice(m, w):
    """two successive evaluations, handed out together"""
    return [m.get_epsilon(w), m.get_epsilon(w)]


def yaml_mat(name, text, **kw):
    """a material from the user's own data file (relative path in the current directory)"""
    import hashlib, os
    fn = "user_%s.yml" % hashlib.md5(text.encode()).hexdigest()[:8]
    if not os.path.exists(fn):
        with open(fn, "w") as f:
            f.write(text)
    return pmd.materials.MatDatabase(name, yaml_file=fn, **kw)


def own_gradients(p, k0, **kw):
    """gradients of a particle's cross sections with respect to the tensors it stores"""
    out = {}
    if hasattr(p, "get_epsilon"):
        t = getattr(p, "eps_scalar", None)
        e = p.get_epsilon(torch.tensor([500.0, 600.0]))
        if isinstance(t, torch.Tensor) and t.requires_grad:
            out["eps"], = torch.autograd.grad(e.abs().sum(), t, allow_unused=True)
        return out
    for nm in ("r_layers", "eps_layers"):
        t = getattr(p, nm)
        if t is None or not t.requires_grad:
            continue
        L = p.get_cross_sections(k0, **kw)["q_ext"].sum()
        g, = torch.autograd.grad(L, t, allow_unused=True)
        out[nm] = g
    return out


PR = [[130.0, 0.0, 0.0], [0.0, 130.0, 0.0], [0.0, 0.0, 130.0], [-130.0, 0.0, 0.0], [0.0, -90.0, -95.0], [80.0, 80.0, -70.0]]


def gpm_struct(p, wavelengths, r0=(0.0, 0.0, 0.0), **kw):
    kw.setdefault("r_probe", torch.tensor(PR) * 1.5)
    kw.setdefault("r_gpm", 3)
    return _tg().StructAutodiffMieGPM3D(p, wavelengths, r0=list(r0) if isinstance(r0, tuple) else r0, n_src_pw_angles=1, n_max=2,
                                        verbose=False, progress_bar=False, **kw)


def eff_struct(p, wavelengths, **kw):
    return _tg().StructAutodiffMieEffPola3D(p, wavelengths, verbose=False, **kw)


def combine(structs, **kw):
    s = _tg().combine_gpm_structures_autodiff(structs, **kw)
    d = s.gpm_dict if isinstance(s.gpm_dict, list) else [s.gpm_dict]
    return dict(positions=s.positions, n=len(d), models=[{k: v for k, v in x.items() if isinstance(v, torch.Tensor)} for x in d])


def struct_data(s):
    """what a structure exposes"""
    d = getattr(s, "gpm_dict", None)
    out = dict(device=str(s.device), r0=getattr(s, "r0", None), positions=s.positions)
    for x in ([d] if isinstance(d, dict) else d or []):
        out.update({k: v for k, v in x.items() if isinstance(v, torch.Tensor)})
    for k in ("alpha_data", "wavelengths_data"):
        if hasattr(s, k):
            out[k] = getattr(s, k)
    return out


def struct_pola(s, wl):
    return s.get_polarizability_6x6(torch.as_tensor(wl, dtype=torch.float32), s.environment)


def sim_run(structs, wl, again=False):
    """a torchgdm simulation with the autodiff patch: fields inside and near the structures"""
    import torchgdm as tg
    T = _tg()
    T.patch_torchgdm_autodiff()
    env = tg.env.freespace_3d.EnvHomogeneous3D(env_material=1.0)
    sim = tg.simulation.Simulation(structures=structs, environment=env, wavelengths=torch.as_tensor([wl], dtype=torch.float32),
                                   illumination_fields=[tg.env.freespace_3d.PlaneWave(e0p=1, e0s=0.5, inc_angle=0.4)], copy_structures=True,
                                   linearsystem=tg.linearsystem.LinearSystemFullInverse() if len(structs) > 1 else "default")
    import tqdm
    old, tqdm.tqdm.monitor_interval = tqdm.tqdm.monitor_interval, 0      # torchgdm's own bars start no thread
    try:
        for _ in range(2 if again else 1):
            sim.run(verbose=False, progress_bar=False)
    finally:
        tqdm.tqdm.monitor_interval = old
    f = sim.fields_inside[float(torch.tensor(wl, dtype=torch.float32))]
    n = sim.get_nearfield(wl, r_probe=torch.tensor([[0.0, 50.0, 700.0], [30.0, -800.0, 20.0]]), progress_bar=False)
    return dict(e=f.efield.clone(), h=f.hfield.clone(), near=n["sca"].efield.clone())     # torchgdm keeps its own in the structures
