From 55f0c5ce52b8ea366d60392747103ae8a1ade74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 01/14] fix: keep autograd graphs out of the material lookup
 table

The permittivity memo stored results together with their graph: a warm
entry gave no (or another leaf's) wavelength gradient, a second backward
pass failed, and graphs and leaves stayed alive with the material.
---
 src/pymiediff/materials/mat.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index eaece00..c998e91 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -384,6 +384,12 @@ class MatDatabase(MaterialBase):
         return eps
 
     def _get_eps_single_wl(self, wavelength):
+        # a differentiable evaluation carries the autograd graph of this call only:
+        # it is neither taken from nor stored in the lookup table
+        if torch.is_grad_enabled() and getattr(wavelength, "requires_grad", False):
+            _eps = self._eval(wavelength)
+            return torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
+
         # memoize evaluations
         wl_key = float(wavelength)
 
-- 
2.43.0


From 5bc0c8e7ea2406d2586f3664949349b168a8a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 02/14] fix: do not hand out the tensors of the material lookup
 table

In-place changes of a returned permittivity altered all later evaluations
at that wavelength; a value memoised under inference_mode could not be
used in a differentiable calculation afterwards.
---
 src/pymiediff/materials/mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index c998e91..97b1880 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -400,7 +400,8 @@ class MatDatabase(MaterialBase):
             eps = torch.as_tensor(_eps, dtype=DTYPE_COMPLEX, device=self.device)
             self.lookup_eps[wl_key] = eps
 
-        return eps
+        # the table keeps its own copy, the caller may modify the returned tensor
+        return eps.clone()
 
     def get_epsilon(self, wavelength):
         """get permittivity at `wavelength`
-- 
2.43.0


From cd8db1d0ec6ac1ffb6f94f35a1ad0ba1c4b237a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:14 +0000
Subject: [PATCH 03/14] fix: second Bessel derivative no longer overwrites the
 caller's argument

The backward pass of sph_jn_der / sph_yn_der replaced exact zeros in the
input tensor itself (NumPy view of the saved tensor).
---
 src/pymiediff/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/special.py b/src/pymiediff/special.py
index 8d09ec3..d6ba266 100644
--- a/src/pymiediff/special.py
+++ b/src/pymiediff/special.py
@@ -67,7 +67,7 @@ def bessel2ndDer(n: torch.Tensor, z: torch.Tensor, bessel, **kwargs):
     torch.Tensor
         Second derivative with respect to ``z``.
     """
-    z[z == 0] = 1e-10
+    z = np.where(z == 0, 1e-10, z)
     z = np.nan_to_num(z, nan=1e-10)
     return (1 / z**2) * ((n**2 - n - z**2) * bessel(n, z) + 2 * z * bessel(n + 1, z))
 
-- 
2.43.0


From d77246d6b7862b7fafc628f478e137f586a1aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:38 +0000
Subject: [PATCH 04/14] fix: moving a material while another thread evaluates
 it

set_device iterated over the live lookup table; an evaluation in another
thread adding a wavelength made it fail with 'dictionary changed size
during iteration', leaving the table half moved.
---
 src/pymiediff/materials/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 97b1880..2061e31 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -353,7 +353,7 @@ class MatDatabase(MaterialBase):
         self.eps_dat = self.eps_dat.to(device)
 
         # transfer the lookup table
-        for _w in self.lookup_eps:
+        for _w in list(self.lookup_eps):
             self.lookup_eps[_w] = self.lookup_eps[_w].to(device)
 
     def _eval(self, wavelength):
-- 
2.43.0


From 82df4971f2d4310fbb5d373e915204aa06c07d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:14 +0000
Subject: [PATCH 05/14] fix: reject torn or unsupported tabulated material data

A row that lost its k column was read as k = 0, surplus columns (a lost
line break) were dropped, and 'tabulated k' data were taken for n.
---
 src/pymiediff/materials/mat.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 2061e31..bedc0a3 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -39,15 +39,32 @@ def list_available_materials(verbose=False):
 
 # --- internal helpers
 def _load_tabulated(dat_str):
+    # columns: wavelength, n ("tabulated n") or wavelength, n, k ("tabulated nk")
+    n_columns = {"tabulated n": 2, "tabulated nk": 3}.get(
+        " ".join(dat_str["type"].split())
+    )
+    if n_columns is None:
+        raise ValueError(
+            "refractiveindex.info data type '{}' not implemented yet.".format(
+                dat_str["type"]
+            )
+        )
+
     rows = dat_str["data"].split("\n")
     splitrows = [c.split() for c in rows]
     wl = []
     eps = []
     for s in splitrows:
         if len(s) > 0:
+            if len(s) != n_columns:
+                raise ValueError(
+                    "Corrupt '{}' data: expected {} columns, got '{}'.".format(
+                        dat_str["type"], n_columns, " ".join(s)
+                    )
+                )
             wl.append(1000.0 * float(s[0]))  # microns --> nm
             _n = float(s[1])
-            if len(s) > 2:
+            if n_columns > 2:
                 _k = float(s[2])
             else:
                 _k = 0.0
-- 
2.43.0


From f7b5f2893864799d3b34293f4aa6b6cf3a8edb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:19 +0000
Subject: [PATCH 06/14] fix: functional Mie API with plain numbers next to
 tensors of another device

Plain-number arguments (and the default eps_env) became CPU tensors with one
or two dimensions, which cannot be combined with the tensors of an
accelerator. Convert them on the device of the tensor inputs.
---
 src/pymiediff/multishell.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/pymiediff/multishell.py b/src/pymiediff/multishell.py
index 7c432ec..c8d9f76 100644
--- a/src/pymiediff/multishell.py
+++ b/src/pymiediff/multishell.py
@@ -475,7 +475,9 @@ def _broadcast_mie_config(k0, r_c, r_s, eps_c, eps_s, eps_env):
     return k0, r_c, r_s, eps_c, eps_s, eps_env
 
 
-def _as_layer_inputs(r_c, r_s, eps_c, eps_s, r_layers=None, eps_layers=None):
+def _as_layer_inputs(
+    r_c, r_s, eps_c, eps_s, r_layers=None, eps_layers=None, device=None
+):
     """Normalize legacy core/shell inputs to layer arrays.
 
     Parameters
@@ -484,6 +486,8 @@ def _as_layer_inputs(r_c, r_s, eps_c, eps_s, r_layers=None, eps_layers=None):
         Legacy core/shell inputs.
     r_layers, eps_layers : tensor-like or None
         Multilayer inputs.
+    device : torch.device or None
+        Device of the returned tensors.
 
     Returns
     -------
@@ -494,7 +498,10 @@ def _as_layer_inputs(r_c, r_s, eps_c, eps_s, r_layers=None, eps_layers=None):
         raise ValueError("`r_layers` and `eps_layers` must be provided together.")
 
     if r_layers is not None and eps_layers is not None:
-        return torch.as_tensor(r_layers), torch.as_tensor(eps_layers)
+        return (
+            torch.as_tensor(r_layers, device=device),
+            torch.as_tensor(eps_layers, device=device),
+        )
 
     if r_c is None or eps_c is None:
         raise ValueError(
@@ -507,13 +514,13 @@ def _as_layer_inputs(r_c, r_s, eps_c, eps_s, r_layers=None, eps_layers=None):
     if eps_s is None:
         eps_s = eps_c
 
-    r_c_t = torch.atleast_1d(torch.as_tensor(r_c))
-    r_s_t = torch.atleast_1d(torch.as_tensor(r_s))
+    r_c_t = torch.atleast_1d(torch.as_tensor(r_c, device=device))
+    r_s_t = torch.atleast_1d(torch.as_tensor(r_s, device=device))
     if r_c_t.shape != r_s_t.shape:
         raise ValueError("`r_c` and `r_s` must have compatible shapes.")
 
-    eps_c_t = torch.as_tensor(eps_c)
-    eps_s_t = torch.as_tensor(eps_s)
+    eps_c_t = torch.as_tensor(eps_c, device=device)
+    eps_s_t = torch.as_tensor(eps_s, device=device)
 
     # choose L=1 when core and shell are exactly equal, otherwise L=2
     if torch.equal(r_c_t, r_s_t):
@@ -685,6 +692,18 @@ def mie_coefficients(
     if backend_l not in ("torch", "scipy", "pena"):
         raise ValueError("Unknown backend. Expected one of: 'torch', 'scipy', 'pena'.")
 
+    # evaluate on the device of the tensor inputs (plain numbers have no device)
+    device = next(
+        (
+            x.device
+            for x in (k0, r_layers, eps_layers, r_c, eps_c, r_s, eps_s, eps_env)
+            if isinstance(x, torch.Tensor)
+        ),
+        None,
+    )
+    k0 = torch.as_tensor(k0, device=device)
+    eps_env = torch.as_tensor(eps_env, device=device)
+
     # normalize all inputs to a common multilayer representation first
     r_layers, eps_layers = _as_layer_inputs(
         r_c=r_c,
@@ -693,6 +712,7 @@ def mie_coefficients(
         eps_s=eps_s,
         r_layers=r_layers,
         eps_layers=eps_layers,
+        device=device,
     )
     k0, r_layers, eps_layers, eps_env, n_layers_rel, n_env = _broadcast_mie_layers(
         k0=k0,
-- 
2.43.0


From 185acf8c3e06bfc76df263d5bf96cb11d9435f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:39 +0000
Subject: [PATCH 07/14] fix: particles on different devices may share material
 objects

A material lives on one device only (that of the last move), so its
permittivity has to be brought to the device of the particle that uses it.
---
 src/pymiediff/main.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/main.py b/src/pymiediff/main.py
index 273ba97..fc04095 100644
--- a/src/pymiediff/main.py
+++ b/src/pymiediff/main.py
@@ -257,12 +257,17 @@ class Particle:
         k0 = torch.as_tensor(k0, device=self.device)
         wl0 = 2 * torch.pi / k0
 
-        eps_env = self.mat_env.get_epsilon(wavelength=wl0)
+        # materials may be shared with particles living on other devices
+        eps_env = self.mat_env.get_epsilon(wavelength=wl0).to(self.device)
         if self.eps_layers is not None:
             eps_layers = self.eps_layers
         else:
             eps_layers = torch.stack(
-                [mat.get_epsilon(wavelength=wl0) for mat in self.mat_layers], dim=0
+                [
+                    mat.get_epsilon(wavelength=wl0).to(self.device)
+                    for mat in self.mat_layers
+                ],
+                dim=0,
             )
 
         return eps_layers, eps_env
-- 
2.43.0


From 39eabc7a4eb54cab34c5b3c2bfcd3014093e965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:58 +0000
Subject: [PATCH 08/14] fix: moving a material leaves its wavelength range on
 the old device

---
 src/pymiediff/materials/mat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index bedc0a3..41dec88 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -368,6 +368,8 @@ class MatDatabase(MaterialBase):
         super().set_device(device)
         self.wl_dat = self.wl_dat.to(device)
         self.eps_dat = self.eps_dat.to(device)
+        if self.model_type == "data":
+            self.wl_range = [torch.min(self.wl_dat), torch.max(self.wl_dat)]
 
         # transfer the lookup table
         for _w in list(self.lookup_eps):
-- 
2.43.0


From 97859e9cac6b4017bb5293020d3b1f03ea9ad0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 09/14] fix: initial lookup wavelengths on another device than
 the material

---
 src/pymiediff/materials/mat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 41dec88..ace5567 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -347,6 +347,7 @@ class MatDatabase(MaterialBase):
         # optionally initialize wavelength lookup
         if init_lookup_wavelengths is not None:
             for wl in init_lookup_wavelengths:
+                wl = torch.as_tensor(wl, dtype=DTYPE_FLOAT, device=self.device)
                 _eps = self._get_eps_single_wl(wl)
 
     def __repr__(self, verbose: bool = False):
-- 
2.43.0


From c36da444c98d9b6e50739a648960dc9e975d5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:54 +0000
Subject: [PATCH 10/14] fix: list_available_materials(verbose=True) raised
 TypeError

---
 src/pymiediff/materials/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index ace5567..07dd303 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -33,7 +33,7 @@ def list_available_materials(verbose=False):
     """Return all keys for the database materials"""
     if verbose:
         for f in REFINDEX_DATA:
-            print("{}: ".format(f, pathlib.Path(REFINDEX_DATA[f]).name))
+            print("{}: ".format(f, pathlib.Path(REFINDEX_DATA[f][0]).name))
     return [f for f in REFINDEX_DATA]
 
 
-- 
2.43.0


From e9b34db3a022f156b6455fcf5669aea6111236df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:54 +0000
Subject: [PATCH 11/14] fix: stray files in the data folder registered as
 materials

A backup or temporary copy next to a data file took over the name of the
material, depending on the order in which the folder is listed.
---
 src/pymiediff/materials/mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymiediff/materials/mat.py b/src/pymiediff/materials/mat.py
index 07dd303..10df815 100644
--- a/src/pymiediff/materials/mat.py
+++ b/src/pymiediff/materials/mat.py
@@ -25,6 +25,9 @@ data_files = pkg_resources.files(materials).joinpath(DATA_FOLDER).iterdir()
 REFINDEX_DATA = {}
 for f in data_files:
     f_n = pathlib.Path(f).name
+    # only data files: an editor backup must not replace the material it was made from
+    if f_n.startswith(".") or not f_n.endswith(".yml"):
+        continue
     mat_name = f_n.split("_")[0]
     REFINDEX_DATA[mat_name.lower()] = [f, mat_name]
 
-- 
2.43.0


From d302bcee719998dc331a77af3633b407903a790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:08 +0000
Subject: [PATCH 12/14] fix: structure classes raise an error when torchgdm is
 missing

---
 src/pymiediff/helper/tg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 26ca5c4..316ba34 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -59,8 +59,12 @@ if _tg_available is None:
                 "'pymiediff.helper.tg' Install it via `pip install torchgdm`."
             )
 
-    StructAutodiffMieEffPola3D = _MissingDependency
-    StructAutodiffMieGPM3D = _MissingDependency
+    class _MissingStructure:
+        def __init__(self, *args, **kwargs):
+            raise _MissingDependency()
+
+    StructAutodiffMieEffPola3D = _MissingStructure
+    StructAutodiffMieGPM3D = _MissingStructure
 
 else:
     from torchgdm.constants import DTYPE_COMPLEX, DTYPE_FLOAT
-- 
2.43.0


From fb974d806c974056796c70a7eb81f12da3ce0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:46 +0000
Subject: [PATCH 13/14] fix: a broken torchgdm installation made the whole
 package unimportable

---
 src/pymiediff/helper/tg.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pymiediff/helper/tg.py b/src/pymiediff/helper/tg.py
index 316ba34..0a23595 100644
--- a/src/pymiediff/helper/tg.py
+++ b/src/pymiediff/helper/tg.py
@@ -49,6 +49,14 @@ import torch
 
 _tg_available = importlib.util.find_spec("torchgdm")
 
+if _tg_available is not None:
+    try:
+        from torchgdm.constants import DTYPE_COMPLEX, DTYPE_FLOAT
+        import torchgdm as tg
+    except ImportError as err:
+        # installed, but not usable: same as if it was missing
+        warnings.warn("'torchgdm' is installed but cannot be imported: {}".format(err))
+        _tg_available = None
 
 if _tg_available is None:
 
@@ -66,10 +74,6 @@ if _tg_available is None:
     StructAutodiffMieEffPola3D = _MissingStructure
     StructAutodiffMieGPM3D = _MissingStructure
 
-else:
-    from torchgdm.constants import DTYPE_COMPLEX, DTYPE_FLOAT
-    import torchgdm as tg
-
 
 def _resolve_mie_backend(mie_particle, backend):
     """Pick a compatible Mie backend from particle configuration.
-- 
2.43.0


From 6079c68136736e24e52c00a26c5187bae809ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:46 +0000
Subject: [PATCH 14/14] fix: submodules missing from the namespace after a
 retried import

---
 src/pymiediff/__init__.py           | 1 +
 src/pymiediff/materials/__init__.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/pymiediff/__init__.py b/src/pymiediff/__init__.py
index d80a2d2..8aec5e6 100644
--- a/src/pymiediff/__init__.py
+++ b/src/pymiediff/__init__.py
@@ -109,6 +109,7 @@ __credits__ = []
 
 # modules
 from pymiediff.main import Particle
+from . import main
 from . import special
 from . import multishell
 from . import coreshell
diff --git a/src/pymiediff/materials/__init__.py b/src/pymiediff/materials/__init__.py
index c201938..1770a87 100644
--- a/src/pymiediff/materials/__init__.py
+++ b/src/pymiediff/materials/__init__.py
@@ -24,6 +24,7 @@ Functions
     list_available_materials
 
 """
+from . import mat
 from .mat import MatDatabase
 from .mat import MatConstant
 from .mat import MaterialBase
-- 
2.43.0

