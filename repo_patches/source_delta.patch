From dc7b42b6a175764c12e1ab1df8c63fe3d3e9ce76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 01/27] fix: integrate the movement equation in one thread at a
 time

odeint is not reentrant: two Conductivity objects running in two threads
corrupted each other's trajectories.
---
 cuprates_transport/conductivity.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0d818a9..861f1d8 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -7,6 +7,7 @@ import matplotlib as mpl
 import matplotlib.pyplot as plt
 from matplotlib.collections import LineCollection
 from copy import deepcopy
+from threading import Lock
 from cuprates_transport.scattering import Scattering
 ##<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<#
 
@@ -23,6 +24,10 @@ kB = kB / meV # meV / K
 ## This coefficient takes into accound all units and constant to prefactor Chambers formula
 units_chambers = 2 * e**2 / (2*pi)**3 * picosecond / Angstrom**2
 
+## The ODEPACK solver behind odeint keeps its state in global variables: only one
+## integration at a time in a process, whatever the number of threads
+odeint_lock = Lock()
+
 class Conductivity(Scattering):
     def __init__(self, bandObject, Bamp, Bphi=0, Btheta=0,
                  N_time=500, rtol = 1e-4, atol = 1e-4,
@@ -209,8 +214,9 @@ class Conductivity(Scattering):
             # Flatten to get all the initial kf solved at the same time
             kf0 = self.bandObject.kf.flatten()
             # Sovle differential equation
-            self.kft = odeint(self.movement_equation, kf0, self.time_array,
-                              rtol = self.rtol, atol = self.atol).transpose()
+            with odeint_lock:
+                self.kft = odeint(self.movement_equation, kf0, self.time_array,
+                                  rtol = self.rtol, atol = self.atol).transpose()
             # Reshape arrays
             self.kft.shape = (3, len_kf, len_t)
             # Velocity function of time
-- 
2.43.0


From a846ea7b12de9e423f93937d5ae6e762d2aca023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 02/27] fix: allow setting N_time before the first run

---
 cuprates_transport/conductivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 861f1d8..7d92681 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -120,6 +120,8 @@ class Conductivity(Scattering):
         return self._N_time
     def _set_N_time(self, N_time):
         self._N_time = N_time
+        if self.time_max is None: # before the first run, the time grid does not exist yet
+            return
         self.dtime = self.time_max / self._N_time
         self.time_array = np.arange(0, self.time_max, self.dtime)
         # integrand for tau_function
-- 
2.43.0


From c122d779a72c4ec9dab36470a7973405a2426367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 03/27] fix: report zero alpha and beta tensors at T = 0

They were uninitialised memory, or those of the last finite T run.
---
 cuprates_transport/conductivity.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 7d92681..936ec40 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -284,6 +284,9 @@ class Conductivity(Scattering):
                                                   self.kft, self.vft,
                                                   self.t_o_tau)
             self.sigma = coeff_tot
+            # alpha and beta vanish at T = 0
+            self.alpha = np.zeros_like(coeff_tot)
+            self.beta  = np.zeros_like(coeff_tot)
         else:
             sigma_tot = 0
             alpha_tot = 0
-- 
2.43.0


From 2d127374092d2001adcda69eef50b72447f1ad45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 04/27] fix: build the time grid of a finite T run on the Fermi
 surface

It was built on whatever energy the band was discretised at before the run,
so that repeating a run could change its result.
---
 cuprates_transport/conductivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 936ec40..d58e99b 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -156,6 +156,8 @@ class Conductivity(Scattering):
 
     ## Methods >>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>#
     def runTransport(self):
+        if self._T != 0: # the time grid is that of the Fermi surface at epsilon = 0
+            self.bandObject.runBandStructure(epsilon = 0, printDoping=False)
         self.reset_time() # calculates the upper cut of for the movement equation
         self.phi = None # reset the phi angle
         if self._T != 0:
-- 
2.43.0


From b1ca5012e43cfeabaeb6f053296a03e7c6e7b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 05/27] fix: read back a band parameter whose value is zero

The truth value of the parameter was asserted.
---
 cuprates_transport/bandstructure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5e63a84..79dd81f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -106,11 +106,9 @@ class BandStructure:
 
     def __getitem__(self, key):
         try:
-            assert self._band_params[key]
+            return self._band_params[key]
         except KeyError:
             print(key + " is not a defined band parameter")
-        else:
-            return self._band_params[key]
 
     def get_band_param(self, key):
         return self[key]
-- 
2.43.0


From fe9db8862cfd15c059470df9705d0358eabbb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 06/27] fix: discard the Fermi surface when the doping is fixed

set_mu_to_doping changed mu behind the back of the discretised surface,
which stayed available for the former mu, and left the filling and doping
of the last trial value of mu.
---
 cuprates_transport/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 79dd81f..2ea4133 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -259,12 +259,12 @@ class BandStructure:
         return n_per_kz, p_per_kz
 
     def diff_doping(self, mu, p_target):
-        self._band_params["mu"] = mu
+        self["mu"] = mu
         return self.doping() - p_target
 
     def set_mu_to_doping(self, p_target, ptol=0.001):
-        self._band_params["mu"] = optimize.brentq(self.diff_doping, -10, 10,
-                                                  args=(p_target,), xtol=ptol)
+        self["mu"] = optimize.brentq(self.diff_doping, -10, 10,
+                                     args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
         if self.march_square is True:
-- 
2.43.0


From cebbe0a05240c11f4998930e789d4fd4edeb7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 07/27] fix: never mix two Fermi surfaces in a band

A new discretisation kept the mass, the density of states and, when it is
not from marching squares, the line elements of the former one; one that
failed or was interrupted left a mixture of both. Changing a parameter kept
the mass of the former parameters.
---
 cuprates_transport/bandstructure.py | 49 ++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 2ea4133..cf597f4 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -4,6 +4,7 @@ from scipy import optimize
 from scipy.constants import electron_mass, physical_constants, hbar
 import sympy as sp
 from numba import jit
+from contextlib import contextmanager
 from copy import deepcopy
 from skimage import measure
 import matplotlib as mpl
@@ -16,6 +17,17 @@ m0 = electron_mass                                      # in kg
 Angstrom = 1e-10                                        # 1 A in meters
 
 
+@contextmanager
+def restored_on_failure(obj):
+    """Puts the attributes of obj back if the block fails or is interrupted"""
+    attributes = vars(obj).copy()
+    try:
+        yield
+    except BaseException:
+        vars(obj).update(attributes)
+        raise
+
+
 class BandStructure:
     def __init__(self,
                  a, b, c,
@@ -135,14 +147,16 @@ class BandStructure:
 
     # Methods >>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>> #
     def runBandStructure(self, epsilon=0, printDoping=False):
-        self.discretize_fermi_surface(epsilon=epsilon)
-        self.doping(res_x=self.resolution[0]*10,
-                    res_y=self.resolution[1]*10,
-                    res_z=self.resolution[2]*10, printDoping=printDoping)
+        with restored_on_failure(self):
+            self.discretize_fermi_surface(epsilon=epsilon)
+            self.doping(res_x=self.resolution[0]*10,
+                        res_y=self.resolution[1]*10,
+                        res_z=self.resolution[2]*10, printDoping=printDoping)
 
     def erase_Fermi_surface(self):
         self.kf  = None
         self.vf  = None
+        self.mass = None
         self.dkf = None
         self.dks = None
         self.dkz = None
@@ -267,17 +281,22 @@ class BandStructure:
                                      args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
-        if self.march_square is True:
-            self.kf, self.dkf = self.marching_square(epsilon)
-        else:
-            self.kf, self.dkf = self.marching_cube(epsilon)
-        # Compute Velocity at t = 0 on Fermi Surface
-        vx, vy, vz = self.velocity_func(self.kf[0, :], self.kf[1, :], self.kf[2, :])
-        # dim -> (n, i0) = (xyz, position on FS)
-        self.vf = np.vstack([vx, vy, vz])
-        # Density of State of k, dos_k in  Joule^1 m^-1
-        # dos_k = 1 / (|grad(E)|) here = 1 / (hbar * |v|),
-        self.dos_k = 1 / (hbar * sqrt(self.vf[0,:]**2 + self.vf[1,:]**2 +self.vf[2,:]**2))
+        with restored_on_failure(self):
+            # Forget what belongs to the former surface
+            n, p = self.n, self.p # which do not depend on epsilon
+            self.erase_Fermi_surface()
+            self.n, self.p = n, p
+            if self.march_square is True:
+                self.kf, self.dkf = self.marching_square(epsilon)
+            else:
+                self.kf, self.dkf = self.marching_cube(epsilon)
+            # Compute Velocity at t = 0 on Fermi Surface
+            vx, vy, vz = self.velocity_func(self.kf[0, :], self.kf[1, :], self.kf[2, :])
+            # dim -> (n, i0) = (xyz, position on FS)
+            self.vf = np.vstack([vx, vy, vz])
+            # Density of State of k, dos_k in  Joule^1 m^-1
+            # dos_k = 1 / (|grad(E)|) here = 1 / (hbar * |v|),
+            self.dos_k = 1 / (hbar * sqrt(self.vf[0,:]**2 + self.vf[1,:]**2 +self.vf[2,:]**2))
 
     def rotation(self, x, y, angle):
         xp = cos(angle) * x + sin(angle) * y
-- 
2.43.0


From 2bfafbb7f3492ca4348d5ca1ffe83a793ca52d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 08/27] fix: leave the band as it was when a finite T run fails

Interrupting the energy integration left the band discretised at one of its
energies, and the next run used that surface.
---
 cuprates_transport/conductivity.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index d58e99b..ed15bc9 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -8,6 +8,7 @@ import matplotlib.pyplot as plt
 from matplotlib.collections import LineCollection
 from copy import deepcopy
 from threading import Lock
+from cuprates_transport.bandstructure import restored_on_failure
 from cuprates_transport.scattering import Scattering
 ##<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<#
 
@@ -156,6 +157,11 @@ class Conductivity(Scattering):
 
     ## Methods >>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>#
     def runTransport(self):
+        # the energy integration moves the band away from epsilon = 0
+        with restored_on_failure(self.bandObject):
+            self.run_transport()
+
+    def run_transport(self):
         if self._T != 0: # the time grid is that of the Fermi surface at epsilon = 0
             self.bandObject.runBandStructure(epsilon = 0, printDoping=False)
         self.reset_time() # calculates the upper cut of for the movement equation
-- 
2.43.0


From 26a88900406f65f3226ce8ce259faf7d75d98664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 09/27] fix: copy the lists and dictionaries given by the
 caller

Modifying k_max, the list of scattering models, a parameter dictionary or the
bounds and data dictionaries afterwards changed every computation created
from them, the default k_max being shared by all the bands.
---
 cuprates_transport/admr.py                        | 2 +-
 cuprates_transport/bandstructure.py               | 4 ++--
 cuprates_transport/fitting_admr_parallel_oneT.py  | 4 ++--
 cuprates_transport/fitting_admr_series_multi_T.py | 4 ++--
 cuprates_transport/fitting_admr_series_oneT.py    | 4 ++--
 cuprates_transport/scattering.py                  | 4 ++--
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 8905099..ee40bc4 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -12,7 +12,7 @@ class ADMR:
                  Btheta_step=5, Btheta_norm=0, Bphi_array=[0, 15, 30, 45],
                  show_progress=True, **kwargs):
         # Band dictionary
-        self.condObject_list = condObject_list
+        self.condObject_list = list(condObject_list)
         self.band_names = []
         for i in range(len(self.condObject_list)):
             self.band_names.append(condObject_list[i].bandObject.band_name)
diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index cf597f4..f0680f7 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -88,7 +88,7 @@ class BandStructure:
         # Number of subdivisions of the FBZ in units of Pi
         self.resolution = [res if res % 2 != 0 else res + 1 for res in resolution]
         # Unitless bounds of the Brillouin zone : k_x = [- k_max / a ... + k_max / a]
-        self.k_max = k_max # list
+        self.k_max = list(k_max)
 
         # Whether to use or not the marching square for higher symmetries
         self.march_square = march_square
@@ -133,7 +133,7 @@ class BandStructure:
         return self._band_params
 
     def _set_band_params(self, band_params):
-        self._band_params = band_params
+        self._band_params = deepcopy(band_params)
         self.erase_Fermi_surface()
     band_params = property(_get_band_params, _set_band_params)
 
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index bff76df..d28cb8c 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -24,8 +24,8 @@ class FittingADMRParallel:
         ## Initialize
         self.init_member = deepcopy(init_member) # contains all the parameters to calculate ADMR
         self.member      = deepcopy(init_member) # contains all the parameters to calculate ADMR
-        self.bounds_dict = bounds_dict
-        self.data_dict   = data_dict
+        self.bounds_dict = deepcopy(bounds_dict)
+        self.data_dict   = deepcopy(data_dict)
         self.init_time   = time.time()
         self.popsize     = popsize # the popsize for the differential evolution
         self.folder      = folder
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index a09cd42..b6541c3 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -25,7 +25,7 @@ class FittingADMR:
         self.init_member = deepcopy(init_member)
         self.ranges_dict = deepcopy(ranges_dict)
         self.data_dict   = deepcopy(data_dict)
-        self.data_T_list = init_member["data_T"]
+        self.data_T_list = list(init_member["data_T"])
         self.folder      = folder
         self.normalized_data = normalized_data
         self.pipi_FSR    = pipi_FSR
@@ -49,7 +49,7 @@ class FittingADMR:
         for param_name, param_value in init_member.items(): # then break the dictionaries of temperatures in member
             if type(param_value)==dict and param_name!="band_params":
                 for T in self.data_T_list:
-                    self.member_dict[T][param_name] = init_member[param_name][T]
+                    self.member_dict[T][param_name] = deepcopy(init_member[param_name][T])
 
         ## Objects
         if pipi_FSR==False:
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index ef2c0f8..f34f910 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -23,8 +23,8 @@ class FittingADMR:
         ## Initialize
         self.init_member = deepcopy(init_member)
         self.member      = deepcopy(init_member)
-        self.ranges_dict = ranges_dict
-        self.data_dict   = data_dict
+        self.ranges_dict = deepcopy(ranges_dict)
+        self.data_dict   = deepcopy(data_dict)
         self.folder      = folder
         self.normalized_data = normalized_data
         self.pipi_FSR    = pipi_FSR
diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 0723b3b..57c8a5f 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -23,7 +23,7 @@ def scattering_method(func):
 class Scattering:
     def __init__(self, scattering_models, scattering_params, **kwargs):
 
-        self.scattering_models = scattering_models
+        self.scattering_models = list(scattering_models)
         self._scattering_params = deepcopy(scattering_params)
         self.gamma_tot = np.empty(1) # [ps^-1] total scattering rate array
 
@@ -82,7 +82,7 @@ class Scattering:
         return self._scattering_params
 
     def _set_scattering_params(self, scattering_params):
-        self._scattering_params = scattering_params
+        self._scattering_params = deepcopy(scattering_params)
         # Set scattering rate model parameters as class attributes
         for param, value in self._scattering_params.items():
             setattr(self, param, value)  # Set each parameter as an attribute
-- 
2.43.0


From 2004c2fc621320e89046bad4ebda5cf6e7a77105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 10/27] fix: compute the total hole doping of a sweep

It always stayed zero, also in the file names, and the total filling summed
up the fillings of all the sweeps run before.
---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index ee40bc4..3fce056 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -66,9 +66,10 @@ class ADMR:
 
     #---------------------------------------------------------------------------
     def update_total_doping(self):
+        self.total_filling = 0
         for i in range(len(self.condObject_list)):
             self.total_filling += self.condObject_list[i].bandObject.n
-        self.total_hole_dopin = 1 - self.total_filling
+        self.total_hole_doping = 1 - self.total_filling
 
     def file_name_func(self):
         # To point to bandstructure parameters, we use just one band
-- 
2.43.0


From 5c40e7e61c841193355263993c686d5378daed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 11/27] fix: leave no trace of an interrupted angular sweep

The map of an interrupted sweep was published, its remaining cells being
uninitialised memory, and the field stayed at the last angles.
---
 cuprates_transport/admr.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 3fce056..89fde6a 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -39,8 +39,18 @@ class ADMR:
 
     ## Methods >>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>#
     def runADMR(self):
-        self.rhozz_array = np.empty((self.Bphi_array.size,
-                                     self.Btheta_array.size), dtype= np.float64)
+        angles = [(condObject.Bphi, condObject.Btheta) for condObject in self.condObject_list]
+        try:
+            self.rhozz_array, self.rzz_array = self.sweep_angles()
+        except BaseException: # an interrupted sweep leaves the field where it was
+            for condObject, (phi, theta) in zip(self.condObject_list, angles):
+                condObject.Bphi, condObject.Btheta = phi, theta
+            raise
+        self.update_total_doping()
+
+    def sweep_angles(self):
+        rhozz_array = np.empty((self.Bphi_array.size,
+                                self.Btheta_array.size), dtype= np.float64)
         if self.show_progress is True:
             iterator = enumerate(tqdm(self.Bphi_array, ncols=80, unit="phi", desc="ADMR"))
         else:
@@ -54,15 +64,15 @@ class ADMR:
                     self.condObject_list[l].runTransport()
                     sigma_tensor += self.condObject_list[l].sigma
                 rho = np.linalg.inv(sigma_tensor)
-                self.rhozz_array[i, j] = rho[2,2]
+                rhozz_array[i, j] = rho[2,2]
 
         ## Normalization
-        self.rzz_array = np.empty_like(self.rhozz_array)
+        rzz_array = np.empty_like(rhozz_array)
         for i in range(len(self.Bphi_array)):
             rhozz_norm = np.interp(self.Btheta_norm,
-                                   self.Btheta_array, self.rhozz_array[i,:])
-            self.rzz_array[i,:] = self.rhozz_array[i,:] / rhozz_norm
-        self.update_total_doping()
+                                   self.Btheta_array, rhozz_array[i,:])
+            rzz_array[i,:] = rhozz_array[i,:] / rhozz_norm
+        return rhozz_array, rzz_array
 
     #---------------------------------------------------------------------------
     def update_total_doping(self):
-- 
2.43.0


From a68734cad31fb3e1476101ec7ccbf9ff40116a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 12/27] fix: keep the chemical potential when a doping cannot
 be reached

It stayed at the last trial value of the root search.
---
 cuprates_transport/bandstructure.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index f0680f7..e718c69 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -277,8 +277,12 @@ class BandStructure:
         return self.doping() - p_target
 
     def set_mu_to_doping(self, p_target, ptol=0.001):
-        self["mu"] = optimize.brentq(self.diff_doping, -10, 10,
-                                     args=(p_target,), xtol=ptol)
+        mu = self["mu"]
+        try:
+            mu = optimize.brentq(self.diff_doping, -10, 10,
+                                 args=(p_target,), xtol=ptol)
+        finally: # back to the former value if the doping cannot be reached
+            self["mu"] = mu
 
     def discretize_fermi_surface(self, epsilon=0):
         with restored_on_failure(self):
@@ -627,6 +631,10 @@ def dopingCondition(mu,p_target,bandIterable):
 
 def set_mu_to_doping(bandIterable, p_target, ptol=0.001):
     print("Computing mu for hole doping = " + "{0:.3f}".format(p_target))
-    mu = optimize.brentq(dopingCondition, -10, 10, args=(p_target ,bandIterable), xtol=ptol)
-    for band in bandIterable:
-        band["mu"] = mu
+    mu_list = [band["mu"] for band in bandIterable]
+    try:
+        mu = optimize.brentq(dopingCondition, -10, 10, args=(p_target ,bandIterable), xtol=ptol)
+        mu_list = [mu for band in bandIterable]
+    finally: # back to the former values if the doping cannot be reached
+        for band, mu in zip(bandIterable, mu_list):
+            band["mu"] = mu
-- 
2.43.0


From 7d48cbfe204edd7e93123e2e6b3bf0598a5ab31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 13/27] fix: apply candidates that have a zero among their
 parameters

The misfit of such a candidate was the one of the former candidate.
---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index d421b6d..61b2aa0 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -205,10 +205,10 @@ class Fitness:
                 for T in self.T_list:
                     self.update_conditions(T, band, param, x[i])
 
-    def compute_fitness(self, x=np.array([0])):
+    def compute_fitness(self, x=None):
         """Compute chi2 = sum((sim[i] - data[i])**2)"""
         ## Update the params_dict with fit values
-        if x.all()!=0:
+        if x is not None:
             self.update_parameters(x)
         ## Compute sim, then diff
         diff_array = np.empty(0)
-- 
2.43.0


From 508d4bbe6ac57f94407aab2ccfd9ae76da5ac31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 14/27] fix: apply every kind of free parameter in the parallel
 multi T fit

Only the band and scattering parameters reached the simulation, the others
(energy scale, field, temperature...) were fitted without any effect.
---
 cuprates_transport/fitting_admr_parallel_multiT.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 61b2aa0..83159a5 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -116,10 +116,15 @@ class SimADMR:
 
     def update_params(self):
         for i, band in enumerate(self.bands_list):
-            band_params = self.params_dict[band]["band_params"]
-            scattering_params = self.params_dict[band]["scattering_params"]
-            self.admrObject.condObject_list[i].bandObject.band_params =  band_params
-            self.admrObject.condObject_list[i].scattering_params = scattering_params
+            params = self.params_dict[band]
+            condObject = self.admrObject.condObject_list[i]
+            for name in ["a", "b", "c", "energy_scale", "number_of_bz", "band_params"]:
+                if name in params.keys():
+                    setattr(condObject.bandObject, name, params[name])
+            for name in ["Bamp", "T", "N_epsilon", "dfdE_cut_percent", "N_time",
+                         "rtol", "atol", "scattering_params"]:
+                if name in params.keys():
+                    setattr(condObject, name, params[name])
 
     def compute_rhozz(self, Btheta_norm=0):
         """Calculate the simulated rhozz from ADMR object"""
-- 
2.43.0


From a880580fa3f643a833737b0aa7f5e44d335f2818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 15/27] fix: apply the free scattering parameters in the
 parallel one T fit

They were ignored in the misfit and in the returned parameters.
---
 .../fitting_admr_parallel_oneT.py               | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index d28cb8c..8688644 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -150,8 +150,8 @@ class FittingADMRParallel:
             self.rzz_data_matrix[i, :] = rzz_i
 
 
-    def compute_diff2(self, x, verbose=False):
-        """Compute diff = sim - data matrix"""
+    def update_member(self, x):
+        """Update member with fit parameters"""
         ## Creates the dictionnary of variables with updated values
         for i, pars_name in enumerate(self.free_pars_name):
             self.pars[pars_name] = x[i]
@@ -161,6 +161,14 @@ class FittingADMRParallel:
                 self.member[pars_name] = self.pars[pars_name]
             elif pars_name in self.member["band_params"].keys():
                 self.member["band_params"][pars_name] = self.pars[pars_name]
+            elif pars_name in self.member["scattering_params"].keys():
+                self.member["scattering_params"][pars_name] = self.pars[pars_name]
+
+
+    def compute_diff2(self, x, verbose=False):
+        """Compute diff = sim - data matrix"""
+        ## Update member with fit parameters
+        self.update_member(x)
 
         ## Compute ADMR ------------------------------------------------------------
         self.generate_admr()
@@ -395,11 +403,8 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
 
     pool.terminate()
     ## Export final parameters from the fit
+    fit_object.update_member(res.x)
     for i, pars_name in enumerate(fit_object.free_pars_name):
-        if pars_name in fit_object.member.keys():
-            fit_object.member[pars_name] = res.x[i]
-        elif pars_name in fit_object.member["band_params"].keys():
-            fit_object.member["band_params"][pars_name] = res.x[i]
         print(pars_name + " : " + "{0:g}".format(res.x[i]))
     ## Save BEST member to JSON
     fit_object.save_member_to_json(filename=filename)
-- 
2.43.0


From 438c0c8a743ed06d38bcbeab21111818c6da58d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 16/27] fix: draw the comparison figure of the parallel one T
 fit

Every fit ended with an AttributeError.
---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 8688644..2d19f5c 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -325,7 +325,7 @@ class FittingADMRParallel:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.condObject_dict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -333,7 +333,7 @@ class FittingADMRParallel:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From a589180aeaadfb2159c8fcfd68163e651d03c9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 17/27] fix: let the serial fits run to the end

With every method, they stopped on attributes that do not exist (any more)
when saving or drawing the result.
---
 .../fitting_admr_series_multi_T.py               | 16 ++++++++--------
 cuprates_transport/fitting_admr_series_oneT.py   | 14 +++++++-------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index b6541c3..c51b557 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -242,20 +242,20 @@ class FittingADMR:
         ## Run fit algorithm
         if self.method=="least_square":
             out = minimize(self.compute_diff, self.pars)
-        if self.method=="shgo":
+        elif self.method=="shgo":
             out = minimize(self.compute_diff, self.pars,
                            method='shgo', sampling_method='sobol', options={"f_tol": 1e-16}, n=100, iters=20)
-        if self.method=="ampgo":
+        elif self.method=="ampgo":
             out = minimize(self.compute_diff, self.pars,
                            method='ampgo')
-        if self.method=="dual_annealing":
+        elif self.method=="dual_annealing":
             out = minimize(self.compute_diff, self.pars,
                            method='dual_annealing')
-        if self.method=="differential_evolution":
+        elif self.method=="differential_evolution":
             out = minimize(self.compute_diff, self.pars,
                            method='differential_evolution')
         else:
-            print("This method does not exist in the class")
+            raise ValueError("This method does not exist in the class")
 
         ## Display fit report
         report_fit(out)
@@ -321,11 +321,11 @@ class FittingADMR:
             fig.text(0.84,0.84, r"$T$ (data) = " + str(self.member_dict[T]["data_T"]) + " K", fontsize=14)
             fig.text(0.84,0.79, r"$T$ (sim) = " + str(self.member_dict[T]["T"]) + " K", fontsize=14)
             fig.text(0.84,0.74, r"$p$ (data) = " + "{0:.2f}".format(self.member_dict[T]["data_p"]), fontsize=14)
-            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].totalHoleDoping), fontsize=14)
+            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].total_hole_doping), fontsize=14)
             #############################################
 
             #############################################
-            axes.set_xlim(0, self.admrObject.Btheta_max)
+            axes.set_xlim(0, self.admrObject_dict[T].Btheta_max)
             # axes.set_ylim(1+1.2*(min_y-1),1.2*(max_y-1)+1)
             axes.tick_params(axis='x', which='major', pad=7)
             axes.tick_params(axis='y', which='major', pad=8)
@@ -383,7 +383,7 @@ class FittingADMR:
                 plt.close(fig)
 
             ## Figure Parameters //////////////////////////////////////////////////////#
-            for iniCondObject in self.admrObject_dict[T].initialCondObjectDict.values():
+            for iniCondObject in self.admrObject_dict[T].condObject_list:
                 fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index f34f910..01df282 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -192,17 +192,17 @@ class FittingADMR:
         ## Run fit algorithm
         if self.method=="least_square":
             out = minimize(self.compute_diff, self.pars)
-        if self.method=="shgo":
+        elif self.method=="shgo":
             out = minimize(self.compute_diff, self.pars,
                            method='shgo', sampling_method='sobol', options={"f_tol": 1e-16}, n = 100, iters=20)
-        if self.method=="differential_evolution":
+        elif self.method=="differential_evolution":
             out = minimize(self.compute_diff, self.pars,
                            method='differential_evolution')
-        if self.method=="ampgo":
+        elif self.method=="ampgo":
             out = minimize(self.compute_diff, self.pars,
                            method='ampgo')
         else:
-            print("This method does not exist in the class")
+            raise ValueError("This method does not exist in the class")
 
         ## Display fit report
         report_fit(out)
@@ -231,7 +231,7 @@ class FittingADMR:
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
@@ -349,7 +349,7 @@ class FittingADMR:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.initialCondObjectDict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -357,7 +357,7 @@ class FittingADMR:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From 690f4d7922ff6830a9d866f94d51ed368215e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 18/27] fix: fit the scattering parameters in the serial fits

Free scattering parameters were either refused or without effect on the
simulated curves, since the scattering parameters have their own dictionary.
---
 .../fitting_admr_series_multi_T.py            | 68 ++++++++++---------
 .../fitting_admr_series_oneT.py               | 24 ++++---
 2 files changed, 50 insertions(+), 42 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index c51b557..916d7d4 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -31,14 +31,6 @@ class FittingADMR:
         self.pipi_FSR    = pipi_FSR
         self.weight_rhozz = 0
         self.pars        = Parameters()
-        for param_name, param_range in self.ranges_dict.items():
-            if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                for T in self.data_T_list:
-                    self.pars.add(param_name + "_" + str(T), value = self.init_member[param_name][T], min = param_range[T][0], max = param_range[T][-1])
-            elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
-                self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
-            elif param_name in self.init_member["band_params"].keys():
-                self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
 
         ## Create a dictionnary member that contains dictionnaries for each temperatures
@@ -47,10 +39,18 @@ class FittingADMR:
             self.member_dict[T] = deepcopy(init_member)
             self.member_dict[T]["data_T"] = T
         for param_name, param_value in init_member.items(): # then break the dictionaries of temperatures in member
-            if type(param_value)==dict and param_name!="band_params":
+            if type(param_value)==dict and param_name!="band_params" and set(self.data_T_list) <= set(param_value.keys()):
                 for T in self.data_T_list:
                     self.member_dict[T][param_name] = deepcopy(init_member[param_name][T])
 
+        ## Create the free parameters, one for each temperature if the ranges are given for each temperature
+        for param_name, param_range in self.ranges_dict.items():
+            if type(param_range)==dict and param_name in init_member["band_params"].keys():
+                raise ValueError(param_name + ": the band parameters are the same at all the temperatures")
+            for T in self.data_T_list:
+                T_range = param_range[T] if type(param_range)==dict else param_range
+                self.pars.add(self.label_func(param_name, T), value = self.param_location(param_name, T)[param_name], min = T_range[0], max = T_range[-1])
+
         ## Objects
         if pipi_FSR==False:
             self.bandObject = BandStructure(**self.member_dict[self.data_T_list[0]])
@@ -76,6 +76,28 @@ class FittingADMR:
         self.rzz_data_i_dict    = {}
 
 
+    def label_func(self, param_name, T):
+        """Name of the free parameter among the parameters of the fit"""
+        if type(self.ranges_dict[param_name])==dict:
+            return param_name + "_" + str(T).replace(".", "_")
+        else:
+            return param_name
+
+
+    def param_location(self, param_name, T):
+        """Dictionary of the member at temperature T that contains the parameter"""
+        for param_dict in [self.member_dict[T], self.member_dict[T]["band_params"], self.member_dict[T]["scattering_params"]]:
+            if param_name in param_dict.keys():
+                return param_dict
+
+
+    def update_member(self, pars):
+        """Update member with fit parameters"""
+        for param_name in self.ranges_dict.keys():
+            for T in self.data_T_list:
+                self.param_location(param_name, T)[param_name] = pars[self.label_func(param_name, T)].value
+
+
     def produce_ADMR_object(self):
         ## Update bandObject
         for param_name in self.ranges_dict.keys():
@@ -191,24 +213,11 @@ class FittingADMR:
             self.member_dict[T]["Btheta_step"] = float(self.Btheta_dict[T][1] - self.Btheta_dict[T][0])
 
         ## Update member with fit parameters
-        for param_name in self.ranges_dict.keys():
-            for T in self.data_T_list:
-                if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                    self.member_dict[T][param_name] = self.pars[param_name + "_" + str(T)].value
-                elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
-                    self.member_dict[T][param_name] = self.pars[param_name].value
-                elif param_name in self.init_member["band_params"].keys():
-                    self.member_dict[T]["band_params"][param_name] = self.pars[param_name].value
+        self.update_member(self.pars)
 
         # Print params
-        for param_name in self.ranges_dict.keys():
-            if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                        for T in self.data_T_list:
-                            print(param_name + "_" + str(T) + " : " + "{0:g}".format(self.pars[param_name + "_" + str(T)].value))
-            elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
-                        print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
-            elif param_name in self.init_member["band_params"].keys():
-                        print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
+        for label in self.pars.keys():
+            print(label + " : " + "{0:g}".format(self.pars[label].value))
 
         ## Compute ADMR ------------------------------------------------------------
         self.produce_ADMR_object()
@@ -261,14 +270,7 @@ class FittingADMR:
         report_fit(out)
 
         ## Export final parameters from the fit
-        for param_name in self.ranges_dict.keys():
-            for T in self.data_T_list:
-                if param_name in self.init_member.keys() and type(self.init_member[param_name])==dict:
-                    self.member_dict[T][param_name] = out.params[param_name + "_" + str(T)].value
-                elif param_name in self.init_member.keys() and type(self.init_member[param_name])!=dict:
-                    self.member_dict[T][param_name] = out.params[param_name].value
-                elif param_name in self.init_member["band_params"].keys():
-                    self.member_dict[T]["band_params"][param_name] = out.params[param_name].value
+        self.update_member(out.params)
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 01df282..86c35f9 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -34,6 +34,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
         ## Differential evolution
         self.population  = population
@@ -142,6 +144,17 @@ class FittingADMR:
             self.rzz_data_matrix[i, :] = rzz_i
 
 
+    def update_member(self, pars):
+        """Update member with fit parameters"""
+        for param_name in self.ranges_dict.keys():
+            if param_name in self.init_member.keys():
+                self.member[param_name] = pars[param_name].value
+            elif param_name in self.init_member["band_params"].keys():
+                self.member["band_params"][param_name] = pars[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = pars[param_name].value
+
+
     def compute_diff(self, pars):
         """Compute diff = sim - data matrix"""
 
@@ -159,11 +172,8 @@ class FittingADMR:
         self.member["Btheta_step"] = float(self.Btheta_array[1] - self.Btheta_array[0])
 
         ## Update member with fit parameters
+        self.update_member(self.pars)
         for param_name in self.ranges_dict.keys():
-            if param_name in self.init_member.keys():
-                self.member[param_name] = self.pars[param_name].value
-            elif param_name in self.init_member["band_params"].keys():
-                self.member["band_params"][param_name] = self.pars[param_name].value
             print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
 
         ## Compute ADMR ------------------------------------------------------------
@@ -208,11 +218,7 @@ class FittingADMR:
         report_fit(out)
 
         ## Export final parameters from the fit
-        for param_name in self.ranges_dict.keys():
-            if param_name in self.init_member.keys():
-                self.member[param_name] = out.params[param_name].value
-            elif param_name in self.init_member["band_params"].keys():
-                self.member["band_params"][param_name] = out.params[param_name].value
+        self.update_member(out.params)
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From 16858c4ae19c746fd46ecff8172e2e9991d35880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 19/27] fix: keep the angle grid of a fit when the data are
 loaded again

The grid is rebuilt from its own first, last and step values, which could
add one angle at each evaluation or when a saved fit is resumed.
---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 3 ++-
 cuprates_transport/fitting_admr_series_multi_T.py | 3 ++-
 cuprates_transport/fitting_admr_series_oneT.py    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 2d19f5c..1604a22 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -104,8 +104,9 @@ class FittingADMRParallel:
 
     def load_Btheta_data(self):
         """Creates the theta angles at the selected temperatures and phi"""
+        # (the margin keeps round-off errors from adding an angle to a saved grid)
         Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
+                                 self.member["Btheta_max"] + (1 - 1e-6) * self.member["Btheta_step"],
                                  self.member["Btheta_step"])
         ## Create Bphi
         self.load_Bphi_data()
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 916d7d4..0156a16 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -137,8 +137,9 @@ class FittingADMR:
         ## Loop over all temperatures
         for T in self.data_T_list:
             ## Create Initial Btheta
+            # (the margin keeps round-off errors from adding an angle to a saved grid)
             Btheta_array = np.arange(self.member_dict[T]["Btheta_min"],
-                                     self.member_dict[T]["Btheta_max"] + self.member_dict[T]["Btheta_step"],
+                                     self.member_dict[T]["Btheta_max"] + (1 - 1e-6) * self.member_dict[T]["Btheta_step"],
                                      self.member_dict[T]["Btheta_step"])
             ## Create Bphi
             self.load_Bphi_data()
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 86c35f9..b3cb923 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -94,8 +94,9 @@ class FittingADMR:
 
     def load_Btheta_data(self):
         ## Create Initial Btheta
+        # (the margin keeps round-off errors from adding an angle to a saved grid)
         Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
+                                 self.member["Btheta_max"] + (1 - 1e-6) * self.member["Btheta_step"],
                                  self.member["Btheta_step"])
         ## Create Bphi
         self.load_Bphi_data()
-- 
2.43.0


From b19ba59d4a3147fb95dcb6b07f35e91b0c415b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 20/27] fix: never keep partly filled data matrices

When a data file could not be read, its rows and the following ones stayed
at zero in the object.
---
 cuprates_transport/fitting_admr_parallel_multiT.py | 10 ++++++----
 cuprates_transport/fitting_admr_parallel_oneT.py   | 10 ++++++----
 cuprates_transport/fitting_admr_series_oneT.py     | 10 ++++++----
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 83159a5..5349209 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -62,8 +62,8 @@ class DataADMR:
         data_dict[data_T, phi] = [filename, col_theta, col_rhozz, theta_min, theta_max, theta_steps]
         """
         ## Interpolate data over theta of simulation
-        self.rzz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
-        self.rhozz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
+        rzz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
+        rhozz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
         for i, phi in enumerate(self.Bphi_array):
             filename  = self.data_dict[self.T, phi][0]
             col_theta = self.data_dict[self.T, phi][1]
@@ -82,8 +82,10 @@ class DataADMR:
             rzz_i   = rhozz_i / np.interp(Btheta_norm, theta, rhozz) # rhozz / rhozz(theta=theta_norm)
             rhozz_i *= rhozz_norm
             ## Store data
-            self.rhozz_data_matrix[i, :] = rhozz_i
-            self.rzz_data_matrix[i, :] = rzz_i
+            rhozz_data_matrix[i, :] = rhozz_i
+            rzz_data_matrix[i, :] = rzz_i
+        self.rhozz_data_matrix = rhozz_data_matrix
+        self.rzz_data_matrix = rzz_data_matrix
 
 
 ## -------------------------------------------------------------------------------
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 1604a22..7a66584 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -128,8 +128,8 @@ class FittingADMRParallel:
         ## Create array of phi at the selected temperature
         self.load_Bphi_data()
         ## Interpolate data over theta of simulation
-        self.rzz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
-        self.rhozz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
+        rzz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
+        rhozz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
         for i, phi in enumerate(self.Bphi_array):
             filename     = self.data_dict[self.member["data_T"], phi][0]
             col_theta    = self.data_dict[self.member["data_T"], phi][1]
@@ -147,8 +147,10 @@ class FittingADMRParallel:
             rzz  /= np.interp(0, theta, rzz)
             rzz_i = np.interp(self.Btheta_array, theta, rzz) # "i" is for interpolated
             ## Store data
-            self.rhozz_data_matrix[i, :] = rzz_i * rhozz_0
-            self.rzz_data_matrix[i, :] = rzz_i
+            rhozz_data_matrix[i, :] = rzz_i * rhozz_0
+            rzz_data_matrix[i, :] = rzz_i
+        self.rhozz_data_matrix = rhozz_data_matrix
+        self.rzz_data_matrix = rzz_data_matrix
 
 
     def update_member(self, x):
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index b3cb923..c4a26c2 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -121,8 +121,8 @@ class FittingADMR:
         self.load_Bphi_data()
 
         ## Interpolate data over theta of simulation
-        self.rzz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
-        self.rhozz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
+        rzz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
+        rhozz_data_matrix = np.zeros((len(self.Bphi_array), len(self.Btheta_array)))
         for i, phi in enumerate(self.Bphi_array):
             filename     = self.data_dict[self.member["data_T"], phi][0]
             col_theta    = self.data_dict[self.member["data_T"], phi][1]
@@ -141,8 +141,10 @@ class FittingADMR:
             rzz  /= np.interp(0, theta, rzz)
             rzz_i = np.interp(self.Btheta_array, theta, rzz) # "i" is for interpolated
 
-            self.rhozz_data_matrix[i, :] = rzz_i * rhozz_0
-            self.rzz_data_matrix[i, :] = rzz_i
+            rhozz_data_matrix[i, :] = rzz_i * rhozz_0
+            rzz_data_matrix[i, :] = rzz_i
+        self.rhozz_data_matrix = rhozz_data_matrix
+        self.rzz_data_matrix = rzz_data_matrix
 
 
     def update_member(self, pars):
-- 
2.43.0


From 9f53a3ef8544fcd02dd092760f5518041e404001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:07 +0000
Subject: [PATCH 21/27] fix: make a reloaded fit result usable

The temperatures of a multi temperature fit came back as strings, and the
parameters that are not free were not given to the band.
---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 3 +++
 cuprates_transport/fitting_admr_series_multi_T.py | 6 +++++-
 cuprates_transport/fitting_admr_series_oneT.py    | 2 ++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 7a66584..dd4d42b 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -209,6 +209,9 @@ class FittingADMRParallel:
     def load_member_from_json(self):
         with open(self.folder + "/" + self.json_name, "r") as f:
             self.member = json.load(f)
+        self.bandObject = BandStructure(**self.member, parallel=False)
+        self.bandObject.march_square = True
+        self.load_and_interp_data()
 
 
     def save_member_to_json(self, filename=None):
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 0156a16..ce8de59 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -282,7 +282,11 @@ class FittingADMR:
 
     def load_member_from_json(self):
         with open(self.folder + "/" + self.json_name, "r") as f:
-            self.member_dict = json.load(f)
+            member_dict = json.load(f)
+        # The keys are strings in the file
+        self.member_dict = {T: member_dict[json.dumps(T)] for T in self.data_T_list}
+        self.bandObject = BandStructure(**self.member_dict[self.data_T_list[0]])
+        self.bandObject.march_square = True
 
 
     def save_member_to_json(self, filename=None):
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index c4a26c2..f687b4f 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -233,6 +233,8 @@ class FittingADMR:
     def load_member_from_json(self):
         with open(self.folder + "/" + self.json_name, "r") as f:
             self.member = json.load(f)
+        self.bandObject = BandStructure(**self.member)
+        self.bandObject.march_square = True
 
 
     def save_member_to_json(self, filename=None):
-- 
2.43.0


From 7de6e15546edca370161845f7ea38986b1e3c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 22/27] fix: save a result entirely or not at all

The former result was truncated first: a full disk, an error or a kill while
saving lost it and left a torn file in its place.
---
 cuprates_transport/admr.py                    |  6 +++--
 .../fitting_admr_parallel_multiT.py           |  6 +++--
 .../fitting_admr_parallel_oneT.py             |  6 +++--
 .../fitting_admr_series_multi_T.py            |  6 +++--
 .../fitting_admr_series_oneT.py               |  6 +++--
 cuprates_transport/saving.py                  | 22 +++++++++++++++++++
 6 files changed, 42 insertions(+), 10 deletions(-)
 create mode 100644 cuprates_transport/saving.py

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 89fde6a..0d6a7d4 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -5,6 +5,7 @@ import matplotlib as mpl
 import matplotlib.pyplot as plt
 from matplotlib.ticker import MultipleLocator, FormatStrFormatter
 from matplotlib.backends.backend_pdf import PdfPages
+from cuprates_transport.saving import replaced_when_complete
 ##<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<#
 
 class ADMR:
@@ -189,8 +190,9 @@ class ADMR:
             filename = folder + "Rzz_" + self.file_name_func() + ".dat"
         else:
             filename = folder + filename
-        np.savetxt(filename, Data, fmt='%.7e',
-        header = DataHeader, comments = "#")
+        with replaced_when_complete(filename) as temporary:
+            np.savetxt(temporary, Data, fmt='%.7e',
+            header = DataHeader, comments = "#")
 
 
     def figADMR(self, fig_show=True, fig_save=True, folder="", filename=None):
diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 5349209..c048d2d 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -14,6 +14,7 @@ from scipy.optimize import differential_evolution
 from cuprates_transport.bandstructure import BandStructure
 from cuprates_transport.admr import ADMR
 from cuprates_transport.conductivity import Conductivity
+from cuprates_transport.saving import replaced_when_complete
 ##<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<
 
 ## -------------------------------------------------------------------------------
@@ -311,8 +312,9 @@ class Fitness:
 
     def save_member_to_json(self, filename="file", folder=""):
         path = os.path.join(folder, filename + ".json")
-        with open(path, 'w') as f:
-            json.dump(self.params_dict, f, indent=4)
+        with replaced_when_complete(path) as temporary:
+            with open(temporary, 'w') as f:
+                json.dump(self.params_dict, f, indent=4)
 
 
 
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index dd4d42b..1d35a01 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -14,6 +14,7 @@ from scipy.optimize import differential_evolution
 from cuprates_transport.bandstructure import BandStructure
 from cuprates_transport.admr import ADMR
 from cuprates_transport.conductivity import Conductivity
+from cuprates_transport.saving import replaced_when_complete
 ##<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<
 
 class FittingADMRParallel:
@@ -221,8 +222,9 @@ class FittingADMRParallel:
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
             "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
-        with open(path, 'w') as f:
-            json.dump(self.member, f, indent=4)
+        with replaced_when_complete(path) as temporary:
+            with open(temporary, 'w') as f:
+                json.dump(self.member, f, indent=4)
 
 
     def fig_compare(self, fig_show=True, fig_save=False, figname=None):
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index ce8de59..5c15973 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -12,6 +12,7 @@ from matplotlib.backends.backend_pdf import PdfPages
 from cuprates_transport.bandstructure import BandStructure, set_mu_to_doping, doping
 from cuprates_transport.admr import ADMR
 from cuprates_transport.conductivity import Conductivity
+from cuprates_transport.saving import replaced_when_complete
 ##<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<
 
 class FittingADMR:
@@ -298,8 +299,9 @@ class FittingADMR:
             path += "fit_.json"
         else:
             path = self.folder + "/" + filename + ".json"
-        with open(path, 'w') as f:
-            json.dump(self.member_dict, f, indent=4)
+        with replaced_when_complete(path) as temporary:
+            with open(temporary, 'w') as f:
+                json.dump(self.member_dict, f, indent=4)
 
 
     def fig_compare(self, fig_show=True, fig_save=False, figname=None):
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index f687b4f..ca88170 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -11,6 +11,7 @@ from matplotlib.backends.backend_pdf import PdfPages
 from cuprates_transport.bandstructure import BandStructure
 from cuprates_transport.admr import ADMR
 from cuprates_transport.conductivity import Conductivity
+from cuprates_transport.saving import replaced_when_complete
 ##<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<
 
 class FittingADMR:
@@ -244,8 +245,9 @@ class FittingADMR:
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
             "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
-        with open(path, 'w') as f:
-            json.dump(self.member, f, indent=4)
+        with replaced_when_complete(path) as temporary:
+            with open(temporary, 'w') as f:
+                json.dump(self.member, f, indent=4)
 
 
     def fig_compare(self, fig_show=True, fig_save=False, figname=None):
diff --git a/cuprates_transport/saving.py b/cuprates_transport/saving.py
new file mode 100644
index 0000000..656cdf9
--- /dev/null
+++ b/cuprates_transport/saving.py
@@ -0,0 +1,22 @@
+import os
+from contextlib import contextmanager, suppress
+from uuid import uuid4
+##<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<
+
+@contextmanager
+def replaced_when_complete(path):
+    """
+    Gives the path of a temporary file to write, which takes the place of the
+    file at path once it is complete. If writing fails, or if the process is
+    killed, the file at path stays as it was.
+    """
+    folder, filename = os.path.split(os.path.realpath(path))
+    extension = os.path.splitext(filename)[1]
+    temporary = os.path.join(folder, ".saving_" + uuid4().hex + extension)
+    try:
+        yield temporary
+        os.replace(temporary, os.path.join(folder, filename))
+    except BaseException:
+        with suppress(OSError):
+            os.remove(temporary)
+        raise
-- 
2.43.0


From a98aeaa72a5713329b3a125856068b88e1985f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 23/27] fix: end a parallel fit with an error when a worker
 dies

Pool.map waits forever for the result of a lost worker. The workers also kept
running when the fit ended with an error.
---
 .../fitting_admr_parallel_multiT.py           | 18 ++++++++--------
 .../fitting_admr_parallel_oneT.py             | 21 ++++++++-----------
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index c048d2d..c2d19a9 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -4,7 +4,8 @@ import os
 import sys
 from copy import deepcopy
 from psutil import cpu_count
-from multiprocessing import Pool, Value
+from multiprocessing import Value
+from concurrent.futures import ProcessPoolExecutor
 from time import time
 import matplotlib.pyplot as plt
 from matplotlib.ticker import MultipleLocator, FormatStrFormatter
@@ -341,8 +342,6 @@ def fit_admr_parallel(params_dict, bounds_dict, data_dict,
     print("# Parallelization | CPU cores: " + str(num_cpu) + " | Workers: " + str(num_workers) )
     ## Initialize counter
     num_member = Value('i', 0)
-    ## Create pool of workers
-    pool = Pool(processes=num_workers, initializer = init, initargs = (num_member, ))
     ## Variables for Callback function
     global iteration
     iteration = 0
@@ -363,14 +362,15 @@ def fit_admr_parallel(params_dict, bounds_dict, data_dict,
         print(text)
         sys.stdout.flush()
     ## Differential evolution
-    res = differential_evolution(fitness_obj.compute_fitness, fitness_obj.bounds,
-                                updating='deferred', workers=pool.map,
-                                popsize=popsize, mutation=mutation,
-                                recombination=recombination, polish=False,
-                                callback=callback)
+    ## (the workers are released in any case, and losing one of them is an error)
+    with ProcessPoolExecutor(num_workers, initializer=init, initargs=(num_member, )) as pool:
+        res = differential_evolution(fitness_obj.compute_fitness, fitness_obj.bounds,
+                                    updating='deferred', workers=pool.map,
+                                    popsize=popsize, mutation=mutation,
+                                    recombination=recombination, polish=False,
+                                    callback=callback)
     # res = shgo(fitness_obj.compute_fitness, fitness_obj.bounds,
     #                              workers=pool.map, callback=callback)
-    pool.terminate()
     ## Export final parameters from the fit
     fitness_obj.update_parameters(res.x)
     fitness_obj.compute_fitness()
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 1d35a01..e25a69c 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -4,7 +4,8 @@ import time
 import sys
 from copy import deepcopy
 from psutil import cpu_count
-from multiprocessing import Pool, Value
+from multiprocessing import Value
+from concurrent.futures import ProcessPoolExecutor
 import matplotlib as mpl
 import matplotlib.pyplot as plt
 from matplotlib.ticker import MultipleLocator, FormatStrFormatter
@@ -373,11 +374,6 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
     print("# workers: " + str(num_workers))
     ## Initialize counter
     num_member = Value('i', 0)
-    ## Create pool of workers
-
-
-    pool = Pool(processes=num_workers,
-                initializer = init, initargs = (num_member, ))
 
     global iteration
     iteration = 0
@@ -403,13 +399,14 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
     c = callback()
 
     ## Differential evolution
-    res = differential_evolution(fit_object.compute_diff2, fit_object.bounds,
-                                 updating='deferred', workers=pool.map,
-                                 popsize=popsize, mutation=mutation,
-                                 recombination=recombination, polish=False,
-                                 callback=c)
+    ## (the workers are released in any case, and losing one of them is an error)
+    with ProcessPoolExecutor(num_workers, initializer=init, initargs=(num_member, )) as pool:
+        res = differential_evolution(fit_object.compute_diff2, fit_object.bounds,
+                                     updating='deferred', workers=pool.map,
+                                     popsize=popsize, mutation=mutation,
+                                     recombination=recombination, polish=False,
+                                     callback=c)
 
-    pool.terminate()
     ## Export final parameters from the fit
     fit_object.update_member(res.x)
     for i, pars_name in enumerate(fit_object.free_pars_name):
-- 
2.43.0


From 340b551ca7c2f6470c6f7708f1f1c6d96536a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 24/27] fix: fit on hosts with an unknown or small number of
 processors

The number of workers was computed from None, or was zero.
---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 cuprates_transport/fitting_admr_parallel_oneT.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index c2d19a9..585ba91 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -337,8 +337,8 @@ def fit_admr_parallel(params_dict, bounds_dict, data_dict,
     fitness_obj = Fitness(data_dict, params_dict, bounds_dict, normalized_data)
     ## Initialize workers
     if num_cpu is None:
-        num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+        num_cpu = cpu_count(logical=False) or cpu_count() or 1 # None if unknown
+    num_workers = max(1, int(percent_workers / 100 * num_cpu))
     print("# Parallelization | CPU cores: " + str(num_cpu) + " | Workers: " + str(num_workers) )
     ## Initialize counter
     num_member = Value('i', 0)
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index e25a69c..ee5e42d 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -368,8 +368,8 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
                 bounds_dict=bounds_dict, data_dict=data_dict, popsize=popsize,
                 normalized_data=normalized_data)
     if num_cpu is None:
-        num_cpu = cpu_count(logical=False)
-    num_workers = int(percent_workers / 100 * num_cpu)
+        num_cpu = cpu_count(logical=False) or cpu_count() or 1 # None if unknown
+    num_workers = max(1, int(percent_workers / 100 * num_cpu))
     print("# cpu cores: " + str(num_cpu))
     print("# workers: " + str(num_workers))
     ## Initialize counter
-- 
2.43.0


From 4d377b1fd565e716d81db4ae27c4e057011a182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 25/27] fix: normalise a sweep whose polar angles do not
 increase

np.interp needs increasing abscissas. With descending or unsorted polar angles
rzz_array was divided by something else than rhozz(Btheta_norm).
---
 cuprates_transport/admr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 0d6a7d4..4173fd5 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -69,9 +69,10 @@ class ADMR:
 
         ## Normalization
         rzz_array = np.empty_like(rhozz_array)
+        order = np.argsort(self.Btheta_array) # np.interp needs increasing angles
         for i in range(len(self.Bphi_array)):
-            rhozz_norm = np.interp(self.Btheta_norm,
-                                   self.Btheta_array, rhozz_array[i,:])
+            rhozz_norm = np.interp(self.Btheta_norm, self.Btheta_array[order],
+                                   rhozz_array[i, order])
             rzz_array[i,:] = rhozz_array[i,:] / rhozz_norm
         return rhozz_array, rzz_array
 
-- 
2.43.0


From 68a05093c45ae157feb9d363c092f89147ea37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 26/27] fix: a sweep that cannot state its total filling
 changes nothing

runADMR stored the new maps before the totals, and update_total_doping set the
total filling to zero first: when the filling of a band was not known, the new
maps stayed with a partial filling and the former hole doping.
---
 cuprates_transport/admr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 4173fd5..3194408 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -5,6 +5,7 @@ import matplotlib as mpl
 import matplotlib.pyplot as plt
 from matplotlib.ticker import MultipleLocator, FormatStrFormatter
 from matplotlib.backends.backend_pdf import PdfPages
+from cuprates_transport.bandstructure import restored_on_failure
 from cuprates_transport.saving import replaced_when_complete
 ##<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<#
 
@@ -42,12 +43,13 @@ class ADMR:
     def runADMR(self):
         angles = [(condObject.Bphi, condObject.Btheta) for condObject in self.condObject_list]
         try:
-            self.rhozz_array, self.rzz_array = self.sweep_angles()
+            with restored_on_failure(self): # maps and totals of the same sweep
+                self.rhozz_array, self.rzz_array = self.sweep_angles()
+                self.update_total_doping()
         except BaseException: # an interrupted sweep leaves the field where it was
             for condObject, (phi, theta) in zip(self.condObject_list, angles):
                 condObject.Bphi, condObject.Btheta = phi, theta
             raise
-        self.update_total_doping()
 
     def sweep_angles(self):
         rhozz_array = np.empty((self.Bphi_array.size,
-- 
2.43.0


From bc1d3940d51c3f4a928c3fe6ad948d1aaf333887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 27/27] fix: forget scattering parameters that are not given
 any more

---
 cuprates_transport/scattering.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 57c8a5f..68096d1 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -82,6 +82,9 @@ class Scattering:
         return self._scattering_params
 
     def _set_scattering_params(self, scattering_params):
+        # Forget the former parameters that are not given any more
+        for param in self._scattering_params.keys():
+            vars(self).pop(param, None)
         self._scattering_params = deepcopy(scattering_params)
         # Set scattering rate model parameters as class attributes
         for param, value in self._scattering_params.items():
-- 
2.43.0

