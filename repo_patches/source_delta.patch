From 0db814885670facea184d024722f0c7630db90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 01/33] fix: always restore the old value when leaving
 BasicConfig.context

---
 chaosmagpy/config_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 50b3525..713997a 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -290,9 +290,12 @@ class BasicConfig(dict):
 
         """
         old_value = self.__getitem__(key)
-        self.__setitem__(key, value)
-        yield
-        self.__setitem__(key, old_value)
+        try:
+            self.__setitem__(key, value)
+            yield
+        finally:
+            # restore as is, the old value need not pass the checks anymore
+            super().__setitem__(key, old_value)
 
 
 # load defaults
-- 
2.43.0


From 517c689d582133d8902793bbedf02fe8f4eeb65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 02/33] fix: do not hand out the default arrays of the
 configuration

---
 chaosmagpy/config_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 713997a..644c82a 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -76,6 +76,7 @@ be accessed after importing chaosmagpy through:
 
 import os
 import re
+import copy
 import json
 import numpy as np
 import warnings
@@ -213,7 +214,8 @@ class BasicConfig(dict):
         Load all default values.
 
         """
-        super().update({key: val for key, (val, _) in self.defaults.items()})
+        super().update({key: copy.copy(val)
+                        for key, (val, _) in self.defaults.items()})
 
     def load(self, filepath):
         """
@@ -299,7 +301,8 @@ class BasicConfig(dict):
 
 
 # load defaults
-basicConfig = BasicConfig({key: val for key, (val, _) in DEFAULTS.items()})
+basicConfig = BasicConfig({key: copy.copy(val)
+                           for key, (val, _) in DEFAULTS.items()})
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 164decdad2a080e75eb23bb2b76b325ab8074242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 03/33] fix: load configuration files completely or not at all

---
 chaosmagpy/config_utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 644c82a..e635023 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -185,12 +185,16 @@ class BasicConfig(dict):
     def __setitem__(self, key, value):
         """Set and check value before updating dictionary."""
 
+        super().__setitem__(key, self._check(key, value))
+
+    def _check(self, key, value):
+        """Return checked and converted value."""
+
         try:
             try:
-                cval = self.defaults[key][1](value)
+                return self.defaults[key][1](value)
             except ValueError as err:
                 raise ValueError(f'Key "{key}": {err}')
-            super().__setitem__(key, cval)
         except KeyError:
             raise KeyError(f'"{key}" is not a valid parameter.')
 
@@ -235,9 +239,10 @@ class BasicConfig(dict):
             warnings.warn(
                 'Configuration dictionary loaded from file is empty.')
 
-        for key, value in kwargs.items():
-            # check format and set key value pairs
-            self.__setitem__(key, value)
+        # check format of all key value pairs before setting any of them
+        kwargs = {key: self._check(key, value)
+                  for key, value in kwargs.items()}
+        super().update(kwargs)
 
     def save(self, filepath):
         """
-- 
2.43.0


From 2fa14916144e8934fa2ec2097f1bdcad40f67fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:30 +0000
Subject: [PATCH 04/33] fix: save path objects in configuration files instead
 of null

---
 chaosmagpy/config_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index e635023..aee2e6d 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -259,6 +259,9 @@ class BasicConfig(dict):
         def default(obj):
             if isinstance(obj, np.ndarray):
                 return obj.tolist()
+            if isinstance(obj, (os.PathLike, bytes)):
+                return os.fsdecode(obj)
+            raise TypeError(f'Cannot save value of type {type(obj)}.')
 
         with open(filepath, 'w') as f:
             json.dump(self, f, default=default, indent=4, sort_keys=True)
-- 
2.43.0


From ee2d8c256ccc78bf2ea11ff51e0ef76fb42df626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 05/33] fix: plot_power_spectrum must not change its input

---
 chaosmagpy/plot_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/plot_utils.py b/chaosmagpy/plot_utils.py
index 51227d4..f6d8261 100644
--- a/chaosmagpy/plot_utils.py
+++ b/chaosmagpy/plot_utils.py
@@ -257,7 +257,8 @@ def plot_power_spectrum(spectrum, **kwargs):
     ylabel = kwargs.pop('ylabel')
 
     degrees = np.arange(1, spectrum.shape[0] + 1, step=1.0)
-    spectrum[spectrum == 0] = np.nan  # remove non-positive values for log
+    # remove non-positive values for log
+    spectrum = np.where(spectrum == 0, np.nan, spectrum)
 
     # create axis handle
     fig, ax = plt.subplots(1, 1, sharex=True, sharey=True, figsize=figsize)
-- 
2.43.0


From 3b6d22b5fd15dc7f493f9bd37660341b28bf6674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 06/33] fix: load_CHAOS_matfile must not extend the list of
 satellites passed in

---
 chaosmagpy/chaos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index a602014..5d3e422 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2594,8 +2594,8 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         if n < m:
             satellites = satellites[:n]
         elif n > m:
-            for counter in range(m+1, n+1):
-                satellites.append(f'satellite_{counter}')
+            satellites = list(satellites) + [
+                f'satellite_{counter}' for counter in range(m+1, n+1)]
 
         # coefficients and breaks of euler angles
         breaks_euler = dict()
-- 
2.43.0


From 46d4ae5f42abde0f7571843856f6649d4901e161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 07/33] fix: read the ellipsoid only once per coordinate
 conversion

---
 chaosmagpy/coordinate_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 199b6d6..179f24c 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -924,8 +924,8 @@ def gg_to_geo(height, beta, X=None, Z=None):
 
     """
 
-    a = config_utils.basicConfig['params.ellipsoid'][0]  # equatorial radius
-    b = config_utils.basicConfig['params.ellipsoid'][1]  # polar radius
+    # equatorial and polar radius
+    a, b = config_utils.basicConfig['params.ellipsoid']
 
     # convert geodetic colatitude to latitude
     alpha = np.radians(90. - beta)
@@ -1006,8 +1006,8 @@ def geo_to_gg(radius, theta, B_radius=None, B_theta=None):
 
     """
 
-    a = config_utils.basicConfig['params.ellipsoid'][0]  # equatorial radius
-    b = config_utils.basicConfig['params.ellipsoid'][1]  # polar radius
+    # equatorial and polar radius
+    a, b = config_utils.basicConfig['params.ellipsoid']
 
     a2 = a**2
     b2 = b**2
-- 
2.43.0


From bf5de30ccb3baeec84ca683dafb6dfde567903a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 08/33] fix: do not read the reference radius twice in
 BaseModel.power_spectrum

---
 chaosmagpy/chaos.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 5d3e422..01667aa 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -466,9 +466,7 @@ class BaseModel(Base):
 
         """
 
-        if radius is None:
-            radius = config_utils.basicConfig['params.r_surf']
-
+        # with radius=None, the spectrum is for the reference radius
         coeffs = self.synth_coeffs(time, **kwargs)
         spec = mu.power_spectrum(coeffs, radius, source=self.source)
 
-- 
2.43.0


From f28003dcdc6a24f6bcf51ae8f174da7f092cc2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 09/33] fix: save the dipole that was used in rotate_gauss_fft

---
 chaosmagpy/coordinate_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 179f24c..131c6d2 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -377,11 +377,13 @@ shape (``filter``, ``nmax`` (``nmax`` + 2), ``kmax`` (``kmax`` + 2))
 
     time = np.arange(N) * step / 24. + start_date  # time in days
 
+    dipole = config_utils.basicConfig['params.dipole']
+
     # compute base vectors of time-dependent reference system
     if str(reference).lower() == 'gsm':
-        base_1, base_2, base_3 = basevectors_gsm(time)
+        base_1, base_2, base_3 = basevectors_gsm(time, dipole=dipole)
     elif str(reference).lower() == 'sm':
-        base_1, base_2, base_3 = basevectors_sm(time)
+        base_1, base_2, base_3 = basevectors_sm(time, dipole=dipole)
     else:
         raise ValueError('Reference system must be either "GSM" or "SM".')
 
@@ -455,7 +457,7 @@ shape (``filter``, ``nmax`` (``nmax`` + 2), ``kmax`` (``kmax`` + 2))
                  frequency_ind=frequency_ind, spectrum_ind=spectrum_ind,
                  step=step, N=N, filter=filter, reference=reference,
                  scaled=scaled,
-                 dipole=config_utils.basicConfig['params.dipole'],
+                 dipole=dipole,
                  start_date=start_date)
         print("Output saved to {:}".format(save_to))
 
-- 
2.43.0


From 2a5049dd42efe042870610acae74f6909dbd71fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 10/33] fix: reject SHC-files with missing rows of coefficients

---
 chaosmagpy/data_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index cb076d9..3da3965 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -281,6 +281,12 @@ def load_shcfile(filepath, leap_year=None, comment=None):
         coeffs = data[parameters['N']:].reshape((-1, parameters['N']+2))
         coeffs = coeffs[:, 2:].copy()  # discard columns with n and m
 
+        nrows = (parameters['nmax'] + 1)**2 - parameters['nmin']**2
+        if coeffs.shape[0] != nrows:
+            raise ValueError(
+                f'Expected {nrows} rows of coefficients in SHC-file '
+                f'"{filepath}", but found {coeffs.shape[0]}.')
+
         mjd = dyear_to_mjd(time, leap_year=leap_year)
 
     return mjd, coeffs, parameters
-- 
2.43.0


From cb1f7f6d503c5bb1377c51fae86cc69d87e8cce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 11/33] fix: reject truncated COV-OBS, gufm1 and CALS7K files

---
 chaosmagpy/chaos.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 01667aa..655cf23 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2843,6 +2843,9 @@ def load_CovObs_txtfile(filepath, name=None):
 
     data = np.fromstring(' '.join(lines[2:]), sep=' ')
 
+    if breaks.size <= order:
+        raise ValueError(f'Too few break points in file "{filepath}".')
+
     # add zeros at endpoints to match manually extended knots
     coeffs = np.zeros((knots.size - order, nmax * (nmax + 2)))
 
@@ -2937,7 +2940,7 @@ def load_gufm1_txtfile(filepath, name=None):
 
     # insert actual coefficients, endpoint coefficients are now zero
     coeffs[degree:-degree, :] = data[(nbreaks + 2):].reshape(
-        (breaks.size - order, nmax * (nmax + 2)))
+        (nbreaks - order, nmax * (nmax + 2)))
 
     return BaseModel.from_bspline(name, knots, coeffs, order,
                                   source='internal')
@@ -3031,7 +3034,7 @@ def load_CALS7K_txtfile(filepath, name=None):
 
     # insert actual coefficients, endpoint coefficients are now zero
     coeffs[degree:-degree, :] = data[(7+nbreaks):].reshape(
-        (breaks.size - order, dim))
+        (nbreaks - order, dim))
 
     return BaseModel.from_bspline(name, knots, coeffs, order,
                                   source='internal')
-- 
2.43.0


From e0f05ae4ee577a642fa0813172c3b186eb7d2c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 12/33] fix: sample each polynomial piece exactly order-1 times
 when saving SHC-files

---
 chaosmagpy/chaos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 655cf23..570d076 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -734,8 +734,8 @@ class BaseModel(Base):
             times = np.array([], dtype=float)
 
             for start, end in zip(self.breaks[:-1], self.breaks[1:]):
-                delta = (end - start) / step
-                times = np.append(times, np.arange(start, end, delta))
+                times = np.append(
+                    times, np.linspace(start, end, step, endpoint=False))
 
             times = np.append(times, self.breaks[-1])
 
-- 
2.43.0


From 9bb5356456489ae8a6a19b55b11c8d31c1b4adec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 13/33] fix: announce the RC-index file only after it is closed

---
 chaosmagpy/data_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 3da3965..a5441c8 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -210,7 +210,10 @@ def save_RC_h5file(filepath, read_from=None):
                 else:
                     f.create_dataset(column, data=variable)  # just save floats
 
-            print(f'Successfully saved to {f.filename}.')
+            filename = f.filename
+
+        # file is complete only after closing
+        print(f'Successfully saved to {filename}.')
 
     except Exception as err:
         warnings.warn(f"Can't save new RC index. Raised exception: '{err}'.")
-- 
2.43.0


From d3e7c109667f4937b084a86a989e70727ef685e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 14/33] fix: close the rotation spectrum files after reading

---
 chaosmagpy/chaos.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 570d076..40465d8 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1575,8 +1575,9 @@ str, {'internal', 'external'}
                 'frame.')
 
         # build rotation matrix from file
-        frequency_spectrum = np.load(
-            config_utils.basicConfig['file.GSM_spectrum'])
+        with np.load(config_utils.basicConfig['file.GSM_spectrum']) as npz:
+            frequency_spectrum = dict(npz)
+
         assert np.all(frequency_spectrum['dipole']
                       == config_utils.basicConfig['params.dipole']), \
             "GSM rotation coefficients not compatible with the chosen dipole."
@@ -1782,8 +1783,9 @@ str, {'internal', 'external'}
                 'extrapolation of the coefficients in the SM reference frame.')
 
         # load the Fourier spectrum of the coordinate transformation from file
-        frequency_spectrum = np.load(
-            config_utils.basicConfig['file.SM_spectrum'])
+        with np.load(config_utils.basicConfig['file.SM_spectrum']) as npz:
+            frequency_spectrum = dict(npz)
+
         assert np.all(frequency_spectrum['dipole']
                       == config_utils.basicConfig['params.dipole']), \
             ("Coefficients for the SM coordinate transformation are not " +
-- 
2.43.0


From e658126d36051b3adb3c47841676373f673c8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 15/33] fix: load MAT-files with single satellites, pieces or
 calibration models

---
 chaosmagpy/chaos.py      | 17 +++++++++++------
 chaosmagpy/data_utils.py |  4 ++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 40465d8..cf0214b 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2572,7 +2572,7 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         # reshape to comply with scipy PPoly coefficients
         coeffs_delta = dict()
         coeffs_delta['q10'] = model_ext['q10'].reshape((1, -1))
-        qs11 = model_ext['qs11']
+        qs11 = model_ext['qs11'].reshape((-1, 2))
         coeffs_delta['q11'] = qs11[:, 0].reshape((1, -1))
         coeffs_delta['s11'] = qs11[:, 1].reshape((1, -1))
 
@@ -2586,8 +2586,12 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         breaks_euler = None
 
     else:
+        # cell arrays with only one entry are unwrapped by load_matfile
+        def as_cell(value):
+            return value if value.dtype == np.dtype('O') else [value]
+
         # append generic satellite name if more data available or reduce
-        t_break_Euler = model_euler['t_break_Euler']
+        t_break_Euler = as_cell(model_euler['t_break_Euler'])
         n = len(t_break_Euler)
         m = len(satellites)
 
@@ -2600,13 +2604,13 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
         # coefficients and breaks of euler angles
         breaks_euler = dict()
         for num, satellite in enumerate(satellites):
-            breaks_euler[satellite] = t_break_Euler[num].squeeze()
+            breaks_euler[satellite] = np.squeeze(t_break_Euler[num])
 
         coeffs_euler = dict()
         for num, satellite in enumerate(satellites):
 
-            angles = [model_euler[angle][num] for angle in [
-                'alpha', 'beta', 'gamma']]
+            angles = [as_cell(model_euler[angle])[num].reshape((-1, 1))
+                      for angle in ['alpha', 'beta', 'gamma']]
             euler = np.concatenate(angles, axis=-1).astype(float)
 
             # first: order, second: number of intervals, third: 3 angles
@@ -2629,7 +2633,8 @@ def load_CHAOS_matfile(filepath, name=None, satellites=None):
     # load additional parameters
     try:
         params = mat_contents['params']
-        dict_params = {'Euler_prerotation': params['Euler_prerotation']}
+        dict_params = {'Euler_prerotation': np.reshape(
+            params['Euler_prerotation'], (-1, 3))}
 
     except KeyError as err:
         warnings.warn(f'Missing params dictionary of Euler prerotation: {err}')
diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index a5441c8..f40701c 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -84,8 +84,8 @@ def load_matfile(filepath, variable_names=None, **kwargs):
 
             # if no fields in array
             if names is None:
-                if struct.dtype == np.dtype('O') and struct.shape == (1, 1):
-                    return traverse_struct(struct[0, 0])
+                if struct.dtype == np.dtype('O') and struct.size == 1:
+                    return traverse_struct(struct.item())
                 else:
                     return struct.squeeze()
 
-- 
2.43.0


From c3fbc5c65bc1b82deee43d64ba850f6e781d568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 16/33] fix: save Euler angles of satellites with equal numbers
 of pieces as cells

---
 chaosmagpy/chaos.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index cf0214b..b2ab362 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2312,16 +2312,22 @@ str, {'internal', 'external'}
                 gamma.append(self.model_euler[satellite].coeffs[
                     0, :, 2].reshape((-1, 1)).astype(float))
 
-            hdf.write(np.array(t_break_Euler, dtype='object'),
+            # one cell per satellite, also if the shapes are all equal
+            def as_cell(arrays):
+                cell = np.empty((len(arrays),), dtype='object')
+                cell[:] = arrays
+                return cell
+
+            hdf.write(as_cell(t_break_Euler),
                       path='/model_Euler/t_break_Euler/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(alpha, dtype='object'),
+            hdf.write(as_cell(alpha),
                       path='/model_Euler/alpha/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(beta, dtype='object'),
+            hdf.write(as_cell(beta),
                       path='/model_Euler/beta/',
                       filename=filepath, matlab_compatible=True)
-            hdf.write(np.array(gamma, dtype='object'),
+            hdf.write(as_cell(gamma),
                       path='/model_Euler/gamma/',
                       filename=filepath, matlab_compatible=True)
 
-- 
2.43.0


From 585e3fdbd35aefa1d6b4ce30d7785a3713f54cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:07 +0000
Subject: [PATCH 17/33] fix: overwrite an existing MAT-file when saving a CHAOS
 model

---
 chaosmagpy/chaos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index b2ab362..7ecf195 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -2252,6 +2252,10 @@ str, {'internal', 'external'}
 
         """
 
+        # start a new file, do not mix with the content of an existing one
+        if os.path.exists(filepath):
+            os.remove(filepath)
+
         # write time-dependent internal field model to matfile
         if self.model_tdep:
             self.model_tdep.save_matfile(filepath)
-- 
2.43.0


From f61ba5eb09fc4c06a127e8f5982d91da42635987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:52 +0000
Subject: [PATCH 18/33] fix: accept a single time when saving SHC-files, as
 documented

---
 chaosmagpy/data_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index f40701c..fae5f85 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -327,7 +327,7 @@ def save_shcfile(time, coeffs, order=None, filepath=None, nmin=None, nmax=None,
 
     """
 
-    time = np.asarray(time, dtype=float)
+    time = np.atleast_1d(np.asarray(time, dtype=float))
 
     order = 1 if order is None else int(order)
 
-- 
2.43.0


From 7fe173ba8652259ebd87cb5f17d71e8785f74f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 19/33] fix: load MAT-files under the name given, also without
 extension

---
 chaosmagpy/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index fae5f85..d4f5d12 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -98,6 +98,9 @@ def load_matfile(filepath, variable_names=None, **kwargs):
         else:
             return struct
 
+    # do not append the extension if the file exists as given
+    kwargs.setdefault('appendmat', not os.path.isfile(filepath))
+
     output = hdf.loadmat(filepath, variable_names=variable_names, **kwargs)
 
     # loadmat returns dictionary, go through keys and call traverse_struct
-- 
2.43.0


From ff650597c9f0a7f0d377bb69900a524e72d7f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 20/33] fix: do not parse error pages as the listing of
 RC-index files

---
 chaosmagpy/data_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index d4f5d12..0815f67 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -142,6 +142,7 @@ def load_RC_datfile(filepath=None, parse_dates=None):
         link = "http://www.spacecenter.dk/files/magnetic-models/RC/current/"
 
         page = requests.get(link)
+        page.raise_for_status()
         print(f'Accessing {page.url}.')
 
         tree = html.fromstring(page.content)
-- 
2.43.0


From 42d27c595d0c4271c6932e1242a2d718d8f1d6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 21/33] fix: survive disk errors while saving the RC-index file

---
 chaosmagpy/data_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 0815f67..70efcfb 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -33,6 +33,7 @@ import pandas as pd
 import numpy as np
 import hdf5storage as hdf
 import warnings
+import io
 import h5py
 import os
 import datetime as dt
@@ -203,7 +204,10 @@ def save_RC_h5file(filepath, read_from=None):
     try:
         df_rc = load_RC_datfile(read_from, parse_dates=False)
 
-        with h5py.File(filepath, 'w') as f:
+        # HDF5 does not survive disk errors, so build the file in memory
+        buffer = io.BytesIO()
+
+        with h5py.File(buffer, 'w') as f:
 
             for column in df_rc.columns:
                 variable = df_rc[column].values
@@ -214,10 +218,11 @@ def save_RC_h5file(filepath, read_from=None):
                 else:
                     f.create_dataset(column, data=variable)  # just save floats
 
-            filename = f.filename
+        with open(filepath, 'wb') as f:
+            f.write(buffer.getvalue())
 
         # file is complete only after closing
-        print(f'Successfully saved to {filename}.')
+        print(f'Successfully saved to {filepath}.')
 
     except Exception as err:
         warnings.warn(f"Can't save new RC index. Raised exception: '{err}'.")
-- 
2.43.0


From 8c7dc638c437781429eec6b31b6645addde5f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 22/33] fix: reject RC-index files without any values

---
 chaosmagpy/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 70efcfb..71b7c4e 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -162,6 +162,9 @@ def load_RC_datfile(filepath=None, parse_dates=None):
     df = pd.read_csv(filepath, sep=r'\s+', comment='#',
                      dtype=column_types, names=column_names)
 
+    if df.empty:
+        raise ValueError(f'No RC-index values found in "{filepath}".')
+
     parse_dates = False if parse_dates is None else parse_dates
 
     # set datetime as index
-- 
2.43.0


From c9039a929c43ec31e9be88725b10cfa669ec6283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 23/33] fix: close the rotation spectrum files also if they are
 damaged

---
 chaosmagpy/chaos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 7ecf195..9c43a52 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1575,7 +1575,8 @@ str, {'internal', 'external'}
                 'frame.')
 
         # build rotation matrix from file
-        with np.load(config_utils.basicConfig['file.GSM_spectrum']) as npz:
+        with open(config_utils.basicConfig['file.GSM_spectrum'], 'rb') as f, \
+                np.load(f) as npz:
             frequency_spectrum = dict(npz)
 
         assert np.all(frequency_spectrum['dipole']
@@ -1783,7 +1784,8 @@ str, {'internal', 'external'}
                 'extrapolation of the coefficients in the SM reference frame.')
 
         # load the Fourier spectrum of the coordinate transformation from file
-        with np.load(config_utils.basicConfig['file.SM_spectrum']) as npz:
+        with open(config_utils.basicConfig['file.SM_spectrum'], 'rb') as f, \
+                np.load(f) as npz:
             frequency_spectrum = dict(npz)
 
         assert np.all(frequency_spectrum['dipole']
-- 
2.43.0


From bcb5899566afbe02eaf3f43b107ceab547574515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 24/33] fix: close the connection if the RC-index file cannot
 be fetched

---
 chaosmagpy/data_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 71b7c4e..d976ca0 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -38,6 +38,7 @@ import h5py
 import os
 import datetime as dt
 import textwrap
+from urllib.error import HTTPError
 
 
 def load_matfile(filepath, variable_names=None, **kwargs):
@@ -159,8 +160,13 @@ def load_RC_datfile(filepath=None, parse_dates=None):
     column_types = {'time': 'float64', 'RC': 'float64', 'RC_e': 'float64',
                     'RC_i': 'float64', 'flag': 'category'}
 
-    df = pd.read_csv(filepath, sep=r'\s+', comment='#',
-                     dtype=column_types, names=column_names)
+    try:
+        df = pd.read_csv(filepath, sep=r'\s+', comment='#',
+                         dtype=column_types, names=column_names)
+
+    except HTTPError as err:
+        err.close()  # the error holds on to the connection
+        raise
 
     if df.empty:
         raise ValueError(f'No RC-index values found in "{filepath}".')
-- 
2.43.0


From 0249c0b710ded2d68cae25d8fccf0fa054556098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 25/33] fix: evaluate unscaled rotation spectra that were read
 from a file

---
 chaosmagpy/coordinate_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/coordinate_utils.py b/chaosmagpy/coordinate_utils.py
index 131c6d2..8812e23 100755
--- a/chaosmagpy/coordinate_utils.py
+++ b/chaosmagpy/coordinate_utils.py
@@ -249,7 +249,7 @@ def synth_rotate_gauss(time, frequency, spectrum, scaled=None):
     harmonics = np.empty(freq_t.shape, dtype=complex)
     harmonics = np.cos(freq_t) + 1j*np.sin(freq_t)
 
-    if scaled is False:
+    if not scaled:
         # scale non-offset coefficients by 2 before synthesizing matrices
         harmonics = np.where(frequency > 0.0, 2*harmonics, harmonics)
 
-- 
2.43.0


From 77bdde45621a4ce268bacd1a76208e2ff7392f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:00 +0000
Subject: [PATCH 26/33] fix: reject RC-index files with incomplete rows

---
 chaosmagpy/data_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index d976ca0..7530a9e 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -171,6 +171,9 @@ def load_RC_datfile(filepath=None, parse_dates=None):
     if df.empty:
         raise ValueError(f'No RC-index values found in "{filepath}".')
 
+    if df['flag'].isna().any():  # last column is empty in short rows
+        raise ValueError(f'Incomplete rows found in "{filepath}".')
+
     parse_dates = False if parse_dates is None else parse_dates
 
     # set datetime as index
-- 
2.43.0


From 905807144b62ac46a734eebabb9fe7a9abba4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:00 +0000
Subject: [PATCH 27/33] fix: replace the RC-index file in one step

The file was truncated and rewritten in place: another process that evaluated
the external field meanwhile failed or read an incomplete file, and a full disk
or the death of the process destroyed the previous index.
---
 chaosmagpy/data_utils.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index 7530a9e..e8d5110 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -36,6 +36,8 @@ import warnings
 import io
 import h5py
 import os
+import shutil
+import uuid
 import datetime as dt
 import textwrap
 from urllib.error import HTTPError
@@ -230,8 +232,23 @@ def save_RC_h5file(filepath, read_from=None):
                 else:
                     f.create_dataset(column, data=variable)  # just save floats
 
-        with open(filepath, 'wb') as f:
-            f.write(buffer.getvalue())
+        # replace the file in one step, it may be in use
+        path = os.path.realpath(filepath)
+        part = f'{path}.{uuid.uuid4().hex}.tmp'
+
+        try:
+            with open(part, 'wb') as f:
+                f.write(buffer.getvalue())
+
+            if os.path.exists(path):
+                shutil.copymode(path, part)
+
+            os.replace(part, path)
+
+        except BaseException:
+            if os.path.exists(part):
+                os.remove(part)
+            raise
 
         # file is complete only after closing
         print(f'Successfully saved to {filepath}.')
-- 
2.43.0


From 6939150ad4f5bdecabc1aaa9459eb2c89ab6a8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:13 +0000
Subject: [PATCH 28/33] fix: close the connection to the RC-index server

---
 chaosmagpy/data_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/data_utils.py b/chaosmagpy/data_utils.py
index e8d5110..0befa80 100644
--- a/chaosmagpy/data_utils.py
+++ b/chaosmagpy/data_utils.py
@@ -145,7 +145,8 @@ def load_RC_datfile(filepath=None, parse_dates=None):
 
         link = "http://www.spacecenter.dk/files/magnetic-models/RC/current/"
 
-        page = requests.get(link)
+        # otherwise the connection is kept as long as the response exists
+        page = requests.get(link, headers={'Connection': 'close'})
         page.raise_for_status()
         print(f'Accessing {page.url}.')
 
-- 
2.43.0


From 6c32c5a1cdcf659bcceba7b0706fdc0570359df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 29/33] fix: refuse spectra of another dipole also under python
 -O

---
 chaosmagpy/chaos.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 9c43a52..81b8cff 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -1579,9 +1579,11 @@ str, {'internal', 'external'}
                 np.load(f) as npz:
             frequency_spectrum = dict(npz)
 
-        assert np.all(frequency_spectrum['dipole']
-                      == config_utils.basicConfig['params.dipole']), \
-            "GSM rotation coefficients not compatible with the chosen dipole."
+        if not np.all(frequency_spectrum['dipole']
+                      == config_utils.basicConfig['params.dipole']):
+            raise AssertionError(
+                "GSM rotation coefficients not compatible with the chosen "
+                "dipole.")
 
         if source == 'external':
             # unpack file: oscillations per day, complex spectrum
@@ -1788,10 +1790,11 @@ str, {'internal', 'external'}
                 np.load(f) as npz:
             frequency_spectrum = dict(npz)
 
-        assert np.all(frequency_spectrum['dipole']
-                      == config_utils.basicConfig['params.dipole']), \
-            ("Coefficients for the SM coordinate transformation are not " +
-             "compatible with the chosen dipole.")
+        if not np.all(frequency_spectrum['dipole']
+                      == config_utils.basicConfig['params.dipole']):
+            raise AssertionError(
+                "Coefficients for the SM coordinate transformation are not "
+                "compatible with the chosen dipole.")
 
         if rc is None:
 
-- 
2.43.0


From 478b7c8e4b7bc306713e3e634ca6a01dce5cb699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 30/33] fix: refuse invalid configuration vectors also under
 python -O

---
 chaosmagpy/config_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index aee2e6d..59ea870 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -125,7 +125,8 @@ def check_vector(s, len=None):
     """Check that input is vector of required length."""
     try:
         s = np.array(s)
-        assert s.ndim == 1
+        if s.ndim != 1:
+            raise ValueError(f'Wrong dimension: {s.ndim} != 1.')
         if len is not None:
             if s.size != len:
                 raise ValueError(f'Wrong length: {s.size} != {len}.')
-- 
2.43.0


From a81fda1fd48a9700ccc07dcd02076ecd827bac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:29 +0000
Subject: [PATCH 31/33] fix: convert knots to native floats in colloc_matrix

---
 chaosmagpy/model_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chaosmagpy/model_utils.py b/chaosmagpy/model_utils.py
index 02c8b78..ce026c5 100644
--- a/chaosmagpy/model_utils.py
+++ b/chaosmagpy/model_utils.py
@@ -178,7 +178,8 @@ def colloc_matrix(x, knots, order, deriv=None):
         return np.zeros((max(x.size, 1), knots.size - order))
 
     else:
-        # create spline using scipy.interpolate
+        # create spline using scipy.interpolate (takes native floats only)
+        knots = np.ascontiguousarray(knots, dtype=float)
         coll = np.empty((max(x.size, 1), knots.size - order))
 
         for n in range(knots.size - order):
-- 
2.43.0


From 846427920f05ac0304639390db30e17717ceef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:37 +0000
Subject: [PATCH 32/33] fix: refuse IGRF files whose rows are incomplete or do
 not fill a degree

---
 chaosmagpy/chaos.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/chaosmagpy/chaos.py b/chaosmagpy/chaos.py
index 81b8cff..c3880f4 100644
--- a/chaosmagpy/chaos.py
+++ b/chaosmagpy/chaos.py
@@ -3146,7 +3146,19 @@ def load_IGRF_txtfile(filepath, name=None):
                 newline = np.array(tmp[3:], dtype=float)  # strip degree/order
                 data = np.append(data, newline)
 
+                if tmp and newline.size != breaks.size:
+                    raise ValueError(
+                        f'Found {newline.size} instead of {breaks.size} '
+                        f'coefficients in a row of "{filepath}".')
+
     data = np.reshape(data, (-1, breaks.size))
+
+    nmax = int(np.sqrt(data.shape[0] + 1) - 1)
+    if nmax < 1 or data.shape[0] != nmax*(nmax + 2):
+        raise ValueError(
+            f'Number of rows with coefficients in "{filepath}" does not fit '
+            'any spherical harmonic degree.')
+
     data[:, -1] = 5*data[:, -1] + data[:, -2]  # sv is in the last column
     coeffs = data.T
 
-- 
2.43.0


From 1f077e4e2e9895d534d41f47bdf1c9d4d99a11c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:28 +0000
Subject: [PATCH 33/33] fix: refuse integers as the path of a file

---
 chaosmagpy/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chaosmagpy/config_utils.py b/chaosmagpy/config_utils.py
index 59ea870..220fbf6 100644
--- a/chaosmagpy/config_utils.py
+++ b/chaosmagpy/config_utils.py
@@ -91,7 +91,7 @@ def check_path_exists(s):
     """Check that path to file exists."""
     if s is None or s == 'None':
         return None
-    if os.path.exists(s):
+    if os.path.exists(os.fspath(s)):    # integers are no paths
         return s
     else:
         raise FileNotFoundError(f'{s} does not exist.')
-- 
2.43.0

